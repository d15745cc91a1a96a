//! Analysis roots.  Nothing in this crate is ever executed: the driver compiles it against /repo's crate and
//! dumps the monomorphised MIR reachable from the `root_*` functions.  Only the public API of the crate under
//! analysis is used, so that internal refactorings do not move the anchors.
#![no_std]
#![allow(clippy::all)]

use unicode_normalization as un;

/// The source of characters: an oracle.  The analysis never looks into the `src_*` functions.
pub struct Src {
    pub id: usize,
}
#[inline(never)]
pub fn src_next(_s: &mut Src) -> Option<char> {
    loop {}
}
#[inline(never)]
pub fn src_size_hint(_s: &Src) -> (usize, Option<usize>) {
    loop {}
}
#[inline(never)]
pub fn src_clone(_s: &Src) -> Src {
    loop {}
}
impl Iterator for Src {
    type Item = char;
    #[inline(never)]
    fn next(&mut self) -> Option<char> {
        src_next(self)
    }
    #[inline(never)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        src_size_hint(self)
    }
}
impl Clone for Src {
    fn clone(&self) -> Src {
        src_clone(self)
    }
}

/// The consumer of emitted characters: an oracle.
pub struct Sink {
    pub id: usize,
}
#[inline(never)]
pub fn emit(_s: &mut Sink, _c: char) {
    loop {}
}

/// Single-character functions.  The `anchor_*` functions only name an instance used as a cut point.
#[cfg(feature = "chars")]
pub mod chars {
    use super::*;
    pub fn root_decompose_canonical(c: char, s: &mut Sink) {
        un::char::decompose_canonical(c, |d| emit(s, d))
    }
    pub fn root_decompose_compatible(c: char, s: &mut Sink) {
        un::char::decompose_compatible(c, |d| emit(s, d))
    }
    pub fn root_decompose_cjk(c: char, s: &mut Sink) {
        un::char::decompose_cjk_compat_variants(c, |d| emit(s, d))
    }
    pub fn root_compose(a: char, b: char) -> Option<char> {
        un::char::compose(a, b)
    }
    pub fn root_ccc(c: char) -> u8 {
        un::char::canonical_combining_class(c)
    }
    pub fn root_is_combining_mark(c: char) -> bool {
        un::char::is_combining_mark(c)
    }
    pub fn root_is_public_assigned(c: char) -> bool {
        un::char::is_public_assigned(c)
    }
    pub fn root_version() -> (u8, u8, u8) {
        un::UNICODE_VERSION
    }
}

pub mod anchors {
    use super::*;
    pub fn anchor_ccc(c: char) -> u8 {
        un::char::canonical_combining_class(c)
    }
    pub fn anchor_compose(a: char, b: char) -> Option<char> {
        un::char::compose(a, b)
    }
    pub fn anchor_nfd_next(x: &mut un::Decompositions<Src>) -> Option<char> {
        x.next()
    }
}

/// The transformations over an arbitrary source.
#[cfg(feature = "forms")]
pub mod forms {
    use super::*;
    use un::UnicodeNormalization as U;
    pub fn root_new_nfd(s: Src) -> un::Decompositions<Src> {
        U::nfd(s)
    }
    pub fn root_new_nfkd(s: Src) -> un::Decompositions<Src> {
        U::nfkd(s)
    }
    pub fn root_new_nfc(s: Src) -> un::Recompositions<Src> {
        U::nfc(s)
    }
    pub fn root_new_nfkc(s: Src) -> un::Recompositions<Src> {
        U::nfkc(s)
    }
    pub fn root_new_cjk(s: Src) -> un::Replacements<Src> {
        U::cjk_compat_variants(s)
    }
    pub fn root_new_ss(s: Src) -> un::StreamSafe<Src> {
        U::stream_safe(s)
    }
    pub fn root_next_d(x: &mut un::Decompositions<Src>) -> Option<char> {
        x.next()
    }
    pub fn root_next_c(x: &mut un::Recompositions<Src>) -> Option<char> {
        x.next()
    }
    pub fn root_next_cjk(x: &mut un::Replacements<Src>) -> Option<char> {
        x.next()
    }
    pub fn root_next_ss(x: &mut un::StreamSafe<Src>) -> Option<char> {
        x.next()
    }
}

#[cfg(feature = "hints")]
pub mod hints {
    use super::*;
    pub fn root_hint_d(x: &un::Decompositions<Src>) -> (usize, Option<usize>) {
        x.size_hint()
    }
    pub fn root_hint_c(x: &un::Recompositions<Src>) -> (usize, Option<usize>) {
        x.size_hint()
    }
    pub fn root_hint_cjk(x: &un::Replacements<Src>) -> (usize, Option<usize>) {
        x.size_hint()
    }
    pub fn root_hint_ss(x: &un::StreamSafe<Src>) -> (usize, Option<usize>) {
        x.size_hint()
    }
}

#[cfg(feature = "clonefmt")]
pub mod clonefmt {
    use super::*;
    use core::fmt;
    pub fn root_clone_d(x: &un::Decompositions<Src>) -> un::Decompositions<Src> {
        x.clone()
    }
    pub fn root_clone_c(x: &un::Recompositions<Src>) -> un::Recompositions<Src> {
        x.clone()
    }
    pub fn root_clone_cjk(x: &un::Replacements<Src>) -> un::Replacements<Src> {
        x.clone()
    }
    pub fn root_fmt_d(x: &un::Decompositions<Src>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(x, f)
    }
    pub fn root_fmt_c(x: &un::Recompositions<Src>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(x, f)
    }
    pub fn root_fmt_cjk(x: &un::Replacements<Src>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(x, f)
    }
    pub fn anchor_next_d(x: &mut un::Decompositions<Src>) -> Option<char> {
        x.next()
    }
    pub fn anchor_next_c(x: &mut un::Recompositions<Src>) -> Option<char> {
        x.next()
    }
    pub fn anchor_next_cjk(x: &mut un::Replacements<Src>) -> Option<char> {
        x.next()
    }
}

/// Internal iteration: the provided methods of `Iterator`, which an implementation may override.
#[cfg(feature = "adaptors")]
pub mod adaptors {
    use super::*;
    macro_rules! internal {
        ($($name:ident, $t:ident;)*) => {$(
            pub mod $name {
                use super::*;
                type T = un::$t<Src>;
                pub fn root_next(x: &mut T) -> Option<char> { x.next() }
                pub fn root_fold(x: T, s: &mut Sink) { x.fold((), |(), c| emit(s, c)) }
                pub fn root_for_each(x: T, s: &mut Sink) { x.for_each(|c| emit(s, c)) }
                pub fn root_all(mut x: T, s: &mut Sink) { x.all(|c| { emit(s, c); true }); }
                pub fn root_any(mut x: T, s: &mut Sink) { x.any(|c| { emit(s, c); false }); }
                pub fn root_find(mut x: T, s: &mut Sink) { x.find(|&c| { emit(s, c); false }); }
                pub fn root_position(mut x: T, s: &mut Sink) { x.position(|c| { emit(s, c); false }); }
                pub fn root_count(x: T) -> usize { x.count() }
                pub fn root_last(x: T) -> Option<char> { x.last() }
                pub fn root_nth(x: &mut T, n: usize) -> Option<char> { x.nth(n) }
                pub fn root_max(x: T) -> Option<char> { x.max() }
                pub fn root_min(x: T) -> Option<char> { x.min() }
                pub fn root_eq(x: T, y: T) -> bool { x.eq(y) }
                pub fn root_ne(x: T, y: T) -> bool { x.ne(y) }
            }
        )*};
    }
    internal! {
        d, Decompositions;
        c, Recompositions;
        cjk, Replacements;
        ss, StreamSafe;
    }
}

/// Receivers and constructors.
#[cfg(feature = "recv")]
pub mod recv {
    use super::*;
    use core::{option, str::Chars};
    use un::UnicodeNormalization as U;
    macro_rules! recv {
        ($($name:ident, $ctor:ident, $m:ident, $t:ident, $new:ident;)*) => {$(
            pub mod $name {
                use super::*;
                pub fn root_src(s: Src) -> un::$t<Src> { U::$m(s) }
                pub fn root_ctor(s: Src) -> un::$t<Src> { un::$t::$new(s) }
                pub fn root_str(s: &str) -> un::$t<Chars<'_>> { U::$m(s) }
                pub fn root_chars(s: Chars<'_>) -> un::$t<Chars<'_>> { U::$m(s) }
                pub fn root_char(c: char) -> un::$t<option::IntoIter<char>> { U::$m(c) }
                pub fn root_opt(s: option::IntoIter<char>) -> un::$t<option::IntoIter<char>> { U::$m(s) }
            }
        )*};
    }
    recv! {
        nfd, new_canonical, nfd, Decompositions, new_canonical;
        nfkd, new_compatible, nfkd, Decompositions, new_compatible;
        nfc, new_canonical, nfc, Recompositions, new_canonical;
        nfkc, new_compatible, nfkc, Recompositions, new_compatible;
        cjk, new_cjk_compat_variants, cjk_compat_variants, Replacements, new_cjk_compat_variants;
        ss, new, stream_safe, StreamSafe, new;
    }
}

/// Quick checks over an arbitrary source.
#[cfg(feature = "pred")]
pub mod pred {
    use super::*;
    pub fn root_quick_nfc(s: Src) -> un::IsNormalized {
        un::is_nfc_quick(s)
    }
    pub fn root_quick_nfd(s: Src) -> un::IsNormalized {
        un::is_nfd_quick(s)
    }
    pub fn root_quick_nfkc(s: Src) -> un::IsNormalized {
        un::is_nfkc_quick(s)
    }
    pub fn root_quick_nfkd(s: Src) -> un::IsNormalized {
        un::is_nfkd_quick(s)
    }
    pub fn root_quick_nfc_ss(s: Src) -> un::IsNormalized {
        un::is_nfc_stream_safe_quick(s)
    }
    pub fn root_quick_nfd_ss(s: Src) -> un::IsNormalized {
        un::is_nfd_stream_safe_quick(s)
    }
}

/// Authoritative predicates, and the pieces they may be made of (anchors for cut points and for structural
/// comparison of the stream they compare with).
#[cfg(feature = "autho")]
pub mod autho {
    use super::*;
    use core::str::Chars;
    use un::UnicodeNormalization as U;
    pub fn root_is_nfc(s: &str) -> bool {
        un::is_nfc(s)
    }
    pub fn root_is_nfd(s: &str) -> bool {
        un::is_nfd(s)
    }
    pub fn root_is_nfkc(s: &str) -> bool {
        un::is_nfkc(s)
    }
    pub fn root_is_nfkd(s: &str) -> bool {
        un::is_nfkd(s)
    }
    pub fn root_is_nfc_ss(s: &str) -> bool {
        un::is_nfc_stream_safe(s)
    }
    pub fn root_is_nfd_ss(s: &str) -> bool {
        un::is_nfd_stream_safe(s)
    }
    pub fn anchor_quick_nfc(s: Chars<'_>) -> un::IsNormalized {
        un::is_nfc_quick(s)
    }
    pub fn anchor_quick_nfd(s: Chars<'_>) -> un::IsNormalized {
        un::is_nfd_quick(s)
    }
    pub fn anchor_quick_nfkc(s: Chars<'_>) -> un::IsNormalized {
        un::is_nfkc_quick(s)
    }
    pub fn anchor_quick_nfkd(s: Chars<'_>) -> un::IsNormalized {
        un::is_nfkd_quick(s)
    }
    pub fn anchor_quick_nfc_ss(s: Chars<'_>) -> un::IsNormalized {
        un::is_nfc_stream_safe_quick(s)
    }
    pub fn anchor_quick_nfd_ss(s: Chars<'_>) -> un::IsNormalized {
        un::is_nfd_stream_safe_quick(s)
    }
    pub fn anchor_yes() -> un::IsNormalized {
        un::IsNormalized::Yes
    }
    pub fn anchor_no() -> un::IsNormalized {
        un::IsNormalized::No
    }
    pub fn anchor_maybe() -> un::IsNormalized {
        un::IsNormalized::Maybe
    }
    pub fn root_form_nfc(s: Chars<'_>) -> un::Recompositions<Chars<'_>> {
        U::nfc(s)
    }
    pub fn root_form_nfd(s: Chars<'_>) -> un::Decompositions<Chars<'_>> {
        U::nfd(s)
    }
    pub fn root_form_nfkc(s: Chars<'_>) -> un::Recompositions<Chars<'_>> {
        U::nfkc(s)
    }
    pub fn root_form_nfkd(s: Chars<'_>) -> un::Decompositions<Chars<'_>> {
        U::nfkd(s)
    }
    pub fn root_form_nfc_ss(s: Chars<'_>) -> un::Recompositions<un::StreamSafe<Chars<'_>>> {
        U::nfc(U::stream_safe(s))
    }
    pub fn root_form_nfd_ss(s: Chars<'_>) -> un::Decompositions<un::StreamSafe<Chars<'_>>> {
        U::nfd(U::stream_safe(s))
    }
    pub fn root_form_ss(s: Chars<'_>) -> un::StreamSafe<Chars<'_>> {
        U::stream_safe(s)
    }
    /// What the standard library's own `Chars` methods do, in terms of `next`.
    pub fn anchor_chars_advance_by(x: &mut Chars<'_>, n: usize) -> Result<(), core::num::NonZeroUsize> {
        let mut i = 0;
        while i < n {
            if x.next().is_none() {
                return Err(core::num::NonZeroUsize::MIN);
            }
            i += 1;
        }
        Ok(())
    }
    pub fn anchor_chars_count(mut x: Chars<'_>) -> usize {
        let mut n = 0;
        while x.next().is_some() {
            n += 1;
        }
        n
    }
    pub fn anchor_chars_last(mut x: Chars<'_>) -> Option<char> {
        let mut l = None;
        while let Some(c) = x.next() {
            l = Some(c);
        }
        l
    }
    pub fn anchor_next_d(x: &mut un::Decompositions<Chars<'_>>) -> Option<char> {
        x.next()
    }
    pub fn anchor_next_c(x: &mut un::Recompositions<Chars<'_>>) -> Option<char> {
        x.next()
    }
    pub fn anchor_next_dss(x: &mut un::Decompositions<un::StreamSafe<Chars<'_>>>) -> Option<char> {
        x.next()
    }
    pub fn anchor_next_css(x: &mut un::Recompositions<un::StreamSafe<Chars<'_>>>) -> Option<char> {
        x.next()
    }
    pub fn anchor_next_ss(x: &mut un::StreamSafe<Chars<'_>>) -> Option<char> {
        x.next()
    }
}

/// The hidden test API, reachable by any user.
#[cfg(feature = "misc")]
pub mod misc {
    pub fn root_test_api_stream_safe(s: &str) -> usize {
        super::un::__test_api::stream_safe(s).len()
    }
}

/// Compile-time obligations: this module type-checks if and only if they hold.
#[cfg(feature = "types")]
pub mod types {
    use super::*;
    fn send<T: Send>() {}
    fn sync<T: Sync>() {}
    pub fn sends<I: Iterator<Item = char> + Send>() {
        send::<un::Decompositions<I>>();
        send::<un::Recompositions<I>>();
        send::<un::Replacements<I>>();
        send::<un::StreamSafe<I>>();
        send::<un::IsNormalized>();
    }
    pub fn syncs<I: Iterator<Item = char> + Sync>() {
        sync::<un::Decompositions<I>>();
        sync::<un::Recompositions<I>>();
        sync::<un::Replacements<I>>();
        sync::<un::StreamSafe<I>>();
        sync::<un::IsNormalized>();
    }
    pub fn root_types() {}
}

/// What the types promise, whatever the source: probed with sources that have nothing but `next`.  Each failing
/// promise is a compile error that names it.
#[cfg(feature = "contract")]
pub mod contract {
    use super::*;
    use core::cell::Cell;
    use core::fmt::{Debug, Display};
    use core::iter::FusedIterator;
    use core::marker::{PhantomData, PhantomPinned};
    use core::str::Chars;
    use un::UnicodeNormalization as U;

    macro_rules! probe {
        ($no:ident, $yes:ident, $($b:tt)*) => {
            pub struct $yes<T: ?Sized>(PhantomData<T>);
            pub trait $no { const IS: bool = false; }
            impl<T: ?Sized> $no for $yes<T> {}
            impl<T: ?Sized + $($b)*> $yes<T> { pub const IS: bool = true; }
        };
    }
    probe!(NotIter, IsIter, Iterator<Item = char>);
    probe!(NotFused, IsFused, FusedIterator);
    probe!(NotClone, IsClone, Clone);
    probe!(NotDisplay, IsDisplay, Display);
    probe!(NotDebug, IsDebug, Debug);
    probe!(NotEq, IsEq, Eq);
    probe!(NotUnpin, IsUnpin, Unpin);
    pub struct IsNorm<T: ?Sized, I>(PhantomData<T>, PhantomData<I>);
    pub trait NotNorm {
        const IS: bool = false;
    }
    impl<T: ?Sized, I> NotNorm for IsNorm<T, I> {}
    impl<T: U<I>, I: Iterator<Item = char>> IsNorm<T, I> {
        pub const IS: bool = true;
    }

    // a borrowed source that is neither Clone, Send, Sync, Unpin, Debug, fused nor exact
    pub struct Bare<'a>(Cell<*const u8>, PhantomPinned, &'a Cell<u8>);
    impl<'a> Iterator for Bare<'a> {
        type Item = char;
        fn next(&mut self) -> Option<char> {
            None
        }
    }
    // the same, and Clone
    pub struct Dup<'a>(Cell<*const u8>, PhantomPinned, &'a Cell<u8>);
    impl<'a> Clone for Dup<'a> {
        fn clone(&self) -> Self {
            Dup(self.0.clone(), PhantomPinned, self.2)
        }
    }
    impl<'a> Iterator for Dup<'a> {
        type Item = char;
        fn next(&mut self) -> Option<char> {
            None
        }
    }
    // the same, and fused
    pub struct Fused<'a>(Cell<*const u8>, PhantomPinned, &'a Cell<u8>);
    impl<'a> Iterator for Fused<'a> {
        type Item = char;
        fn next(&mut self) -> Option<char> {
            None
        }
    }
    impl<'a> FusedIterator for Fused<'a> {}

    macro_rules! promise {
        ($($e:expr, $m:literal;)*) => { $(const _: () = assert!($e, $m);)* };
    }
    macro_rules! adaptor {
        ($t:ident, $it:literal, $fu:literal, $un:literal, $pin:literal) => {
            promise! {
                IsIter::<un::$t<Bare<'static>>>::IS, $it;
                IsFused::<un::$t<Fused<'static>>>::IS, $fu;
                IsUnpin::<un::$t<Chars<'static>>>::IS, $pin;
                !IsFused::<un::$t<Bare<'static>>>::IS, $un;
            }
        };
    }
    macro_rules! cloned {
        ($t:ident, $cl:literal, $di:literal) => {
            promise! {
                IsClone::<un::$t<Dup<'static>>>::IS, $cl;
                IsDisplay::<un::$t<Dup<'static>>>::IS, $di;
            }
        };
    }
    adaptor!(Decompositions, "[iterator:Decompositions]", "[fused:Decompositions]", "[unfused:Decompositions]", "[unpin:Decompositions]");
    adaptor!(Recompositions, "[iterator:Recompositions]", "[fused:Recompositions]", "[unfused:Recompositions]", "[unpin:Recompositions]");
    adaptor!(Replacements, "[iterator:Replacements]", "[fused:Replacements]", "[unfused:Replacements]", "[unpin:Replacements]");
    adaptor!(StreamSafe, "[iterator:StreamSafe]", "[fused:StreamSafe]", "[unfused:StreamSafe]", "[unpin:StreamSafe]");
    cloned!(Decompositions, "[clone:Decompositions]", "[display:Decompositions]");
    cloned!(Recompositions, "[clone:Recompositions]", "[display:Recompositions]");
    cloned!(Replacements, "[clone:Replacements]", "[display:Replacements]");
    promise! {
        IsNorm::<Bare<'static>, Bare<'static>>::IS, "[receiver:iterator]";
        IsNorm::<&'static mut Bare<'static>, &'static mut Bare<'static>>::IS, "[receiver:&mut iterator]";
        IsNorm::<&'static mut dyn Iterator<Item = char>, &'static mut dyn Iterator<Item = char>>::IS, "[receiver:&mut dyn Iterator]";
        IsNorm::<&'static str, Chars<'static>>::IS, "[receiver:&str]";
        IsNorm::<char, core::option::IntoIter<char>>::IS, "[receiver:char]";
        IsDebug::<un::IsNormalized>::IS, "[debug:IsNormalized]";
        IsEq::<un::IsNormalized>::IS, "[eq:IsNormalized]";
    }
}

/// The same for every lifetime and every source: this module type-checks if and only if the promises hold.
#[cfg(feature = "generic")]
pub mod generic {
    use super::*;
    use core::iter::FusedIterator;
    use core::str::Chars;
    use un::UnicodeNormalization as U;

    fn iter<T: Iterator<Item = char>>() {}
    fn fused<T: FusedIterator>() {}
    fn dup<T: Clone + core::fmt::Display>() {}
    pub fn any_source<I: Iterator<Item = char>>() {
        iter::<un::Decompositions<I>>();
        iter::<un::Recompositions<I>>();
        iter::<un::Replacements<I>>();
        iter::<un::StreamSafe<I>>();
    }
    pub fn any_fused<I: Iterator<Item = char> + FusedIterator>() {
        fused::<un::Decompositions<I>>();
        fused::<un::Recompositions<I>>();
        fused::<un::Replacements<I>>();
        fused::<un::StreamSafe<I>>();
    }
    pub fn any_clone<I: Iterator<Item = char> + Clone>() {
        dup::<un::Decompositions<I>>();
        dup::<un::Recompositions<I>>();
        dup::<un::Replacements<I>>();
    }
    pub fn any_receiver<T: U<I>, I: Iterator<Item = char>>(a: T, b: T, c: T, d: T, e: T, f: T)
        -> (un::Decompositions<I>, un::Decompositions<I>, un::Recompositions<I>, un::Recompositions<I>,
            un::Replacements<I>, un::StreamSafe<I>) {
        (a.nfd(), b.nfkd(), c.nfc(), d.nfkc(), e.cjk_compat_variants(), f.stream_safe())
    }
    pub fn any_chain<I: Iterator<Item = char>>(i: I) -> un::Recompositions<un::StreamSafe<un::Replacements<un::Decompositions<I>>>> {
        i.nfd().cjk_compat_variants().stream_safe().nfc()
    }
    pub fn any_text<'a>(s: &'a str, c: char) -> (un::Recompositions<Chars<'a>>, un::Decompositions<core::option::IntoIter<char>>) {
        (s.nfc(), c.nfd())
    }
    pub fn any_quick<I: Iterator<Item = char>>() {
        let _: [fn(I) -> un::IsNormalized; 6] = [un::is_nfc_quick, un::is_nfkc_quick, un::is_nfd_quick,
            un::is_nfkd_quick, un::is_nfc_stream_safe_quick, un::is_nfd_stream_safe_quick];
    }
    pub fn any_text_predicate(s: &str) -> [bool; 6] {
        [un::is_nfc(s), un::is_nfkc(s), un::is_nfd(s), un::is_nfkd(s), un::is_nfc_stream_safe(s), un::is_nfd_stream_safe(s)]
    }
    pub fn any_callback<F: FnMut(char)>(c: char, mut f: F) {
        un::char::decompose_canonical(c, &mut f);
        un::char::decompose_compatible(c, &mut f);
        un::char::decompose_cjk_compat_variants(c, f);
    }
    pub const VERSION: (u8, u8, u8) = un::UNICODE_VERSION;
}
