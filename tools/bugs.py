"""Planted bugs: edits against /repo, with a demonstration program each (see plant.py)."""
BUGS = []
USE = "use unicode_normalization::*;\n"


def bug(id, prop, needs, breaks, edits, main=None, **kw):
    b = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if main is not None:
        b["main"] = main
    BUGS.append(b)


N = "src/normalize.rs"
L = "src/lookups.rs"
D = "src/decompose.rs"
R = "src/recompose.rs"
Q = "src/quick_check.rs"
S = "src/stream_safe.rs"
P = "src/replace.rs"
LIB = "src/lib.rs"
T = "src/tables.rs"

# ---------------------------------------------------------------- C01
bug("c01-hangul-end", "C01", "the unassigned code point right after the Hangul syllables block, U+D7A4",
    "U+D7A4 is taken for a syllable and decomposes into jamo although it has no decomposition",
    [(N, "(c as u32) >= S_BASE && (c as u32) < (S_BASE + S_COUNT)", "(c as u32) >= S_BASE && (c as u32) <= (S_BASE + S_COUNT)")],
    """use unicode_normalization::char::*;
fn main() {
    let mut v = vec![];
    decompose_canonical('\\u{D7A4}', |c| v.push(c));
    assert_eq!(v, ['\\u{D7A4}']);
}
""")
bug("c01-plane-alias", "C01", "a character of plane 16 whose low 16 bits are those of a decomposable character",
    "private-use characters of plane 16 decompose like the BMP character with the same low bits",
    [(L, """    mph_lookup(
        c.into(),
        CANONICAL_DECOMPOSED_SALT,""", """    mph_lookup(
        u32::from(c) & 0xF_FFFF,
        CANONICAL_DECOMPOSED_SALT,""")],
    """use unicode_normalization::char::*;
fn main() {
    let mut v = vec![];
    decompose_canonical('\\u{1000E9}', |c| v.push(c));
    assert_eq!(v, ['\\u{1000E9}']);
}
""")
# ---------------------------------------------------------------- C02
bug("c02-compat-key", "C02", "a character of an upper plane that shares its low 20 bits with a compatibility character",
    "some plane-16 characters get a compatibility decomposition that belongs to another character",
    [(L, """    mph_lookup(
        c.into(),
        COMPATIBILITY_DECOMPOSED_SALT,""", """    mph_lookup(
        (c as u32) % 0x10_0000,
        COMPATIBILITY_DECOMPOSED_SALT,""")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let s = "\\u{10FB01}";
    assert_eq!(s.nfkd().collect::<String>(), s);
}
""")
# ---------------------------------------------------------------- C03
bug("c03-pair-key", "C03", "composing with a second character outside the BMP",
    "the two halves of the packed key overlap: compose('A', U+10300) answers with a composite of 'A' and U+0300",
    [(L, "if c1 < '\\u{10000}' && c2 < '\\u{10000}' {", "if c1 < '\\u{10000}' {")],
    """use unicode_normalization::char::*;
fn main() {
    for a in (0x20..0x500).filter_map(std::char::from_u32) {
        for b in (0x10300..0x10350).filter_map(std::char::from_u32) {
            assert_eq!(compose(a, b), None, "{:?} {:?}", a, b);
        }
    }
}
""")
bug("c03-jamo-range", "C03", "an LV syllable followed by the old trailing consonant U+11C3",
    "U+11C3, which is outside the composing range, composes with LV syllables",
    [(N, "const T_LAST: u32 = T_BASE + T_COUNT - 1;", "const T_LAST: u32 = T_BASE + T_COUNT;")],
    """use unicode_normalization::char::*;
fn main() {
    assert_eq!(compose('\\u{AC00}', '\\u{11C3}'), None);
    assert_eq!(compose('\\u{AC00}', '\\u{11C2}'), Some('\\u{AC1B}'));
}
""")
bug("c03-order", "C03", "a composition pair of which both orders are looked up",
    "composition becomes symmetric for pairs of combining characters",
    [(N, "compose_hangul(a, b).or_else(|| composition_table(a, b))", """compose_hangul(a, b)
        .or_else(|| composition_table(a, b))
        .or_else(|| if a > '\\u{3098}' && a < '\\u{309B}' { composition_table(b, a) } else { None })""")],
    """use unicode_normalization::char::*;
fn main() {
    assert_eq!(compose('\\u{3099}', '\\u{304B}'), None);
    assert_eq!(compose('\\u{304B}', '\\u{3099}'), Some('\\u{304C}'));
}
""")
# ---------------------------------------------------------------- C04
bug("c04-plane", "C04", "a character of plane 14 or above with the low bits of a combining mark",
    "unassigned and private-use characters get a combining class",
    [(L, """    mph_lookup(
        c.into(),
        CANONICAL_COMBINING_CLASS_SALT,""", """    mph_lookup(
        u32::from(c) & 0x7_FFFF,
        CANONICAL_COMBINING_CLASS_SALT,""")],
    """use unicode_normalization::char::*;
fn main() {
    assert_eq!(canonical_combining_class('\\u{80300}'), 0);
    assert_eq!(canonical_combining_class('\\u{300}'), 230);
}
""")
bug("c04-default", "C04", "an unassigned code point inside a block of combining marks",
    "unassigned code points U+1AD0..U+1AFF get class 230 in anticipation of a later Unicode version",
    [(L, """    mph_lookup(
        c.into(),
        CANONICAL_COMBINING_CLASS_SALT,""", """    if ('\\u{1AD0}'..='\\u{1AFF}').contains(&c) {
        return 230;
    }
    mph_lookup(
        c.into(),
        CANONICAL_COMBINING_CLASS_SALT,""")],
    """use unicode_normalization::char::*;
fn main() {
    assert_eq!(canonical_combining_class('\\u{1AD5}'), 0);
}
""")
# ---------------------------------------------------------------- C05
bug("c05-limit", "C05", "a variation selector of plane 14",
    "a fast path for the upper planes misses the variation selectors supplement",
    [(L, """    mph_lookup(
        c.into(),
        COMBINING_MARK_SALT,""", """    if c >= '\\u{20000}' {
        return false;
    }
    mph_lookup(
        c.into(),
        COMBINING_MARK_SALT,""")],
    """use unicode_normalization::char::*;
fn main() {
    assert!(is_combining_mark('\\u{E0100}'));
}
""")
bug("c05-by-class", "C05", "a combining mark with combining class 0 and non-zero only in later blocks",
    "marks are recognised by class in the Balinese block, where vowel signs have class 0",
    [(L, """    mph_lookup(
        c.into(),
        COMBINING_MARK_SALT,""", """    if ('\\u{1B35}'..='\\u{1B44}').contains(&c) {
        return canonical_combining_class(c) != 0;
    }
    mph_lookup(
        c.into(),
        COMBINING_MARK_SALT,""")],
    """use unicode_normalization::char::*;
fn main() {
    assert!(is_combining_mark('\\u{1B35}'));
    assert!(is_combining_mark('\\u{1B44}'));
}
""")
# ---------------------------------------------------------------- C06
bug("c06-version", "C06", "a program that compares the advertised version with the data",
    "the version constant names another Unicode version than the tables implement",
    [(T, "(16, 0, 0)", "(15, 1, 0)")],
    """fn main() {
    // U+10D40 is new in Unicode 16.0
    assert!(unicode_normalization::char::is_public_assigned('\\u{10D40}'));
    assert_eq!(unicode_normalization::UNICODE_VERSION, (16, 0, 0));
}
""")
# ---------------------------------------------------------------- C07
bug("c07-last", "C07", "the very last compatibility ideograph, U+2FA1D",
    "an off-by-one range test leaves U+2FA1D unreplaced",
    [(N, "    // Don't perform decomposition for Hangul\n", "    // Compatibility ideographs end at U+2FA1D\n    if c >= '\\u{2FA1D}' {\n        emit_char(c);\n        return;\n    }\n")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    assert_eq!("\\u{2FA1D}".cjk_compat_variants().collect::<String>(), "\\u{2A600}\\u{FE00}");
}
""")
bug("c07-repeat", "C07", "a compatibility ideograph directly followed by the variation selector it maps to",
    "an explicit selector after a replaced ideograph is swallowed",
    [(P, """        if let Some(c) = self.buffer.take() {
            return Some(c);
        }

        match self.iter.next() {
            Some(ch) => {""", """        if let Some(c) = self.buffer.take() {
            self.last = Some(c);
            return Some(c);
        }

        let last = self.last.take();
        match self.iter.next() {
            Some(ch) if last == Some(ch) => self.next(),
            Some(ch) => {"""),
     (P, "    buffer: Option<char>,\n}", "    buffer: Option<char>,\n    last: Option<char>,\n}"),
     (P, "Replacements { iter, buffer: None }", "Replacements { iter, buffer: None, last: None }")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    assert_eq!("\\u{F900}\\u{FE00}".cjk_compat_variants().collect::<String>(), "\\u{8C48}\\u{FE00}\\u{FE00}");
}
""")
# ---------------------------------------------------------------- C08
bug("c08-flush", "C08", "a run of more than 40 combining marks that is not in canonical order",
    "long runs of marks are emitted in blocks of 40, each sorted on its own",
    [(D, """        } else {
            self.buffer.push((class, ch));
        }
    }""", """        } else {
            self.buffer.push((class, ch));
            // bound the memory held by degenerate input
            if self.buffer.len() - self.ready.end >= 40 {
                self.sort_pending();
                self.ready.end = self.buffer.len();
            }
        }
    }""")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let s = format!("a{}\\u{316}", "\\u{301}".repeat(45));
    let want = format!("a\\u{316}{}", "\\u{301}".repeat(45));
    assert_eq!(s.nfd().collect::<String>(), want);
}
""")
bug("c08-unstable", "C08", "more than 20 marks, several of one class",
    "the sort by combining class is not stable, so marks of equal class can change places in long runs",
    [(D, "self.buffer[self.ready.end..].sort_by_key(|k| k.0);", "self.buffer[self.ready.end..].sort_unstable_by_key(|k| k.0);")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let mut s = String::from("a");
    let mut want = vec![];
    for i in 0..300u32 {
        let hi = std::char::from_u32(0x300 + i % 5).unwrap();
        s.push(if i % 3 == 0 { '\\u{316}' } else { hi });
        if i % 3 != 0 { want.push(hi); }
    }
    let got: Vec<char> = s.nfd().filter(|&c| c != 'a' && c != '\\u{316}').collect();
    assert_eq!(got, want);
}
""")
# ---------------------------------------------------------------- C09
bug("c09-long-run", "C09", "more than 32 uncomposed marks between the starter and a mark that composes with it",
    "composition gives up on a starter once 32 marks are buffered behind it",
    [(R, """                                match super::char::compose(k, ch) {
                                    Some(r) => {
                                        self.composee = Some(r);
                                        continue;
                                    }
                                    None => {
                                        self.buffer.push(ch);
                                        self.last_ccc = Some(ch_class);
                                    }
                                }
                            }""", """                                let composed = if self.buffer.len() > 32 {
                                    None
                                } else {
                                    super::char::compose(k, ch)
                                };
                                match composed {
                                    Some(r) => {
                                        self.composee = Some(r);
                                        continue;
                                    }
                                    None => {
                                        self.buffer.push(ch);
                                        self.last_ccc = Some(ch_class);
                                    }
                                }
                            }""")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let m = "\\u{334}".repeat(40);
    assert_eq!(format!("a{}\\u{301}", m).nfc().collect::<String>(), format!("\\u{e1}{}", m));
}
""")
# ---------------------------------------------------------------- C10
bug("c10-ascii-reset", "C10", "a mark, then an ASCII letter, then a mark of a lower class",
    "the ASCII fast path keeps the combining class of the character before it, so ordered text is rejected",
    [(Q, """            last_cc = 0;
            nonstarter_count = 0;
            continue;""", """            nonstarter_count = 0;
            continue;""")],
    """use unicode_normalization::*;
fn main() {
    let s = "\\u{E1}\\u{30D}b\\u{316}";
    assert_ne!(is_nfc_quick(s.chars()), IsNormalized::No);
    let s = "a\\u{30D}b\\u{316}";
    assert_ne!(is_nfd_quick(s.chars()), IsNormalized::No);
}
""")
bug("c10-maybe-lost", "C10", "a doubtful character that is followed by a character with a definite Yes and no ASCII in between",
    "a later definite Yes overwrites an earlier Maybe",
    [(Q, """            IsNormalized::Yes => (),
            IsNormalized::No => return IsNormalized::No,""", """            IsNormalized::Yes => {
                if cc == 0 && last_cc == 0 {
                    result = IsNormalized::Yes;
                }
            }
            IsNormalized::No => return IsNormalized::No,""")],
    """use unicode_normalization::*;
fn main() {
    // LV syllable + trailing jamo (Maybe), then a syllable (Yes)
    let s = "\\u{AC00}\\u{11A8}\\u{AC00}";
    assert_ne!(is_nfc_quick(s.chars()), IsNormalized::Yes);
    assert!(!is_nfc(s));
}
""")
# ---------------------------------------------------------------- C11
bug("c11-count", "C11", "text whose canonical form has as many characters but other ones",
    "is_nfkc compares the number of characters instead of the characters when the quick check says Maybe",
    [(Q, "IsNormalized::Maybe => s.chars().eq(s.chars().nfkc()),", "IsNormalized::Maybe => s.len() == s.chars().nfkc().map(|c| c.len_utf8()).sum::<usize>(),")],
    """use unicode_normalization::*;
fn main() {
    // same UTF-8 length, different text
    let mut bad = 0;
    for a in (0xC0..0x250).filter_map(std::char::from_u32) {
        for b in (0x300..0x330).filter_map(std::char::from_u32) {
            let s: String = [a, b].iter().collect();
            let n: String = s.nfkc().collect();
            if is_nfkc(&s) != (n == s) { bad += 1; }
        }
    }
    assert_eq!(bad, 0);
}
""")
bug("c13-ss-order", "C13", "text with more than 30 marks after the quick check's Maybe",
    "is_nfc_stream_safe composes first and applies the stream-safe process afterwards only when nothing changes",
    [(Q, "IsNormalized::Maybe => s.chars().eq(s.chars().stream_safe().nfc()),", "IsNormalized::Maybe => s.chars().eq(s.chars().nfd().nfc()) && s.chars().count() < 1_000,")],
    """use unicode_normalization::*;
fn main() {
    let s = "x\\u{30F}".repeat(600) + "x\\u{304}";
    let n: String = s.stream_safe().nfc().collect();
    assert_eq!(is_nfc_stream_safe(&s), s == n);
}
""")
# ---------------------------------------------------------------- C12
bug("c12-one-each", "C12", "characters that decompose into two or more marks (U+0344, U+0F73, ...) in a long run",
    "a character made of several marks counts once, so more than 30 marks can follow each other",
    [(S, "            self.nonstarter_count += d.decomposition_len;", "            self.nonstarter_count += 1;")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let s = "a".to_string() + &"\\u{344}".repeat(16);
    let t: String = s.stream_safe().collect();
    assert!(t.contains('\\u{34F}'));
}
""")
# ---------------------------------------------------------------- C13
bug("c13-trailing-cap", "C13", "a composed character with two or more trailing marks followed by 29 or more marks",
    "the stream-safe quick check counts at most one trailing mark of a composed character",
    [(Q, "                nonstarter_count = decomp.trailing_nonstarters;", "                nonstarter_count = decomp.trailing_nonstarters.min(1);")],
    """use unicode_normalization::*;
fn main() {
    let s = "\\u{1F82}".to_string() + &"\\u{345}".repeat(28);
    let want = s.stream_safe().nfc().collect::<String>() == s;
    assert!(!want);
    assert_ne!(is_nfc_stream_safe_quick(s.chars()), IsNormalized::Yes);
    let s = "\\u{1EAD}".to_string() + &"\\u{35C}".repeat(30);
    let t: String = s.stream_safe().nfc().collect();
    if t != s { assert_ne!(is_nfc_stream_safe_quick(s.chars()), IsNormalized::Yes); }
    let s = "\\u{1EAD}".to_string() + &"\\u{35C}".repeat(29);
    let t: String = s.stream_safe().nfc().collect();
    if t != s { assert_ne!(is_nfc_stream_safe_quick(s.chars()), IsNormalized::Yes); }
}
""")
# ---------------------------------------------------------------- C14
bug("c14-counter", "C14", "256 or more marks in a row, overflow checks on",
    "an eight-bit statistics counter in the decomposition overflows",
    [(D, "    ready: Range<usize>,\n}", "    ready: Range<usize>,\n    pending: u8,\n}"),
     (D, "            ready: 0..0,\n        }\n    }\n\n    /// Create a new decomposition iterator for compatability", "            ready: 0..0,\n            pending: 0,\n        }\n    }\n\n    /// Create a new decomposition iterator for compatability"),
     (D, "            kind: self::DecompositionType::Compatible,\n            iter: iter.fuse(),\n            buffer: TinyVec::new(),\n            ready: 0..0,", "            kind: self::DecompositionType::Compatible,\n            iter: iter.fuse(),\n            buffer: TinyVec::new(),\n            ready: 0..0,\n            pending: 0,"),
     (D, "            self.ready.end = self.buffer.len();\n        } else {\n            self.buffer.push((class, ch));", "            self.ready.end = self.buffer.len();\n            self.pending = 0;\n        } else {\n            self.pending += 1;\n            self.buffer.push((class, ch));")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let s = "a".to_string() + &"\\u{301}".repeat(300);
    assert_eq!(s.nfd().count(), 301);
}
""")
# ---------------------------------------------------------------- C15
bug("c15-jamo-bound", "C15", "composing an old leading consonant above U+1113 with a vowel",
    "the range of leading consonants is widened to the whole jamo block: the unchecked conversion produces surrogates",
    [(N, "const L_LAST: u32 = L_BASE + L_COUNT - 1;", "const L_LAST: u32 = 0x115F;")],
    """fn main() {
    for l in (0x1113..0x1160).filter_map(std::char::from_u32) {
        let r = unicode_normalization::char::compose(l, '\\u{1161}');
        assert!(r.is_none());
    }
}
""")
# ---------------------------------------------------------------- C16
bug("c16-no-fuse", "C16", "a source that yields again after having reported its end",
    "the decomposition polls a finished source again instead of staying at the end",
    [(D, "use core::iter::{Fuse, FusedIterator};", "use core::iter::FusedIterator;"),
     (D, "    iter: Fuse<I>,", "    iter: I,"),
     (D, "            iter: iter.fuse(),", "            iter,"), (D, "            iter: iter.fuse(),", "            iter,")],
    """use unicode_normalization::UnicodeNormalization;
struct Src(u32);
impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> { self.0 += 1; if self.0 % 3 == 0 { None } else { Some('a') } }
}
fn main() {
    let mut i = Src(0).nfd();
    while let Some(_) = i.next() {}
    assert_eq!(i.next(), None);
    assert_eq!(i.next(), None);
}
""")
bug("c16-recompose", "C16", "calling next after the end of a composed text whose last starter had uncomposed marks",
    "after the end the composition starts over and polls the source once more",
    [(R, """                    None => {
                        self.buffer.clear();
                        return self.composee.take();
                    }""", """                    None => {
                        if !self.buffer.is_empty() {
                            self.state = Composing;
                        }
                        self.buffer.clear();
                        return self.composee.take();
                    }"""),
     (D, "    iter: Fuse<I>,", "    iter: I,"), (D, "use core::iter::{Fuse, FusedIterator};", "use core::iter::FusedIterator;"),
     (D, "            iter: iter.fuse(),", "            iter,"), (D, "            iter: iter.fuse(),", "            iter,")],
    """use unicode_normalization::UnicodeNormalization;
struct Src(u32);
impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> { self.0 += 1; match self.0 { 1 => Some('x'), 2 => Some('\\u{301}'), 3 => None, _ => panic!("polled after its end") } }
}
fn main() {
    let mut i = Src(0).nfc();
    let mut n = 0;
    while let Some(_) = i.next() { n += 1; }
    assert_eq!(n, 2);
    for _ in 0..4 { assert_eq!(i.next(), None); }
}
""")
# ---------------------------------------------------------------- C17
bug("c17-upper", "C17", "a source with an exact size hint and a compatibility ideograph near the end",
    "the replacement iterator forwards the upper bound of its source although characters expand",
    [(P, """        let (lower, _) = self.iter.size_hint();
        (lower, None)""", """        let (lower, upper) = self.iter.size_hint();
        (lower, upper.and_then(|u| u.checked_add(u / 2 + 1)))""")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let v = vec!['\\u{F900}'; 10];
    let i = v.into_iter().cjk_compat_variants();
    let (lo, hi) = i.size_hint();
    let n = i.count();
    assert!(lo <= n && hi.map_or(true, |h| n <= h));
}
""")
bug("c17-lower", "C17", "asking for the hint in the middle of a composed text",
    "the composed stream gets a size hint whose lower bound is that of its decomposition",
    [(R, "    type Item = char;\n", """    type Item = char;

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lower, _) = self.iter.size_hint();
        (lower / 2, None)
    }
""")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let v: Vec<char> = "\\u{1100}\\u{1161}\\u{11A8}".repeat(4).chars().collect();
    let i = v.into_iter().nfc();
    let (lo, _) = i.size_hint();
    assert!(lo <= i.count());
}
""")
# ---------------------------------------------------------------- C18
bug("c18-char-nfkc", "C18", "the nfkc method called on a single character that has a compatibility decomposition",
    "char::nfkc uses the canonical constructor",
    [(LIB, "Recompositions::new_compatible(Some(self).into_iter())", "Recompositions::new_canonical(Some(self).into_iter())")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    assert_eq!('\\u{FB01}'.nfkc().collect::<String>(), "fi");
}
""")
bug("c18-str-trim", "C18", "a string that starts with a byte order mark",
    "the string receiver drops a leading U+FEFF, the iterator receiver keeps it",
    [(LIB, "Decompositions::new_compatible(self.chars())", "Decompositions::new_compatible(self.trim_start_matches('\\u{FEFF}').chars())")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let s = "\\u{FEFF}abc";
    assert_eq!(s.nfkd().collect::<String>(), s.chars().nfkd().collect::<String>());
}
""")
# ---------------------------------------------------------------- C19
bug("c19-peek", "C19", "an interactive source where reading one character too many blocks",
    "the stream-safe iterator reads its first character when it is constructed",
    [(S, "    pub fn new(iter: I) -> Self {\n        Self {\n            iter,\n            nonstarter_count: 0,\n            buffer: None,", "    pub fn new(mut iter: I) -> Self {\n        let buffer = iter.next();\n        Self {\n            iter,\n            nonstarter_count: 0,\n            buffer,")],
    """use unicode_normalization::UnicodeNormalization;
use std::cell::Cell;
fn main() {
    let n = Cell::new(0);
    let src = "abc".chars().inspect(|_| n.set(n.get() + 1));
    let i = src.stream_safe();
    assert_eq!(n.get(), 0);
    drop(i);
}
""")
bug("c19-replace-ahead", "C19", "observing how far the source was read after an output",
    "the replacement iterator prefetches the next source character after a two-character replacement",
    [(P, """                self.buffer = buffer.get(1).copied();
                Some(buffer[0])""", """                self.buffer = buffer.get(1).copied();
                if self.buffer.is_some() && self.ahead.is_none() {
                    self.ahead = self.iter.next();
                }
                Some(buffer[0])"""),
     (P, "        match self.iter.next() {", "        match self.ahead.take().or_else(|| self.iter.next()) {"),
     (P, "    buffer: Option<char>,\n}", "    buffer: Option<char>,\n    ahead: Option<char>,\n}"),
     (P, "Replacements { iter, buffer: None }", "Replacements { iter, buffer: None, ahead: None }")],
    """use unicode_normalization::UnicodeNormalization;
use std::cell::Cell;
fn main() {
    let n = Cell::new(0);
    let src = "\\u{F900}b".chars().inspect(|_| n.set(n.get() + 1));
    let mut i = src.cjk_compat_variants();
    i.next();
    assert_eq!(n.get(), 1);
    assert_eq!(i.collect::<String>(), "\\u{FE00}b");
}
""")
bug("c19-decompose-ahead", "C19", "a source that blocks after a starter has made earlier characters final",
    "the decomposition reads on while more than one starter is pending in its source's size hint",
    [(D, "        while self.ready.end == 0 {", "        while self.ready.end == 0 || (self.ready.start == 0 && self.ready.end < 2 && self.buffer.len() == 1 && self.iter.size_hint().0 > 2) {")],
    """use unicode_normalization::UnicodeNormalization;
use std::cell::Cell;
fn main() {
    let n = Cell::new(0);
    let v: Vec<char> = "abcdefgh".chars().collect();
    let src = v.into_iter().inspect(|_| n.set(n.get() + 1));
    let mut i = src.nfd();
    assert_eq!(i.next(), Some('a'));
    assert_eq!(n.get(), 1);
}
""")
# ---------------------------------------------------------------- C20
bug("c20-clone", "C20", "cloning between the two characters of a replacement",
    "a clone of the replacement iterator forgets the buffered variation selector",
    [(P, "#[derive(Clone)]\npub struct Replacements<I> {", "pub struct Replacements<I> {"),
     (P, "impl<I: Iterator<Item = char>> Replacements<I> {", """impl<I: Clone> Clone for Replacements<I> {
    fn clone(&self) -> Self {
        Replacements {
            iter: self.iter.clone(),
            buffer: None,
        }
    }
}

impl<I: Iterator<Item = char>> Replacements<I> {""")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let mut i = "\\u{F900}x".cjk_compat_variants();
    i.next();
    assert_eq!(i.clone().collect::<String>(), i.collect::<String>());
}
""")
bug("c20-display-error", "C20", "a writer that fails in the middle of the text",
    "displaying a composed stream ignores the writer's error and goes on",
    [(R, """        for c in self.clone() {
            f.write_char(c)?;
        }
        Ok(())""", """        let mut r = Ok(());
        for c in self.clone() {
            r = f.write_char(c);
        }
        r""")],
    """use unicode_normalization::UnicodeNormalization;
use std::fmt::Write;
struct W(usize, usize);
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1 += 1;
        if self.0 == 0 { self.0 = 100; return Err(std::fmt::Error); }
        self.0 -= 1;
        let _ = s;
        Ok(())
    }
}
fn main() {
    let mut w = W(1, 0);
    let r = write!(w, "{}", "abcdef".nfc());
    assert!(r.is_err());
    assert_eq!(w.1, 2);
}
""")
bug("c20-display-nul", "C20", "text containing U+0000 displayed through an iterator",
    "displaying a decomposed stream stops at a NUL character",
    [(D, """        for c in self.clone() {
            f.write_char(c)?;
        }""", """        for c in self.clone().take_while(|&c| c != '\\0') {
            f.write_char(c)?;
        }""")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    assert_eq!("a\\0b".nfd().to_string(), "a\\0b");
}
""")
# ---------------------------------------------------------------- C21
bug("c21-rc", "C21", "sending an iterator to another thread",
    "the composed iterator carries a marker that makes it neither Send nor Sync",
    [(R, "    last_ccc: Option<u8>,\n}", "    last_ccc: Option<u8>,\n    _owner: core::marker::PhantomData<*const ()>,\n}"),
     (R, "            last_ccc: None,\n", "            last_ccc: None,\n            _owner: core::marker::PhantomData,\n"),
     (R, "            composee: None,\n            last_ccc: None,\n        }", "            composee: None,\n            last_ccc: None,\n            _owner: core::marker::PhantomData,\n        }")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let i = "abc".nfc();
    let t = std::thread::spawn(move || i.count());
    assert_eq!(t.join().unwrap(), 3);
}
""")
# ---------------------------------------------------------------- C22
bug("c22-debug-only", "C22", "an optimised build (debug assertions off)",
    "the buffer is shrunk inside a debug assertion, so release builds keep stale characters",
    [(D, "        self.buffer.truncate(pending);\n", "        debug_assert!({\n            self.buffer.truncate(pending);\n            self.buffer.len() == pending\n        });\n")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    assert_eq!("abc".nfd().take(20).collect::<String>(), "abc");
}
""", release=True)
bug("c22-nostd-limit", "C22", "the std feature switched off and a long run of marks",
    "without std the pending marks are sorted only up to 32 of them",
    [(D, "        self.buffer[self.ready.end..].sort_by_key(|k| k.0);", """        #[cfg(feature = "std")]
        self.buffer[self.ready.end..].sort_by_key(|k| k.0);
        #[cfg(not(feature = "std"))]
        {
            let end = self.buffer.len().min(self.ready.end + 32);
            self.buffer[self.ready.end..end].sort_by_key(|k| k.0);
        }""")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let s = format!("a{}\\u{316}", "\\u{301}".repeat(45));
    let want = format!("a\\u{316}{}", "\\u{301}".repeat(45));
    assert_eq!(s.nfd().collect::<String>(), want);
}
""", feat=", default-features = false")
bug("c22-needs-std", "C22", "a target without the standard library",
    "the crate links the standard library although the std feature is off",
    [(LIB, "extern crate tinyvec;\n", "extern crate tinyvec;\n\n#[cfg(not(feature = \"std\"))]\nextern crate std;\n")],
    """fn main() {}
""", demo_sh="""#!/bin/bash
# exit 0: the library compiled without its std feature can be linked into a program without std
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
unset RUSTFLAGS CARGO_TARGET_DIR
cd "$d" || exit 2
mkdir src
cat > Cargo.toml <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[lib]
crate-type = ["staticlib"]
[dependencies]
unicode-normalization = { path = "$repo", default-features = false }
[profile.dev]
panic = "abort"
[workspace]
EOF
cat > src/lib.rs <<'EOF'
#![no_std]
extern crate alloc;
use unicode_normalization::UnicodeNormalization;
// a second panic handler collides with the standard library's
#[panic_handler]
fn stop(_: &core::panic::PanicInfo) -> ! { loop {} }
struct A;
unsafe impl core::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 { core::ptr::null_mut() }
    unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
}
#[global_allocator]
static G: A = A;
#[no_mangle]
pub extern "C" fn f() -> usize { "abc".nfc().count() }
EOF
CARGO_NET_OFFLINE=true timeout 250 cargo build --offline -q
""")
# ---------------------------------------------------------------- C23
bug("c23-chunk", "C23", "a composed text with 24 or more marks behind a starter",
    "the composed stream gives out its marks before they are complete, so composing twice gives another text",
    [(R, """                                    if ch_class == 0 {
                                        self.composee = Some(ch);
                                        self.last_ccc = None;
                                        self.state = Purging(0);
                                        return Some(k);
                                    }
                                    self.buffer.push(ch);
                                    self.last_ccc = Some(ch_class);
                                    continue;""", """                                    if ch_class == 0 {
                                        self.composee = Some(ch);
                                        self.last_ccc = None;
                                        self.state = Purging(0);
                                        return Some(k);
                                    }
                                    self.buffer.push(ch);
                                    self.last_ccc = if self.buffer.len() == 24 { None } else { Some(ch_class) };
                                    continue;""")],
    """use unicode_normalization::UnicodeNormalization;
fn main() {
    let s = format!("a{}\\u{301}", "\\u{334}".repeat(23) + "\\u{334}");
    let n: String = s.nfc().collect();
    let s2 = format!("a{}\\u{301}\\u{300}", "\\u{30d}".repeat(24));
    let n2: String = s2.nfc().collect();
    assert_eq!(s.nfd().collect::<String>(), n.nfd().collect::<String>());
    assert_eq!(s2.nfd().collect::<String>(), n2.nfd().collect::<String>());
}
""")

# later batches: same fields, kept as data
import json as _json, os as _os
BUGS += _json.load(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "bugs_more.json")))
