"""Behaviour-preserving edits: every check must stay quiet on them.  (id, [(file, old, new), ...])"""
REF = []


def ref(id, *edits):
    REF.append({"id": id, "edits": list(edits)})


D, Rc, Q, S, Rp, N, L, PH, LIB = ("src/%s.rs" % x for x in ("decompose", "recompose", "quick_check", "stream_safe", "replace",
                                                           "normalize", "lookups", "perfect_hash", "lib"))

# ---- decompose
ref("d-sort-helper",
    (D, '''        self.buffer[self.ready.end..].sort_by_key(|k| k.0);''',
     '''        let from = self.ready.end;
        let pending = &mut self.buffer[from..];
        Self::order(pending);'''),
    (D, '''    #[inline]
    fn reset_buffer(&mut self) {''',
     '''    fn order(pending: &mut [(u8, char)]) {
        if pending.len() > 1 {
            pending.sort_by(|a, b| a.0.cmp(&b.0));
        }
    }

    #[inline]
    fn reset_buffer(&mut self) {'''))
ref("d-insertion",
    (D, '''        self.buffer[self.ready.end..].sort_by_key(|k| k.0);''',
     '''        let start = self.ready.end;
        let mut i = start + 1;
        while i < self.buffer.len() {
            let mut j = i;
            while j > start && self.buffer[j - 1].0 > self.buffer[j].0 {
                self.buffer.swap(j - 1, j);
                j -= 1;
            }
            i += 1;
        }'''))
ref("d-copy-within",
    (D, '''        for i in 0..pending {
            self.buffer[i] = self.buffer[i + self.ready.end];
        }
''', '''        let from = self.ready.end;
        self.buffer.copy_within(from.., 0);
'''))
ref("d-drain",
    (D, '''        let pending = self.buffer.len() - self.ready.end;
        for i in 0..pending {
            self.buffer[i] = self.buffer[i + self.ready.end];
        }
        self.buffer.truncate(pending);
''', '''        let end = self.ready.end;
        self.buffer.drain(..end);
'''))
ref("d-while-reset",
    (D, '''        for i in 0..pending {
            self.buffer[i] = self.buffer[i + self.ready.end];
        }
''', '''        let mut i = 0;
        while i < pending {
            let item = self.buffer[i + self.ready.end];
            self.buffer[i] = item;
            i += 1;
        }
'''))
ref("d-match-kind",
    (D, '''            match (self.iter.next(), &self.kind) {
                (Some(ch), &DecompositionType::Canonical) => {
                    super::char::decompose_canonical(ch, |d| self.push_back(d));
                }
                (Some(ch), &DecompositionType::Compatible) => {
                    super::char::decompose_compatible(ch, |d| self.push_back(d));
                }
                (None, _) => {
                    if self.buffer.is_empty() {
                        return None;
                    } else {
                        self.sort_pending();
                        self.ready.end = self.buffer.len();

                        // This implementation means that we can call `next`
                        // on an exhausted iterator; the last outer `next` call
                        // will result in an inner `next` call. To make this
                        // safe, we use `fuse`.
                        break;
                    }
                }
            }
''', '''            let ch = match self.iter.next() {
                Some(ch) => ch,
                None if self.buffer.is_empty() => return None,
                None => {
                    self.sort_pending();
                    self.ready.end = self.buffer.len();
                    break;
                }
            };
            self.feed(ch);
'''),
    (D, '''    #[inline]
    fn sort_pending(&mut self) {''', '''    fn feed(&mut self, ch: char) {
        if let DecompositionType::Canonical = self.kind {
            super::char::decompose_canonical(ch, |d| self.push_back(d));
        } else {
            super::char::decompose_compatible(ch, |d| self.push_back(d));
        }
    }

    #[inline]
    fn sort_pending(&mut self) {'''))
ref("d-pushback",
    (D, '''        let class = super::char::canonical_combining_class(ch);

        if class == 0 {
            self.sort_pending();
            self.buffer.push((class, ch));
            self.ready.end = self.buffer.len();
        } else {
            self.buffer.push((class, ch));
        }
''', '''        let class = super::char::canonical_combining_class(ch);
        let is_starter = class == 0;
        if is_starter {
            self.sort_pending();
        }
        self.buffer.push((class, ch));
        if is_starter {
            self.ready.end = self.buffer.len();
        }
'''))
ref("d-struct",
    (D, '''            kind: self::DecompositionType::Canonical,
            iter: iter.fuse(),
            buffer: TinyVec::new(),
            ready: 0..0,
        }''', '''            buffer: TinyVec::default(),
            kind: DecompositionType::Canonical,
            ready: Range { start: 0, end: 0 },
            iter: Iterator::fuse(iter),
        }'''),
    (D, '''        let (_, ch) = self.buffer[self.ready.start];
        self.increment_next_ready();
        Some(ch)''', '''        let index = self.ready.start;
        let ch = self.buffer[index].1;
        self.increment_next_ready();
        Some(ch)'''))
ref("d-hint", (D, '''        let (lower, _) = self.iter.size_hint();
        (lower, None)''', '''        let buffered = self.buffer.len() - self.ready.start;
        let (lower, _) = self.iter.size_hint();
        (lower.saturating_add(buffered), None)'''))
ref("d-display",
    (D, '''        for c in self.clone() {
            f.write_char(c)?;
        }
        Ok(())''', '''        let mut it = self.clone();
        while let Some(c) = it.next() {
            if let Err(e) = f.write_char(c) {
                return Err(e);
            }
        }
        Ok(())'''))
ref("d-display-tryfe",
    (D, '''        for c in self.clone() {
            f.write_char(c)?;
        }
        Ok(())''', '''        self.clone().try_for_each(|c| f.write_char(c))'''))
ref("d-field-order",
    (D, '''    buffer: TinyVec<[(u8, char); 4]>,
    ready: Range<usize>,
}''', '''    buffer: TinyVec<[(u8, char); 4]>,
    start: usize,
    end: usize,
}'''),
    (D, "            ready: 0..0,", "            start: 0, end: 0,"), (D, "            ready: 0..0,", "            start: 0, end: 0,"),
    (D, "self.ready = 0..0;", "self.start = 0; self.end = 0;"),
    *[(D, "self.ready.end", "self.end") for _ in range(14)],
    *[(D, "self.ready.start", "self.start") for _ in range(10)],
    (D, "use core::ops::Range;\n", ""))
ref("d-inline8", (D, "TinyVec<[(u8, char); 4]>", "TinyVec<[(u8, char); 8]>"))
ref("d-ascii-fast",
    (D, '''            match (self.iter.next(), &self.kind) {
''', '''            match (self.iter.next(), &self.kind) {
                (Some(ch), _) if ch.is_ascii() => self.push_back(ch),
'''))
ref("d-ready-fast",
    (D, '''        while self.ready.end == 0 {
            match''', '''        while self.ready.end == 0 {
            debug_assert!(self.ready.start == 0);
            match'''))

# ---- recompose
ref("r-helper",
    (Rc, '''impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {''',
     '''impl<I> Recompositions<I> {
    fn hold(&mut self, ch: char, class: u8) {
        self.buffer.push(ch);
        self.last_ccc = Some(class);
    }
}

impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {'''),
    (Rc, '''for ch in self.iter.by_ref() {''', '''while let Some(ch) = self.iter.next() {'''),
    *[(Rc, '''self.buffer.push(ch);
                                    self.last_ccc = Some(ch_class);''', '''self.hold(ch, ch_class);''') for _ in range(2)],
    (Rc, '''self.buffer.push(ch);
                                        self.last_ccc = Some(ch_class);''', '''self.hold(ch, ch_class);'''))
ref("r-blocked",
    (Rc, '''                        match self.last_ccc {
                            None => match super::char::compose(k, ch) {
                                Some(r) => {
                                    self.composee = Some(r);
                                    continue;
                                }
                                None => {
                                    if ch_class == 0 {
                                        self.composee = Some(ch);
                                        return Some(k);
                                    }
                                    self.buffer.push(ch);
                                    self.last_ccc = Some(ch_class);
                                }
                            },
                            Some(l_class) => {
                                if l_class >= ch_class {
                                    // `ch` is blocked from `composee`
                                    if ch_class == 0 {
                                        self.composee = Some(ch);
                                        self.last_ccc = None;
                                        self.state = Purging(0);
                                        return Some(k);
                                    }
                                    self.buffer.push(ch);
                                    self.last_ccc = Some(ch_class);
                                    continue;
                                }
                                match super::char::compose(k, ch) {
                                    Some(r) => {
                                        self.composee = Some(r);
                                        continue;
                                    }
                                    None => {
                                        self.buffer.push(ch);
                                        self.last_ccc = Some(ch_class);
                                    }
                                }
                            }
                        }
''', '''                        let blocked = match self.last_ccc {
                            Some(l_class) => l_class >= ch_class,
                            None => false,
                        };
                        if !blocked {
                            if let Some(r) = super::char::compose(k, ch) {
                                self.composee = Some(r);
                                continue;
                            }
                        }
                        if ch_class == 0 {
                            self.composee = Some(ch);
                            if self.last_ccc.take().is_some() {
                                self.state = Purging(0);
                            }
                            return Some(k);
                        }
                        self.buffer.push(ch);
                        self.last_ccc = Some(ch_class);
'''))
ref("r-take",
    (Rc, '''                    self.state = Finished(0);
                    if self.composee.is_some() {
                        return self.composee.take();
                    }
''', '''                    self.state = Finished(0);
                    if let Some(c) = self.composee.take() {
                        return Some(c);
                    }
'''),
    (Rc, '''                Purging(next) => match self.buffer.get(next).cloned() {
                    None => {
                        self.buffer.clear();
                        self.state = Composing;
                    }
                    s => {
                        self.state = Purging(next + 1);
                        return s;
                    }
                },
''', '''                Purging(next) => {
                    if next < self.buffer.len() {
                        let ch = self.buffer[next];
                        self.state = Purging(next + 1);
                        return Some(ch);
                    }
                    self.buffer.truncate(0);
                    self.state = Composing;
                }
'''))
ref("r-default-new",
    (Rc, '''        Recompositions {
            iter: Decompositions::new_canonical(iter),
            state: self::RecompositionState::Composing,
            buffer: TinyVec::new(),
            composee: None,
            last_ccc: None,
        }
''', '''        Self::from_decomposed(Decompositions::new_canonical(iter))
'''),
    (Rc, '''        Recompositions {
            iter: Decompositions::new_compatible(iter),
            state: self::RecompositionState::Composing,
            buffer: TinyVec::new(),
            composee: None,
            last_ccc: None,
        }
''', '''        Self::from_decomposed(Decompositions::new_compatible(iter))
'''),
    (Rc, '''impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {''',
     '''impl<I> Recompositions<I> {
    fn from_decomposed(iter: Decompositions<I>) -> Self {
        Recompositions {
            iter,
            state: RecompositionState::Composing,
            buffer: TinyVec::new(),
            composee: None,
            last_ccc: None,
        }
    }
}

impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {'''))
ref("r-lastccc-zero",
    (Rc, "last_ccc: Option<u8>,", "last_ccc: u8,"),
    (Rc, "last_ccc: None,", "last_ccc: 0,"), (Rc, "last_ccc: None,", "last_ccc: 0,"),
    (Rc, "match self.last_ccc {\n                            None =>", "match self.last_ccc {\n                            0 =>"),
    (Rc, "Some(l_class) => {", "l_class => {"),
    (Rc, "self.last_ccc = None;", "self.last_ccc = 0;"),
    *[(Rc, "self.last_ccc = Some(ch_class);", "self.last_ccc = ch_class;") for _ in range(3)])
ref("r-purge-iter",
    (Rc, '''                Finished(next) => match self.buffer.get(next).cloned() {
                    None => {
                        self.buffer.clear();
                        return self.composee.take();
                    }
                    s => {
                        self.state = Finished(next + 1);
                        return s;
                    }
                },
''', '''                Finished(next) => {
                    if let Some(&c) = self.buffer.iter().nth(next) {
                        self.state = Finished(next + 1);
                        return Some(c);
                    }
                    self.buffer.clear();
                    return self.composee.take();
                }
'''))
ref("r-vec-hint", (Rc, '''impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {
    type Item = char;
''', '''impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {
    type Item = char;

    fn size_hint(&self) -> (usize, Option<usize>) {
        let held = if self.composee.is_some() { 1 } else { 0 };
        (held, None)
    }
'''))

# ---- quick check
ref("q-while",
    (Q, '''    for ch in s {
        // For ASCII''', '''    let mut s = s;
    while let Some(ch) = s.next() {
        // For ASCII'''),
    (Q, '''        match is_allowed(ch) {
            IsNormalized::Yes => (),
            IsNormalized::No => return IsNormalized::No,
            IsNormalized::Maybe => {
                result = IsNormalized::Maybe;
            }
        }
''', '''        let allowed = is_allowed(ch);
        if allowed == IsNormalized::No {
            return IsNormalized::No;
        }
        if allowed != IsNormalized::Yes {
            result = allowed;
        }
'''))
ref("q-order-swap",
    (Q, '''        if last_cc > cc && cc != 0 {
            return IsNormalized::No;
        }
''', '''        let out_of_order = cc != 0 && cc < last_cc;
        if out_of_order {
            return IsNormalized::No;
        }
'''),
    (Q, '''        if ch <= '\\x7f' {
            last_cc = 0;''', '''        if ch.is_ascii() {
            last_cc = 0;'''))
ref("q-struct",
    (Q, '''            if nonstarter_count + decomp.leading_nonstarters > stream_safe::MAX_NONSTARTERS {
                return IsNormalized::No;
            }
            if decomp.leading_nonstarters == decomp.decomposition_len {
                nonstarter_count += decomp.decomposition_len;
            } else {
                nonstarter_count = decomp.trailing_nonstarters;
            }
''', '''            match count_step(nonstarter_count, &decomp) {
                Some(n) => nonstarter_count = n,
                None => return IsNormalized::No,
            }
'''),
    (Q, '''/// Quickly check if a string is in NFC, potentially returning''', '''fn count_step(count: usize, d: &stream_safe::Decomposition) -> Option<usize> {
    let total = count + d.leading_nonstarters;
    if total > stream_safe::MAX_NONSTARTERS {
        None
    } else if d.leading_nonstarters == d.decomposition_len {
        Some(total)
    } else {
        Some(d.trailing_nonstarters)
    }
}

/// Quickly check if a string is in NFC, potentially returning'''))
ref("q-settle",
    *[(Q, '''        IsNormalized::Yes => true,
        IsNormalized::No => false,
        IsNormalized::Maybe => s.chars().eq(s.chars().%s),''' % f, '''        IsNormalized::Yes => true,
        IsNormalized::No => false,
        IsNormalized::Maybe => settle(s.chars(), s.chars().%s),''' % f) for f in
      ("nfc()", "nfkc()", "nfd()", "nfkd()", "stream_safe().nfc()", "stream_safe().nfd()")],
    (Q, '''/// Quickly check if a string is in NFC, potentially returning''', '''fn settle<A: Iterator<Item = char>, B: Iterator<Item = char>>(a: A, b: B) -> bool {
    a.eq(b)
}

/// Quickly check if a string is in NFC, potentially returning'''))
ref("q-loop-eq",
    (Q, '''        IsNormalized::Maybe => s.chars().eq(s.chars().nfc()),''', '''        IsNormalized::Maybe => {
            let mut left = s.chars();
            let mut right = s.chars().nfc();
            loop {
                match (left.next(), right.next()) {
                    (None, None) => return true,
                    (a, b) if a == b => {}
                    _ => return false,
                }
            }
        }'''))
ref("q-if-chain",
    (Q, '''    match is_nfd_quick(s.chars()) {
        IsNormalized::Yes => true,
        IsNormalized::No => false,
        IsNormalized::Maybe => s.chars().eq(s.chars().nfd()),
    }''', '''    let quick = is_nfd_quick(s.chars());
    quick == IsNormalized::Yes || (quick == IsNormalized::Maybe && Iterator::eq(s.chars(), s.chars().nfd()))'''))
ref("q-ascii-shortcut",
    (Q, '''pub fn is_nfc(s: &str) -> bool {
''', '''pub fn is_nfc(s: &str) -> bool {
    if s.is_empty() || s.is_ascii() {
        return true;
    }
'''))
ref("q-fold",
    (Q, '''        IsNormalized::Maybe => s.chars().eq(s.chars().nfkd()),''',
     '''        IsNormalized::Maybe => s.chars().nfkd().eq(s.chars()),'''))
ref("q-tryfold",
    (Q, '''    let mut last_cc = 0u8;
    let mut nonstarter_count = 0;
    let mut result = IsNormalized::Yes;
    for ch in s {''', '''    let mut state = (0u8, 0usize);
    let mut result = IsNormalized::Yes;
    for ch in s {
        let (ref mut last_cc, ref mut nonstarter_count) = state;'''),
    (Q, "            last_cc = 0;\n            nonstarter_count = 0;", "            *last_cc = 0;\n            *nonstarter_count = 0;"),
    (Q, "if last_cc > cc", "if *last_cc > cc"),
    (Q, "if nonstarter_count + d", "if *nonstarter_count + d"),
    (Q, "                nonstarter_count +=", "                *nonstarter_count +="),
    (Q, "                nonstarter_count = d", "                *nonstarter_count = d"),
    (Q, "        last_cc = cc;", "        *last_cc = cc;"))

# ---- stream safe
ref("s-if-let",
    (S, '''        let next_ch = match self.buffer.take().or_else(|| self.iter.next()) {
            None => return None,
            Some(c) => c,
        };
''', '''        let next_ch = if let Some(c) = self.buffer.take() {
            c
        } else {
            self.iter.next()?
        };
'''))
ref("s-helper",
    (S, '''        // Is the character all nonstarters in NFKD? If so, increment our counter of contiguous
        // nonstarters in NKFD.
        if d.leading_nonstarters == d.decomposition_len {
            self.nonstarter_count += d.decomposition_len;
        }
        // Otherwise, reset the counter to the decomposition's number of trailing nonstarters.
        else {
            self.nonstarter_count = d.trailing_nonstarters;
        }
        Some(next_ch)''', '''        self.nonstarter_count = d.carry(self.nonstarter_count);
        Some(next_ch)'''),
    (S, '''#[inline]
pub(crate) fn classify_nonstarters''', '''impl Decomposition {
    fn carry(&self, before: usize) -> usize {
        let all = self.leading_nonstarters == self.decomposition_len;
        if all {
            before + self.decomposition_len
        } else {
            self.trailing_nonstarters
        }
    }
}

#[inline]
pub(crate) fn classify_nonstarters'''))
ref("s-classify",
    (S, '''        None => {
            let is_nonstarter = canonical_combining_class(c) != 0;
            let nonstarter = if is_nonstarter { 1 } else { 0 };
            Decomposition {''', '''        None => {
            let nonstarter = (canonical_combining_class(c) != 0) as usize;
            Decomposition {'''))
ref("s-u8count",
    (S, "    nonstarter_count: usize,\n    buffer", "    nonstarter_count: u8,\n    buffer"),
    (S, "if self.nonstarter_count + d", "if usize::from(self.nonstarter_count) + d"),
    (S, "self.nonstarter_count += d.decomposition_len;", "self.nonstarter_count += d.decomposition_len as u8;"),
    (S, "self.nonstarter_count = d.trailing_nonstarters;", "self.nonstarter_count = d.trailing_nonstarters as u8;"))
ref("s-skip-reclassify",
    (S, '''            self.nonstarter_count = 0;
            self.buffer = Some(next_ch);''', '''            self.nonstarter_count = 0;
            self.buffer.replace(next_ch);'''))

# ---- replace
ref("p-match",
    (Rp, '''        match self.iter.next() {
            Some(ch) => {
                // At this time, the longest replacement sequence has length 2.
                let mut buffer = ArrayVec::<[char; 2]>::new();
                super::char::decompose_cjk_compat_variants(ch, |d| buffer.push(d));
                self.buffer = buffer.get(1).copied();
                Some(buffer[0])
            }
            None => None,
        }''', '''        let ch = self.iter.next()?;
        let mut first = None;
        let mut second = None;
        super::char::decompose_cjk_compat_variants(ch, |d| {
            if first.is_none() {
                first = Some(d);
            } else {
                second = Some(d);
            }
        });
        self.buffer = second;
        first'''))
ref("p-map",
    (Rp, '''        match self.iter.next() {
            Some(ch) => {
                // At this time, the longest replacement sequence has length 2.
                let mut buffer = ArrayVec::<[char; 2]>::new();
                super::char::decompose_cjk_compat_variants(ch, |d| buffer.push(d));
                self.buffer = buffer.get(1).copied();
                Some(buffer[0])
            }
            None => None,
        }''', '''        let slot = &mut self.buffer;
        self.iter.next().map(|ch| {
            let mut buffer = ArrayVec::<[char; 2]>::new();
            super::char::decompose_cjk_compat_variants(ch, |d| buffer.push(d));
            if buffer.len() > 1 {
                *slot = Some(buffer[1]);
            }
            buffer[0]
        })'''))

# ---- normalize / lookups / hash
ref("n-foreach",
    (N, '''    if let Some(decomposed) = decompose_char(c) {
        for &d in decomposed {
            emit_char(d);
        }
        return;
    }

    // Finally bottom out.
    emit_char(c);
}''', '''    match decompose_char(c) {
        Some(decomposed) => decomposed.iter().copied().for_each(emit_char),
        None => emit_char(c),
    }
}'''))
ref("n-hangul",
    (N, '''    (c as u32) >= S_BASE && (c as u32) < (S_BASE + S_COUNT)''', '''    (c as u32).wrapping_sub(S_BASE) < S_COUNT'''),
    (N, '''    let si = s as u32 - S_BASE;
    let ti = si % T_COUNT;
    if ti > 0 {
        3
    } else {
        2
    }''', '''    match (s as u32 - S_BASE) % T_COUNT {
        0 => 2,
        _ => 3,
    }'''))
ref("n-compose-if",
    (N, '''    compose_hangul(a, b).or_else(|| composition_table(a, b))''', '''    if let Some(c) = compose_hangul(a, b) {
        return Some(c);
    }
    composition_table(a, b)'''))
ref("n-compat-match",
    (N, '''    let decompose_char =
        |c| compatibility_fully_decomposed(c).or_else(|| canonical_fully_decomposed(c));
    decompose(c, decompose_char, emit_char)''', '''    fn lookup(c: char) -> Option<&'static [char]> {
        match compatibility_fully_decomposed(c) {
            Some(d) => Some(d),
            None => canonical_fully_decomposed(c),
        }
    }
    decompose(c, lookup, emit_char)'''))
ref("n-latin-fast",
    (N, '''    // 7-bit ASCII never decomposes
    if c <= '\\x7f' {
        emit_char(c);
        return;
    }

    // Perform decomposition for Hangul''', '''    // nothing below U+00A0 decomposes
    if c < '\\u{A0}' {
        emit_char(c);
        return;
    }

    // Perform decomposition for Hangul'''))
ref("n-compose-safe",
    (N, '''            Some(unsafe { char::from_u32_unchecked(s) })''', '''            char::from_u32(s)'''),
    (N, '''            Some(unsafe { char::from_u32_unchecked(a + (b - T_BASE)) })''', '''            char::from_u32(a + (b - T_BASE))'''))
ref("l-ccc-fast",
    (L, '''pub fn canonical_combining_class(c: char) -> u8 {
''', '''pub fn canonical_combining_class(c: char) -> u8 {
    // no non-starters below U+0300
    if c < '\\u{300}' {
        return 0;
    }
'''))
ref("l-slice",
    *[(L, "    .map(|(start, len)| &%s_CHARS[start as usize..][..len as usize])" % t,
       "    .map(|(start, len)| {\n        let start = start as usize;\n        &%s_CHARS[start..start + len as usize]\n    })" % t)
      for t in ("CANONICAL_DECOMPOSED", "COMPATIBILITY_DECOMPOSED", "CJK_COMPAT_VARIANTS_DECOMPOSED")])
ref("h-hash",
    (PH, '''    let s = salt[my_hash(x, 0, salt.len())] as u32;
    let key_val = kv[my_hash(x, s, salt.len())];
    if x == fk(key_val) {
        fv(key_val)
    } else {
        default
    }''', '''    let n = salt.len();
    let displacement = u32::from(salt[my_hash(x, 0, n)]);
    match kv.get(my_hash(x, displacement, n)) {
        Some(&entry) if fk(entry) == x => fv(entry),
        _ => default,
    }'''))
ref("h-mult",
    (PH, '''    let y = key.wrapping_add(salt).wrapping_mul(2654435769);
    let y = y ^ key.wrapping_mul(0x31415926);
    (((y as u64) * (n as u64)) >> 32) as usize''', '''    const A: u32 = 0x9E37_79B9;
    const B: u32 = 0x3141_5926;
    let mixed = key.wrapping_add(salt).wrapping_mul(A) ^ key.wrapping_mul(B);
    ((u64::from(mixed) * n as u64) >> 32) as usize'''))
ref("lib-char", (LIB, '''    #[inline]
    fn nfd(self) -> Decompositions<option::IntoIter<char>> {
        Decompositions::new_canonical(Some(self).into_iter())
    }''', '''    #[inline]
    fn nfd(self) -> Decompositions<option::IntoIter<char>> {
        UnicodeNormalization::nfd(Some(self).into_iter())
    }'''))
ref("lib-str", (LIB, '''impl<'a> UnicodeNormalization<Chars<'a>> for &'a str {
    #[inline]
    fn nfd(self) -> Decompositions<Chars<'a>> {
        Decompositions::new_canonical(self.chars())
    }''', '''impl<'a> UnicodeNormalization<Chars<'a>> for &'a str {
    #[inline]
    fn nfd(self) -> Decompositions<Chars<'a>> {
        let chars = self.chars();
        chars.nfd()
    }'''))
