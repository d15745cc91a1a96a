#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Canonical decomposition of every character is the Unicode 16.0 one",
  "For every Unicode scalar value, canonical single-character decomposition emits exactly, in order, the full canonical decomposition defined by Unicode 16.0, including the algorithmic decomposition of all 11,172 Hangul syllables. A character without a canonical decomposition is emitted unchanged, once.",
  ["inputs"], "all 1,112,064 scalar values",
  "NormalizationTest.txt rows only cover listed characters and only through the whole-string iterators; characters outside the list and the callback API itself are sampled at best.",
  ["src/normalize.rs", "src/lookups.rs", "src/perfect_hash.rs", "src/tables.rs"],
  [("decompose / decompose_hangul", "src/normalize.rs"), ("canonical_fully_decomposed", "src/lookups.rs"), ("mph_lookup, my_hash", "src/perfect_hash.rs"), ("CANONICAL_DECOMPOSED_{CHARS,SALT,KV}", "src/tables.rs")],
  observe=["char::decompose_canonical"])
p("C02", "Compatibility decomposition of every character is the Unicode 16.0 one",
  "For every Unicode scalar value, compatibility single-character decomposition emits exactly, in order, the full compatibility decomposition defined by Unicode 16.0 (which equals the canonical one where no compatibility mapping applies). A character without any decomposition is emitted unchanged, once.",
  ["inputs"], "all 1,112,064 scalar values",
  "The official rows reach the mapping only through normalized strings; a wrong or missing entry for an unlisted character, or a wrong fall-back order between the two mappings, is not sampled exhaustively.",
  ["src/normalize.rs", "src/lookups.rs", "src/tables.rs"],
  [("decompose_compatible (compat table first, canonical table second)", "src/normalize.rs"), ("compatibility_fully_decomposed", "src/lookups.rs"), ("COMPATIBILITY_DECOMPOSED_{CHARS,SALT,KV}", "src/tables.rs")],
  observe=["char::decompose_compatible"])
p("C03", "Pairwise composition is exactly the Unicode 16.0 primary composites",
  "For every ordered pair of scalar values, composing the pair returns the Unicode 16.0 primary composite when the pair is its canonical decomposition (composition exclusions honoured) or the Hangul LV/LVT syllable given by the conjoining-jamo arithmetic. For every other pair it returns nothing.",
  ["inputs"], "all 1,112,064 x 1,112,064 ordered pairs",
  "About 1.2e12 pairs: tests reach only those that occur in NormalizationTest rows, so a spurious composite for an unlisted pair (wrong range bound, key collision, astral pair falling into the BMP path) is invisible.",
  ["src/normalize.rs", "src/lookups.rs", "src/perfect_hash.rs", "src/tables.rs"],
  [("compose, compose_hangul", "src/normalize.rs"), ("composition_table (BMP key packing), composition_table_astral", "src/lookups.rs, src/tables.rs")],
  observe=["char::compose"])
p("C04", "Canonical combining class of every character is the Unicode 16.0 one",
  "For every scalar value the reported canonical combining class equals the Canonical_Combining_Class of Unicode 16.0, and is 0 for every character not listed there.",
  ["inputs"], "all 1,112,064 scalar values",
  "No test enumerates combining classes; the official rows only observe the relative order of a few marks per row.",
  ["src/lookups.rs", "src/perfect_hash.rs", "src/tables.rs"],
  [("canonical_combining_class, u8_lookup_fk/fv", "src/lookups.rs"), ("CANONICAL_COMBINING_CLASS_{SALT,KV}", "src/tables.rs")],
  observe=["char::canonical_combining_class"])
p("C05", "Combining-mark query is exactly General_Category=Mark of Unicode 16.0",
  "For every scalar value the combining-mark query answers true exactly when its Unicode 16.0 General_Category is Mn, Mc or Me.",
  ["inputs"], "all 1,112,064 scalar values",
  "Tests check ASCII and two characters.",
  ["src/lookups.rs", "src/tables.rs"],
  [("is_combining_mark", "src/lookups.rs"), ("COMBINING_MARK_{SALT,KV}", "src/tables.rs")],
  observe=["char::is_combining_mark"])
p("C06", "Public-assigned query and version constant match Unicode 16.0",
  "For every scalar value the public-assigned query answers true exactly when the character is assigned and not private-use in Unicode 16.0 (noncharacters count as unassigned). The published version constant is the version those answers belong to.",
  ["inputs"], "all 1,112,064 scalar values",
  "About a hundred boundary characters are asserted; the roughly 730 ranges are not.",
  ["src/tables.rs", "src/lib.rs"],
  [("is_public_assigned range match", "src/tables.rs"), ("UNICODE_VERSION", "src/tables.rs")],
  observe=["char::is_public_assigned", "UNICODE_VERSION"])
p("C07", "CJK compatibility variants: exact per-character and whole-stream replacement",
  "Every CJK compatibility ideograph that has a standardized variation sequence in Unicode 16.0 is replaced by exactly that two-character sequence, and every other scalar value (Hangul included) is passed through unchanged. Applied to a stream, the replacement yields the concatenation of the per-character results in input order, with nothing lost, duplicated or reordered.",
  ["inputs", "histories"], "all scalar values; all input streams and all points at which the consumer polls",
  "Two ideographs and one Hangul string are tested.",
  ["src/normalize.rs", "src/replace.rs", "src/lookups.rs", "src/tables.rs"],
  [("decompose_cjk_compat_variants", "src/normalize.rs"), ("Replacements::next one-character carry buffer", "src/replace.rs")],
  state=[("buffer", "second character of the current replacement, not yet yielded", "src/replace.rs Replacements")],
  observe=["char::decompose_cjk_compat_variants", "UnicodeNormalization::cjk_compat_variants"])
p("C08", "NFD/NFKD streams: every decomposed character once, in canonical order",
  "For every input stream, the NFD (NFKD) stream consists of the canonical (compatibility) decompositions of the input characters, concatenated, with each maximal run of non-starters stably sorted by combining class and nothing else reordered, lost or duplicated. This holds however long the runs are and wherever starters, non-starters and the end of input fall.",
  ["inputs", "histories"], "all character streams, of any length and any run length; all poll sequences",
  "Rows have at most a handful of consecutive marks; buffer spill, long runs, equal classes, and leading or trailing runs in combination are sampled thinly.",
  ["src/decompose.rs", "src/normalize.rs"],
  [("push_back / sort_pending / reset_buffer / increment_next_ready", "src/decompose.rs"), ("Decompositions::next", "src/decompose.rs")],
  state=[("buffer", "(class, char) pairs: consumed | ready | pending", "src/decompose.rs Decompositions"), ("ready", "range of the sorted, emittable part", "src/decompose.rs Decompositions")],
  observe=["UnicodeNormalization::nfd", "UnicodeNormalization::nfkd"])
p("C09", "NFC/NFKC streams: exactly the canonical composition algorithm",
  "For every input stream, the NFC (NFKC) stream equals the canonical composition algorithm applied to the NFD (NFKD) of the input: each non-blocked character is combined with the last starter when the pair has a primary composite, and everything else is kept in order. Nothing is lost, duplicated or reordered, wherever starters, blocked marks and the end of input fall.",
  ["inputs", "histories"], "all character streams; all poll sequences",
  "Blocking, recomposition after a failed composition, purge-then-compose sequences and end-of-input with a non-empty buffer interact; rows sample a few combinations.",
  ["src/recompose.rs", "src/decompose.rs"],
  [("Recompositions::next state machine (Composing/Purging/Finished)", "src/recompose.rs")],
  state=[("composee", "last starter, possibly already composed", "src/recompose.rs"), ("buffer", "marks that follow the composee", "src/recompose.rs"), ("last_ccc", "class of the last uncomposed mark", "src/recompose.rs")],
  observe=["UnicodeNormalization::nfc", "UnicodeNormalization::nfkc"])
p("C10", "Quick checks never give a wrong definite answer",
  "For every input, a quick check for NFC, NFD, NFKC or NFKD answers Yes only if the text is in that form and No only if it is not; for NFD and NFKD the answer is never Maybe.",
  ["inputs"], "all character streams",
  "Only NormalizationTest strings are checked, through the authoritative predicates; a wrong property value for an unlisted character, or a lost combining-class comparison across an ASCII or starter boundary, is not seen.",
  ["src/quick_check.rs", "src/tables.rs"],
  [("quick_check loop", "src/quick_check.rs"), ("qc_nfc, qc_nfkc, qc_nfd, qc_nfkd", "src/tables.rs")],
  state=[("last_cc", "class of the previous character", "src/quick_check.rs")],
  observe=["is_nfc_quick", "is_nfd_quick", "is_nfkc_quick", "is_nfkd_quick"])
p("C11", "Authoritative predicates agree with the normalizers",
  "For every string, the authoritative NFC, NFD, NFKC and NFKD predicates return true exactly when normalizing the string to that form leaves it unchanged.",
  ["inputs"], "all strings",
  "Only NormalizationTest strings are checked, none of which exercises every quick-check outcome for every form.",
  ["src/quick_check.rs"],
  [("is_nfc/is_nfd/is_nfkc/is_nfkd: Yes/No short-cuts and full comparison on Maybe", "src/quick_check.rs")],
  observe=["is_nfc", "is_nfd", "is_nfkc", "is_nfkd"])
p("C12", "Stream-safe process: at most 30 non-starters, only CGJ inserted, minimally",
  "For every input stream, the stream-safe output is the input with only U+034F inserted, and the compatibility decomposition of the output never contains more than 30 consecutive non-starters. A U+034F is inserted exactly where the next character would push the count past 30, so text that is already stream-safe comes out unchanged.",
  ["inputs", "histories"], "all character streams; all poll sequences",
  "Three strings and one regression are tested; characters whose decomposition starts or ends with several non-starters matter only at exact counts.",
  ["src/stream_safe.rs", "src/lookups.rs", "src/tables.rs", "src/normalize.rs"],
  [("StreamSafe::next, classify_nonstarters", "src/stream_safe.rs"), ("stream_safe_leading_nonstarters, TRAILING_NONSTARTERS", "src/tables.rs")],
  state=[("nonstarter_count", "trailing non-starters of the output so far, in NFKD", "src/stream_safe.rs"), ("buffer", "character held back behind an inserted CGJ", "src/stream_safe.rs")],
  observe=["UnicodeNormalization::stream_safe"])
p("C13", "Stream-safe predicates never give a wrong definite answer",
  "For every input, the quick stream-safe NFC and NFD checks answer Yes only if the text is both stream-safe and in that form and No only if it is not both; the authoritative stream-safe predicates return true exactly when the text is both.",
  ["inputs"], "all character streams",
  "Four hand-written strings are tested.",
  ["src/quick_check.rs", "src/stream_safe.rs"],
  [("quick_check with stream_safe=true", "src/quick_check.rs"), ("is_nfc_stream_safe, is_nfd_stream_safe", "src/quick_check.rs"), ("classify_nonstarters", "src/stream_safe.rs")],
  state=[("nonstarter_count", "non-starters since the last starter in NFKD", "src/quick_check.rs")],
  observe=["is_nfc_stream_safe_quick", "is_nfd_stream_safe_quick", "is_nfc_stream_safe", "is_nfd_stream_safe"])
p("C14", "No public operation panics on any input",
  "No public function or iterator of the crate panics for any character, pair of characters, string or character stream, with overflow checks on: no index is out of range, no arithmetic overflows, no missing value is unwrapped.",
  ["inputs", "histories"], "all characters, pairs, strings and streams; all poll sequences, including after the end",
  "Tests only show absence of panics on their samples; index and slice bounds depend on table contents and buffer state.",
  ["src/perfect_hash.rs", "src/lookups.rs", "src/normalize.rs", "src/decompose.rs", "src/recompose.rs", "src/replace.rs", "src/stream_safe.rs", "src/quick_check.rs", "src/tables.rs"],
  [("(y*n)>>32 < n index bound", "src/perfect_hash.rs"), ("(start,len) slices into the CHARS tables", "src/lookups.rs"), ("ready/buffer index invariant", "src/decompose.rs"), ("two-slot replacement buffer", "src/replace.rs")],
  observe=["all public functions and Iterator::next of the public iterators"])
p("C15", "Unchecked character constructions only ever produce valid scalar values",
  "Every unchecked integer-to-character conversion the crate performs is given, on every input, an integer that is a Unicode scalar value, and every unchecked memory access it performs is in bounds, so safe callers can never trigger undefined behaviour.",
  ["inputs"], "all characters and pairs",
  "Undefined behaviour may look like success; tests compare values on a sample of syllables and jamo.",
  ["src/normalize.rs", "src/lib.rs"],
  [("is_hangul_syllable guard before decompose_hangul", "src/normalize.rs"), ("range patterns guarding compose_hangul", "src/normalize.rs"), ("deny(unsafe_code) with local allows", "src/lib.rs, src/normalize.rs")],
  observe=["char::compose", "char::decompose_canonical", "char::decompose_compatible"])
p("C16", "End of stream is final and the finished source is left alone",
  "Once a normalizing iterator has returned the end of the stream it keeps returning it, whenever its source is exhausted for good. The four normalization-form iterators never poll their source again after it has reported its end, unless the source's type is declared fused.",
  ["histories", "inputs"], "all streams and all poll sequences past the end; sources that would resume after their end",
  "Tests collect each iterator once and never poll past the end, nor use sources that resume.",
  ["src/decompose.rs", "src/recompose.rs", "src/replace.rs", "src/stream_safe.rs"],
  [("Fuse around the source", "src/decompose.rs"), ("Finished state", "src/recompose.rs"), ("FusedIterator impls", "src/decompose.rs, src/recompose.rs, src/replace.rs, src/stream_safe.rs")],
  observe=["Iterator::next after None"])
p("C17", "Size hints are correct bounds",
  "At every point of the iteration, the size hint of every public iterator is a true bound: the lower bound never exceeds, and an upper bound if given is never below, the number of characters still to be yielded, for any source whose own size hint is a true bound.",
  ["inputs", "histories"], "all sources, all iteration points",
  "No test reads a size hint; a wrong one is only visible to capacity-trusting consumers.",
  ["src/decompose.rs", "src/recompose.rs", "src/replace.rs", "src/stream_safe.rs"],
  [("size_hint of Decompositions and Replacements; default hints elsewhere", "src/decompose.rs, src/replace.rs")],
  observe=["Iterator::size_hint"])
p("C18", "Strings, characters and iterators are normalized alike",
  "Each of the six text transformations gives, on a string, a single character, or any character iterator, the same result as applying that same transformation to the corresponding sequence of characters, and each named constructor is equivalent to the corresponding method.",
  ["inputs", "programs"], "all receivers x all six transformations",
  "Most tests use one receiver (strings or their iterators); the single-character receiver is tested for one form only.",
  ["src/lib.rs", "src/decompose.rs", "src/recompose.rs", "src/replace.rs", "src/stream_safe.rs"],
  [("three UnicodeNormalization impls", "src/lib.rs"), ("new_canonical/new_compatible/new_cjk_compat_variants/new", "src/decompose.rs, src/recompose.rs, src/replace.rs, src/stream_safe.rs")],
  observe=["UnicodeNormalization methods", "public constructors"])
p("C19", "Streaming is lazy: no look-ahead beyond what the next output needs",
  "The iterators pull a character from their source only when the next output is not yet determined by what has been read: NFD and NFKD never pull while a sorted run is waiting, NFC and NFKC additionally stop at the first starter that does not combine, and the replacement and stream-safe iterators never pull more than the character they are about to yield. Constructing an iterator or asking for its size pulls nothing.",
  ["inputs", "histories"], "all streams and poll sequences",
  "Only a fuzz target (not run) observes pulls; tests look at results, which buffering ahead does not change.",
  ["src/decompose.rs", "src/recompose.rs", "src/replace.rs", "src/stream_safe.rs", "fuzz/fuzz_targets/streaming.rs"],
  [("ready range drained before pulling", "src/decompose.rs"), ("Purging state drained before pulling", "src/recompose.rs")],
  observe=["calls to the source's next()"])
p("C20", "Cloning and displaying an iterator reflect exactly the remaining text",
  "A clone taken at any point of an iteration yields exactly what the original would still yield, independently of it. Displaying an iterator writes exactly the characters it would still yield, in order, stops at the first writer error and reports it, and does not disturb the iterator.",
  ["histories", "inputs"], "all iteration points, all streams, all writer failures",
  "Tests display only fresh iterators and clone none mid-way; no test has a failing writer.",
  ["src/decompose.rs", "src/recompose.rs", "src/replace.rs"],
  [("derived Clone", "src/decompose.rs, src/recompose.rs, src/replace.rs"), ("fmt::Display impls", "src/decompose.rs, src/recompose.rs, src/replace.rs")],
  observe=["Clone::clone", "Display::fmt"])
p("C21", "Results depend only on the arguments: no shared mutable state, thread-safe types",
  "Every public operation is a function of its arguments alone: the crate keeps no mutable global, thread-local or lazily initialised state and consults no clock, environment, file, randomness or address. Its iterators can be sent to and shared between threads whenever their source can.",
  ["schedules", "histories"], "all call histories and all thread interleavings",
  "Tests call each operation in isolation; a cache that goes wrong under particular call orders or interleavings is not sampled.",
  ["src/lib.rs", "src/lookups.rs", "src/tables.rs", "src/decompose.rs", "src/recompose.rs", "src/replace.rs", "src/stream_safe.rs", "src/quick_check.rs"],
  [("const tables only", "src/tables.rs"), ("iterators own all their state", "src/decompose.rs, src/recompose.rs, src/replace.rs, src/stream_safe.rs")],
  observe=["all public items"])
p("C22", "Same behaviour with and without the standard library, in debug and release",
  "The crate behaves identically with the std feature on and off, and with debug assertions on and off, and with the feature off it does not depend on the standard library.",
  ["configurations", "inputs"], "feature std on/off x debug assertions on/off, all inputs",
  "The test suite runs in both feature settings but only on its samples, and only with debug assertions on.",
  ["src/lib.rs", "Cargo.toml", "src/__test_api.rs"],
  [("cfg_attr(no_std), extern crate alloc", "src/lib.rs")],
  observe=["all public items under each configuration"])
p("C23", "Normal forms are stable: renormalizing changes nothing, equivalents converge",
  "The four normalization forms are idempotent, NFC of NFD equals NFC and NFD of NFC equals NFD (likewise for the K forms), for every string; hence canonically (compatibility) equivalent strings get the same NFC and NFD (NFKC and NFKD). In particular no character of a decomposition decomposes further or is out of canonical order, and every composite decomposes back to what it was composed from.",
  ["inputs"], "all strings",
  "The official rows assert these equations on the listed strings only.",
  ["src/tables.rs", "src/normalize.rs", "src/decompose.rs", "src/recompose.rs"],
  [("fully expanded decomposition tables", "src/tables.rs"), ("composition table inverse to canonical decomposition", "src/tables.rs"), ("ordering and composition state machines", "src/decompose.rs, src/recompose.rs")],
  observe=["UnicodeNormalization::{nfc,nfd,nfkc,nfkd}"])
p("C24", "Normalization runs in time near-linear in the text",
  "The total work of normalizing or checking a text grows no faster than n log n in its length, whatever its content.",
  ["inputs"], "all texts", "No test measures time; worst cases are adversarial.",
  ["src/decompose.rs", "src/recompose.rs"], [("stable sort per run; buffer shifted once per run", "src/decompose.rs")],
  observe=["running time"])
p("C25", "Rerunning the generator on the published UCD yields the committed tables",
  "Running the table generator against the published Unicode 16.0 data files yields the committed tables byte for byte.",
  ["programs"], "the generator and its published inputs", "Only a CI job with network access does this.",
  ["scripts/unicode.py", "src/tables.rs"], [("minimal_perfect_hash, gen_*", "scripts/unicode.py")],
  observe=["scripts/unicode.py output"])
p("C26", "The crate builds with the declared minimum Rust version",
  "The crate compiles with Rust 1.36, the declared minimum supported version.",
  ["configurations"], "the declared minimum toolchain", "The test run uses a current toolchain.",
  ["Cargo.toml", "README.md"], [("rust-version", "Cargo.toml")],
  observe=["cargo +1.36 build"])
p("C27", "Adaptors, receivers and predicates accept every source type they promise to",
  "For every type I that is an Iterator of char (cloneable or not, sendable or not, borrowed, boxed or behind &mut dyn), Decompositions, Recompositions, Replacements and StreamSafe over I are iterators of char, I can be normalized through UnicodeNormalization (as can every &str and char) with the documented adaptor types as results, and the quick checks accept it; over every cloneable source Decompositions, Recompositions and Replacements are Clone and Display; over every fused source all four are FusedIterator, and none claims to be a FusedIterator over a source for which it could yield again after having returned the end; IsNormalized is Debug and Eq; the decomposition functions accept every FnMut(char) callback.",
  ["programs"], "all source, receiver and callback types a user can write",
  "The tests use str::Chars, which is Clone, Send, fused, Debug and Unpin at once, so a bound that excludes other sources, or a promise that only holds for it, compiles and passes.",
  ["src/lib.rs", "src/decompose.rs", "src/recompose.rs", "src/replace.rs", "src/stream_safe.rs", "src/quick_check.rs", "src/normalize.rs"],
  [("impl Iterator / FusedIterator / Display / Clone for the adaptors", "src/decompose.rs, src/recompose.rs, src/replace.rs, src/stream_safe.rs"), ("blanket impl UnicodeNormalization<I> for I", "src/lib.rs")],
  observe=["a program that uses the API with its own types compiles, and FusedIterator holds"])
p("C28", "Iterators hold no more text than the longest run of non-starters requires",
  "At every point of an iteration the number of characters that any of the six iterators holds in its buffers is bounded by a constant factor times the longest run of non-starters (in decomposed form) read so far, plus a constant: it does not grow with the length of the text. What has been yielded is dropped.",
  ["inputs", "histories"], "all texts, of every length, at every point of the iteration",
  "No test looks at memory, and outputs stay right when a buffer is never emptied; the growth needs texts of a particular composition to show.",
  ["src/decompose.rs", "src/recompose.rs", "src/replace.rs", "src/stream_safe.rs"],
  [("reset_buffer shifts what is pending to the front", "src/decompose.rs"), ("buffer cleared at the end of Purging", "src/recompose.rs"), ("one-character buffers", "src/replace.rs, src/stream_safe.rs")],
  state=[("buffer", "characters pulled but not yielded yet", "src/decompose.rs Decompositions, src/recompose.rs Recompositions")],
  observe=["lengths of the iterators' buffers; heap use while iterating"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
