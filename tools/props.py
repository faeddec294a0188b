#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it stays one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p("C01", "UTF-8 decoding is correct and self-synchronising for every byte string",
  "For every byte string and every length limit the decoder consumes exactly one lead byte plus as many following continuation bytes as that lead byte announces, yields the encoded scalar value when the sequence is complete, shortest-form, not a surrogate and at most U+10FFFF, and yields U+FFFD in every other case. It returns 0 only for empty or NULL input, it stops before the first byte that is not a continuation byte (a NUL included) without examining anything behind it, and a return value larger than the length limit is produced exactly when the limit cuts off an otherwise still well-formed prefix. The result depends only on the bytes within the limit.",
  ["inputs"], "every byte string up to the longest sequence plus look-behind, every length limit 0..len, with and without an output pointer",
  "test/utf8-decode.c samples about forty byte strings; the guarantee is over all 2^32 four-byte windows and every truncation of them",
  ["src/utf8.c", "grapheme.h"], [("sequence-type table and continuation loop", "src/utf8.c: lut, grapheme_decode_utf8")],
  observe=["grapheme_decode_utf8 return value and *cp"])

p("C02", "UTF-8 encoding is shortest-form, round-trips and respects the buffer",
  "For every 32-bit value the encoder reports the length of, and writes, the unique shortest UTF-8 sequence of that Unicode scalar value; surrogates and values above U+10FFFF are encoded as U+FFFD. Decoding what was encoded gives the value back. With a NULL buffer or a buffer that is too small it writes nothing and still reports the length needed, and it never writes a byte beyond the reported length.",
  ["inputs"], "all 0x110000 code points, the out-of-range values, every buffer size 0..6 and NULL",
  "test/utf8-encode.c checks nine values with an ample buffer; the guarantee is over every value and buffer size",
  ["src/utf8.c", "grapheme.h"], [("sequence-type selection by maxcp", "src/utf8.c: grapheme_encode_utf8")],
  observe=["grapheme_encode_utf8 return value and buffer"])

p("C03", "Grapheme cluster boundaries follow UAX #29 on every text",
  "Repeatedly asking for the next grapheme cluster break splits every code point array exactly at the extended grapheme cluster boundaries of UAX #29 (Unicode 15.0), for every code point and every length of run (regional indicators, emoji ZWJ sequences, Hangul, prepend, extend, spacing marks, controls).",
  ["inputs"], "every sequence of code points, of any length; every code point for its class",
  "GraphemeBreakTest.txt has 602 short strings; combinations of three and more classes, long runs and the class of all 1.1 million code points are not reached",
  ["src/character.c", "gen/character.c", "gen/util.c", "src/util.c"], [("pair tables and GB11/GB12 flags", "src/character.c: grapheme_is_character_break"), ("generated two-stage table", "gen/character.c")],
  state=[("uint_least16_t state", "packed previous class and GB11/GB12-13 flags", "src/character.c: state_serialize")],
  observe=["grapheme_next_character_break"])

p("C04", "The stateful pairwise cluster test agrees with whole-text segmentation",
  "Feeding the adjacent pairs of any text, in order, to the pairwise grapheme-break test with a state that was zero at the start reports a break at exactly the boundaries whole-text segmentation reports; the state may be, but need not be, zeroed after a reported break. Without a state each pair is judged as if the state were zero, i.e. as the start of a text.",
  ["inputs", "histories"], "every history of calls on one state variable: every reachable state value combined with every next code point, texts of unbounded length",
  "The tests drive the state only along the 602 conformance strings through next_character_break; no test calls the pairwise function with a reset, a kept or a NULL state",
  ["src/character.c", "grapheme.h"], [("state (de)serialisation", "src/character.c: state_serialize, state_deserialize"), ("NULL-state branch", "src/character.c: grapheme_is_character_break")],
  state=[("uint_least16_t state", "caller-held automaton state", "grapheme.h: grapheme_is_character_break")],
  observe=["grapheme_is_character_break return value and *state"])

p("C05", "Word boundaries follow UAX #29 on every text",
  "Repeatedly asking for the next word break splits every code point array exactly at the word boundaries of UAX #29 (Unicode 15.0), whatever ignorable characters are interspersed, however long the runs are and whichever code points represent the classes.",
  ["inputs"], "every sequence of code points, of any length; every code point for its class",
  "WordBreakTest.txt has 1823 strings of mostly two or three characters; WB4 skipping inside WB6/7/11/12 lookahead, regional-indicator parity over long runs and the full code point range are not reached",
  ["src/word.c", "src/util.c", "gen/word.c", "gen/util.c"], [("raw and skip view of neighbouring classes", "src/util.c: proper_init, proper_advance"), ("rule cascade", "src/word.c: next_word_break")],
  state=[("struct proper", "two raw and two skipped classes on either side", "src/util.h"), ("ri_even", "parity of regional indicators", "src/word.c")],
  observe=["grapheme_next_word_break"])

p("C06", "Sentence boundaries follow UAX #29 on every text",
  "Repeatedly asking for the next sentence break splits every code point array exactly at the sentence boundaries of UAX #29 (Unicode 15.0), including arbitrarily long Close/Sp runs, unbounded look-ahead for a lower-case continuation, and interspersed Extend/Format characters.",
  ["inputs"], "every sequence of code points, of any length; every code point for its class",
  "SentenceBreakTest.txt has 502 strings; terminator sequences that restart inside a Close/Sp run and long look-ahead are not reached",
  ["src/sentence.c", "src/util.c", "gen/sentence.c"], [("ATerm/SATerm level automata", "src/sentence.c: sentence_skip_shift_callback"), ("SB8 look-ahead", "src/sentence.c: next_sentence_break")],
  state=[("sentence_break_state", "position within SATerm Close* Sp* ParaSep?", "src/sentence.c")],
  observe=["grapheme_next_sentence_break"])

p("C07", "Line break opportunities follow UAX #14 with the example-7 number tailoring",
  "Repeatedly asking for the next line break finds in every code point array exactly the break opportunities of UAX #14 (Unicode 15.0), with class resolution per LB1 and numbers handled by the regular-expression tailoring of LB13/LB25 (UAX #14, example 7), including combining marks, space runs, regional indicators and numeric expressions of any length.",
  ["inputs"], "every sequence of code points, of any length; every code point for its resolved class",
  "LineBreakTest.txt samples 7654 mostly two- and three-class strings with one representative per class; four-class contexts, combining marks between the parts of a rule, long numeric expressions and the class of every code point are not reached",
  ["src/line.c", "gen/line.c", "gen/util.c"], [("rule cascade with retained classes", "src/line.c: next_line_break"), ("LB25 level", "src/line.c: lb25_level"), ("class resolution LB1", "gen/line.c: handle_conflict, post_process")],
  state=[("lb25_level, lb21a_flag, ri_even, last_non_*", "left context of the candidate break", "src/line.c")],
  observe=["grapheme_next_line_break"])

p("C08", "Break iteration makes progress, tiles the text and can restart at any break",
  "For non-empty input every next-break function (grapheme, word, sentence, line; code point and UTF-8) returns an offset between 1 and the length, so iterating it tiles the text; the only exception is UTF-8 input whose remainder is a single truncated sequence, for which 0 is returned, and empty or NULL input, for which 0 is returned. UTF-8 offsets never fall inside a well-formed sequence. Cutting the text right behind a reported break, or restarting the iteration at it, changes no break (a cut through UTF-8 that turns an ill-formed sequence into a truncated one excepted).",
  ["inputs", "histories"], "every text, every starting break, every encoding, every ill-formed or truncated tail",
  "The tests only iterate over well-formed conformance strings from offset 0",
  ["src/character.c", "src/word.c", "src/sentence.c", "src/line.c", "src/util.c"], [("reader advance and end-of-buffer handling", "src/util.c: herodotus_read_codepoint")],
  observe=["grapheme_next_*_break, grapheme_next_*_break_utf8"])

p("C09", "UTF-8 functions behave as the code point functions on the decoded text",
  "For every byte string (well-formed or not) each UTF-8 segmentation, case-conversion and case-detection function gives the result that the code point function gives on the sequence of code points obtained by decoding those bytes (ill-formed sequences as U+FFFD, a truncated sequence at the very end left out), with offsets converted to bytes and output re-encoded.",
  ["inputs"], "every byte string up to the bound over an alphabet with every UTF-8 length, every ill-formedness and every property class; every code point",
  "Conformance tests run on code points only for most functions and no test relates both variants on ill-formed input",
  ["src/util.c", "src/utf8.c", "src/case.c", "src/character.c", "src/word.c", "src/sentence.c", "src/line.c"], [("type-generic reader and writer", "src/util.c: herodotus_read_codepoint, herodotus_write_codepoint")],
  observe=["all *_utf8 functions"])

p("C10", "NUL-terminated input equals length-delimited input up to the NUL",
  "Calling any segmentation, case-conversion, case-detection or bidirectional paragraph function with the length SIZE_MAX on a NUL-terminated text gives exactly the results of calling it with the explicit length up to the first NUL. Nothing behind the NUL is read or influences the result, a UTF-8 sequence that the NUL cuts short counts as ill-formed, and with an explicit length NUL is an ordinary character.",
  ["inputs"], "every text up to the bound, NUL at every position including inside an announced multi-byte sequence, every function",
  "Only a handful of NUL-terminated unit tests exist per function, none with bytes behind the NUL or with words ending at it",
  ["src/util.c", "src/case.c"], [("terminated_by_null", "src/util.c: herodotus_read_codepoint"), ("word-wise soft limits", "src/case.c: herodotus_next_word_break, to_titlecase")],
  observe=["all functions taking a length"])

p("C11", "Upper- and lowercase conversion apply the full Unicode mapping everywhere",
  "Converting any text to upper or lower case replaces every code point by its full Unicode 15.0 mapping (UnicodeData and the unconditional SpecialCasing entries), one-to-many expansions included, leaves every other 32-bit value unchanged, and apart from the capital-sigma rule the mapping of a code point does not depend on its surroundings.",
  ["inputs"], "all code points and out-of-range values, in every context up to the bound",
  "test/case.c checks about forty strings; 2800 mapped code points and 100 special mappings are untested",
  ["src/case.c", "gen/case.c", "gen/util.c"], [("offset tables with special-case indirection", "src/case.c: get_case_offset, to_case"), ("table generation", "gen/case.c")],
  observe=["grapheme_to_uppercase, grapheme_to_lowercase"])

p("C12", "Capital sigma becomes final sigma exactly in the Final_Sigma context",
  "In lower-case conversion U+03A3 becomes U+03C2 exactly when a cased letter precedes it with only case-ignorable characters between, and no cased letter follows it with only case-ignorable characters between, and U+03C3 otherwise, at any distance and at every occurrence in the text.",
  ["inputs"], "every sequence over cased, case-ignorable, both, neither and sigma, of any length",
  "test/case.c has a handful of sigma strings; resuming a cased/ignorable run after a previous one, and long ignorable runs are not reached",
  ["src/case.c", "gen/case.c"], [("final_sigma_level automaton and look-ahead", "src/case.c: to_case")],
  state=[("final_sigma_level", "cased case-ignorable* to the left", "src/case.c: to_case")],
  observe=["grapheme_to_lowercase"])

p("C13", "Titlecase conversion maps the first cased letter of every word",
  "Titlecasing any text leaves, in each UAX #29 word, everything before the first cased character unchanged, replaces that character by its full titlecase mapping, and lowercases the rest of the word with the full mapping and the capital-sigma rule, for every text, number of words and code point.",
  ["inputs"], "every text up to the bound over word-break and case classes, every code point",
  "test/case.c has about twenty titlecase strings; interaction of word breaking, limits and special mappings is combinatorial",
  ["src/case.c", "src/word.c", "src/util.c"], [("soft limits pushed per word and per first letter", "src/case.c: to_titlecase; src/util.c: herodotus_reader_push_advance_limit")],
  state=[("soft_limit stack", "reader limits", "src/util.h")],
  observe=["grapheme_to_titlecase"])

p("C14", "Case detection agrees with case conversion",
  "For every text the lower-, upper- and titlecase tests answer true exactly when the corresponding conversion leaves the code points unchanged, and the reported length is that of the text if so and otherwise the offset of the first code point that the conversion changes.",
  ["inputs"], "every text up to the bound over case and word classes, every code point, both encodings, with and without a length output",
  "test/case.c samples; the equivalence is over all texts",
  ["src/case.c"], [("is_case, is_titlecase", "src/case.c")],
  observe=["grapheme_is_{lower,upper,title}case and their caselen output"])

p("C15", "Case conversion reports the full length and truncates safely",
  "The value returned by a case conversion is the length of the complete result, whatever the destination's size, a NULL destination included. If the destination has room the result is complete and followed by a NUL; otherwise it holds a prefix of the complete result made of whole characters and is still NUL-terminated, and nothing is written outside the destination's size.",
  ["inputs"], "every text up to the bound x every destination size from 0 to beyond the result's length x both encodings",
  "Unit tests use a handful of destination sizes; off-by-one and multi-byte cuts need every size at every character",
  ["src/util.c", "src/case.c"], [("writer that counts past the end", "src/util.c: herodotus_write_codepoint, herodotus_writer_nul_terminate")],
  state=[("first_unwritable_offset", "where truncation began", "src/util.h")],
  observe=["grapheme_to_*case(_utf8) return value and destination"])

p("C16", "No function touches memory outside the buffers it is given",
  "For every input, length and output size the UTF-8, segmentation and case functions read only the given number of units (or up to and including the NUL) of their input, write only within the given output, never modify the input, and perform no operation with undefined behaviour.",
  ["inputs"], "every input up to the bound, exact-size buffers against inaccessible pages on both sides, sanitised build",
  "Tests run on roomy static arrays without sanitiser and cannot see a stray access",
  ["src/util.c", "src/utf8.c", "src/case.c", "src/character.c", "src/word.c", "src/sentence.c", "src/line.c"], [("length checks in the reader and writer", "src/util.c")],
  observe=["memory accesses"])

p("C17", "Bidirectional paragraphs are split and given their direction by P1-P3",
  "Preprocessing consumes exactly the text up to and including the first paragraph separator (or all of it) and returns that length; the resolved direction is the caller's override or else that of the first strong character of this paragraph outside any isolate, at any isolate nesting depth and distance, and left-to-right if there is none. Later paragraphs never influence it.",
  ["inputs"], "every class sequence up to the bound, isolates nested beyond 125, every override, every code point",
  "BidiTest.txt never has strong text behind a separator nor more than a few nested isolates",
  ["src/bidirectional.c", "gen/bidirectional.c"], [("paragraph scan", "src/bidirectional.c: preprocess, get_paragraph_level")],
  observe=["grapheme_bidirectional_preprocess_paragraph return value, *resolved"])

p("C18", "Embedding levels are those of UAX #9 for every paragraph",
  "After preprocessing, the embedding level reported for every character of a paragraph is the one UAX #9 (Unicode 15.0) assigns (explicit formatting, isolates, weak, neutral and implicit rules), and the characters that rule X9 removes are reported as ignored, for every sequence of bidi classes and every code point.",
  ["inputs"], "every class sequence up to the bound x overrides; deep and pumped sequences; every code point for its class",
  "BidiTest.txt covers four-class sequences with 512-entry buffers and BidiCharacterTest samples; longer contexts, combinations of overrides with isolates and the class of every code point are not reached",
  ["src/bidirectional.c", "gen/bidirectional.c"], [("explicit levels", "src/bidirectional.c: preprocess_paragraph"), ("isolating run traversal", "src/bidirectional.c: ir_advance"), ("W/N rules", "src/bidirectional.c: preprocess_isolating_run_sequence")],
  state=[("packed per-character state", "class, preserved class, bracket, level, visited", "src/bidirectional.c: state_lut")],
  observe=["grapheme_bidirectional_get_line_embedding_levels"])

p("C19", "Paired brackets are identified and resolved by BD16/N0 for every text",
  "Bracket pairs are those of BD16: canonical equivalents and only those match each other, nesting and isolates are respected, at most 63 unclosed brackets are tracked, and the number of bracket pairs is unlimited. Each pair and the non-spacing marks that follow it receive the direction rule N0 gives.",
  ["inputs"], "every bracket/strong/neutral sequence up to the bound; nesting and pending-pair counts beyond 63; every pair of bracket code points",
  "BidiCharacterTest.txt has no text with more than 63 pending brackets or with compatibility brackets",
  ["src/bidirectional.c", "gen/bidirectional.c"], [("63-entry FIFO", "src/bidirectional.c: preprocess_bracket_pairs"), ("bracket classes", "gen/bidirectional.c: bracket_callback")],
  state=[("fifo", "pending bracket openings in text order", "src/bidirectional.c")],
  observe=["grapheme_bidirectional_get_line_embedding_levels"])

p("C20", "Explicit embedding overflows are handled as UAX #9 prescribes",
  "Embeddings, overrides and isolates nested beyond level 125 are counted and unwound exactly as rules X1-X8 prescribe: what lies inside an overflow keeps the innermost valid level, matching terminators close exactly their own initiator, and all later text gets its correct level.",
  ["inputs", "histories"], "every sequence of pushes and pops of each kind to a depth bound, started from every nesting depth around the limit",
  "No conformance string nests deeply enough to reach all overflow counters",
  ["src/bidirectional.c"], [("directional status stack and overflow counters", "src/bidirectional.c: preprocess_paragraph")],
  state=[("directional_status, overflow_isolate_count, overflow_embedding_count, valid_isolate_count", "X1 state", "src/bidirectional.c")],
  observe=["grapheme_bidirectional_get_line_embedding_levels"])

p("C21", "Every line slice gets its L1 levels and L2 visual order",
  "For every division of a preprocessed paragraph into lines, each line's trailing whitespace and isolate formatting gets the paragraph level, and reordering a line outputs exactly its non-removed characters in the visual order of rule L2, returning their number, whichever other lines were processed before.",
  ["inputs", "histories"], "every class sequence up to the bound x every sub-range as a line x every override",
  "Tests only ever treat the whole paragraph as one line",
  ["src/bidirectional.c"], [("line-end whitespace run", "src/bidirectional.c: get_line_embedding_levels"), ("level-wise inversion", "src/bidirectional.c: grapheme_bidirectional_reorder_line")],
  observe=["grapheme_bidirectional_get_line_embedding_levels, grapheme_bidirectional_reorder_line"])

p("C22", "Reordered characters are mirrored per the Unicode mirroring data",
  "In the visual output a character with an odd resolved level is replaced by its mirror glyph per BidiMirroring.txt, and every other character, in particular every character at an even level and every character without a mirror entry, appears unchanged.",
  ["inputs"], "all code points at even and odd levels",
  "The reordering tests never use mirrored characters against an independent table",
  ["src/bidirectional.c", "gen/bidirectional.c"], [("mirror offset table", "src/bidirectional.c: get_mirror_offset")],
  observe=["grapheme_bidirectional_reorder_line output"])

p("C23", "Bidirectional functions respect every buffer size and report the size needed",
  "The bidirectional functions accept any destination size (a NULL or zero-sized one included), always return the size a complete result needs, never read or write outside the given buffers, and fill what fits without undefined behaviour; with too small a reorder buffer the output consists of replacement characters only.",
  ["inputs"], "every class sequence up to the bound x every destination size 0..len+1 for each of the three functions; exact-size buffers against inaccessible pages",
  "test/bidirectional.c always passes 512-entry buffers",
  ["src/bidirectional.c"], [("truncation handling", "src/bidirectional.c: preprocess, get_line_embedding_levels, grapheme_bidirectional_reorder_line")],
  observe=["return values, buffers, memory accesses"])

p("C24", "Results depend on the arguments alone, whatever was called before",
  "Every function is a pure function of its arguments: the result of a call is the same whichever calls came before it in the process, whatever its output buffer contained and wherever its buffers lie, inputs are never modified, and the library keeps no hidden state and allocates no memory.",
  ["histories"], "every sequence of public calls up to the depth bound over an alphabet covering each function and its shortcuts",
  "Each unit test calls one function in a fixed order and cannot see state carried between calls",
  ["src/util.c", "src/bidirectional.c", "src/case.c", "src/character.c", "src/word.c", "src/sentence.c", "src/line.c", "src/utf8.c"], [("stack-only state", "all of src/")],
  observe=["results of call sequences, writable static memory of the library"])

p("C25", "Concurrent calls on separate buffers behave as if run alone",
  "Any two or more threads may call any of the functions at the same time on separate output buffers (inputs may be shared) and each call returns the result it returns when run alone, under every interleaving and without data races.",
  ["schedules"], "every interleaving of the memory accesses of two calls up to the preemption bound, for every pair of functions",
  "The test programs are single-threaded",
  ["src/bidirectional.c", "src/util.c", "src/case.c", "src/character.c", "src/word.c", "src/sentence.c", "src/line.c", "src/utf8.c"], [("no writable static data", "all of src/ (state_lut in src/bidirectional.c is static, writable and never written)")],
  observe=["results per thread, conflicting accesses"])

p("C26", "Unassigned and out-of-range code points are treated as ordinary characters",
  "Every 32-bit value is accepted as a code point by every function: values above U+10FFFF behave as an unremarkable character (no grapheme, word or sentence property, alphabetic for line breaking, left-to-right, uncased, shown as U+FFFD in visual output) and unassigned code points get the default properties the Unicode data files prescribe.",
  ["inputs"], "all unassigned code points and all 32-bit values at power-of-two and table boundaries, in every distinguishing context",
  "No test passes a value above U+10FFFF or an unassigned code point",
  ["src/character.c", "src/word.c", "src/sentence.c", "src/line.c", "src/case.c", "src/bidirectional.c", "gen/line.c", "gen/bidirectional.c"], [("range check before table look-up", "get_*_prop in src/"), ("@missing defaults", "gen/bidirectional.c: fill_missing; gen/line.c")],
  observe=["all functions taking code points"])

p("C27", "The library needs no hosted C runtime",
  "The compiled library refers to no symbol outside itself except what a freestanding implementation has to provide.",
  ["configurations"], "every build configuration",
  "The tests are linked against a hosted C library",
  ["Makefile", "config.mk", "src/util.h"], [("-ffreestanding, no libc includes", "config.mk")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
