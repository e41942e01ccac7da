#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
H = "include/u5e/"
S = "src/u5e/props/"
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
            mechanism=[dict(zip(("name", "where"), m)) for m in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("U01", "Every codepoint is stored as its UTF-8 encoding and reads back",
  "Every codepoint value from 0 to U+10FFFF that the library converts from UTF-32 into UTF-8 text is stored as exactly its "
  "standard shortest UTF-8 octet sequence, and reading that sequence back yields the same codepoint; values above U+10FFFF, up to 31 bits, "
  "use the historical five and six octet forms and also round-trip. Any other value of a UTF-32 unit, which has no encoding, is stored as one complete sequence too, so that the text around it is unharmed. The text already in the destination is left as it was.",
  ["inputs"], "all 2^31 non-negative codepoint values, and every sequence of encoding-length boundary values up to a bound",
  "The only encoding paths the suite exercises write U+00C1, U+0308 and ASCII; 1,114,112 codepoints, and every change of length, are unreached.",
  [H+"utf8_util.hpp", H+"utf8.hpp", H+"utf8_iterator.hpp"],
  [("length of an encoded value", H+"utf8_util.hpp: encoded_size"), ("octet writer", H+"utf8_iterator.hpp: proxyobject::operator="),
   ("conversion loop", H+"utf8.hpp: append_from_utf32ne")],
  observe=["native_string of the destination after append_from_utf32ne", "codepoints read back by the const iterator"])

p("U02", "UTF-8 iteration is an exact bidirectional codepoint cursor",
  "Over any well-formed UTF-8 text, any mix of advancing, stepping back, reading and comparing moves a codepoint iterator exactly as a cursor over the list of "
  "codepoints of the text: each step moves by one whole codepoint, each read gives that codepoint's value without moving the cursor, and two iterators are equal exactly when they stand on the "
  "same codepoint or are both at the end. An iterator placed on an inner octet of a codepoint stands on that codepoint.",
  ["inputs", "histories"], "all texts over an alphabet covering every encoded length up to a bound, all starting octets, all sequences of operations",
  "The suite walks one five-codepoint text in one order; it never mixes directions over 3 or 4 octet codepoints nor starts inside one.",
  [H+"utf8_iterator.hpp", H+"utf8_util.hpp", H+"basic_encodedstring.hpp"],
  [("step forward", H+"utf8_iterator.hpp: forward_one_codepoint"), ("step back", H+"utf8_iterator.hpp: rewind_one_codepoint"),
   ("decode", H+"utf8_iterator.hpp: current_codepoint"), ("equality", H+"utf8_iterator.hpp: operator==")],
  state=[("cursor", "native position inside the text", H+"utf8_iterator.hpp: raw_iterator_")],
  observe=["values read", "equality of iterators", "std::reverse_iterator over the iterators"])

p("U03", "A view is confined to its own text",
  "Iterating, comparing, segmenting, normalizing or appending a well-formed text held in a view gives results that depend only on the text inside the view, "
  "whatever octets or codepoints lie before or after it in memory, and touches no memory outside the view. This includes the empty view.",
  ["inputs", "configurations"], "all well-formed texts up to a bound in every surrounding context, and flush against inaccessible memory on either side",
  "Every test text is a NUL-terminated literal or std::string, so the octet past the end is always 0 and always readable.",
  [H+"utf8_iterator.hpp", H+"utf8.hpp", H+"basic_encodedstring.hpp", H+"basic_grapheme_iterator.hpp"],
  [("equality used to detect the end", H+"utf8_iterator.hpp: operator=="), ("step back from the end", H+"utf8_iterator.hpp: rewind_one_codepoint"),
   ("native range of an append", H+"utf8.hpp: native_const_iterator"), ("grapheme end", H+"basic_grapheme_iterator.hpp: find_start_of_grapheme")],
  observe=["results of each operation", "memory faults"])

p("U04", "The UTF-8 bounds check makes any octet buffer safe to walk",
  "For any octet buffer the bounds check accepts exactly the buffers whose first octet is not a continuation octet and in which no leading octet announces "
  "more octets than remain, and walking an accepted buffer in either direction never leaves it. Enforcing the bounds changes only offending octets, each into '?', reports whether "
  "anything changed, and always leaves a buffer that the check accepts; neither call touches memory outside the buffer.",
  ["inputs"], "all octet strings over one representative of every octet class (and all 256 octets for short strings), up to a bound, including the empty one",
  "The suite tries four buffers; it has none of one octet, none with a multi-octet sequence cut at the very start, none of only continuation octets.",
  [H+"utf8_bounds.hpp", H+"utf8_util.hpp"],
  [("check", H+"utf8_bounds.hpp: check"), ("enforce", H+"utf8_bounds.hpp: enforce"), ("announced size", H+"utf8_util.hpp: codepoint_size")],
  observe=["returned flag", "buffer contents", "memory faults while walking"])

p("U05", "Writing through a UTF-8 iterator writes exactly the encoded text",
  "Assigning codepoints one after another through a mutable UTF-8 iterator into a large enough buffer leaves the concatenation of their encodings at the start of the buffer and the rest of the "
  "buffer unchanged; after each assignment the iterator reads back the codepoint just written and one step forward puts it right after it.",
  ["inputs", "histories"], "all sequences of codepoints of every encoded length up to a bound, over every well-formed prior buffer content up to a bound",
  "One test copies one text of one 2-octet codepoint over a buffer of spaces.",
  [H+"utf8_iterator.hpp", H+"utf8_util.hpp"],
  [("assignment proxy", H+"utf8_iterator.hpp: proxyobject"), ("step over what was written", H+"utf8_iterator.hpp: forward_one_codepoint")],
  observe=["buffer contents", "codepoint read after assignment"])

p("S01", "Building text by copy, assignment and append is exact",
  "Copying or assigning an encoded string gives an equal, independent string. Appending a codepoint or grapheme range from any storage of the same encoding adds exactly the octets of those codepoints "
  "after the existing text (which may be the source itself) and leaves the source and the iterators given unchanged; when the range ends inside a codepoint, that codepoint is left out whole, so truncation at any native offset yields the longest prefix of whole codepoints.",
  ["inputs", "histories"], "all sequences of construct, copy, assign, append and truncate operations up to a bound, on all small texts and all native offsets, over owning and view storage",
  "Only one append of two ASCII ranges is tested; copy assignment, grapheme appends and cross-storage appends are never instantiated.",
  [H+"basic_encodedstring.hpp", H+"utf8.hpp", H+"utf32ne.hpp"],
  [("assignment", H+"basic_encodedstring.hpp: operator="), ("append overloads", H+"basic_encodedstring.hpp: append"),
   ("boundary of a native range", H+"utf8.hpp: native_const_iterator")],
  state=[("native_string", "the owned or viewed storage", H+"basic_encodedstring.hpp")],
  observe=["native_string of every live string after each operation"])

p("S02", "Texts of different encodings cannot be mixed",
  "A program that appends, as is, codepoints or graphemes of one encoding to a text of another encoding, or that wraps storage whose unit does not match the encoding, is rejected at compile time; one that decomposes or filters straight into UTF-8 text is rejected too, or else converts; "
  "and every combination of storages of the same encoding, and every normalization or explicit conversion from UTF-32, is accepted and works.",
  ["programs"], "all programs formed from one operation and every pair of storage types of the library",
  "A unit test cannot contain a program that must not compile, and the suite instantiates a handful of the accepted combinations.",
  [H+"basic_encodedstring.hpp", H+"iterator_assertion.hpp", H+"utf8_iterator.hpp", H+"utf32ne.hpp", H+"utf8.hpp"],
  [("encoding in the type", H+"basic_encodedstring.hpp"), ("unit size assertion", H+"iterator_assertion.hpp")],
  observe=["verdict of the compiler on each program", "behaviour of the accepted programs"])

p("G01", "Every codepoint has its Unicode 9.0 grapheme break class",
  "For every integer, the grapheme cluster break property returned is the value Unicode 9.0.0 assigns to that codepoint, and the default value for every codepoint not listed and every value outside the codespace.",
  ["inputs"], "all 1,114,112 codepoints and the values around the codespace; all 2^32 values in the deep run",
  "The class is only ever observed through four codepoints; the table has 1,327 ranges.",
  [S+"grapheme_cluster_break.cpp", S+"grapheme_cluster_break_data.hpp"],
  [("range table", S+"grapheme_cluster_break_data.hpp"), ("binary search", S+"grapheme_cluster_break.cpp: resolve")],
  observe=["props::grapheme_cluster_break::resolve"])

p("G02", "Text is split into exactly its Unicode 9.0 grapheme clusters",
  "Iterating the graphemes of any text yields, in order and without gap or overlap, exactly the extended grapheme clusters that UAX #29 for Unicode 9.0 defines for it "
  "(regional indicators in pairs, emoji modifiers after their base, Hangul syllables whole), then stops.",
  ["inputs"], "all sequences over representatives of every break class up to a bound, in every encoding and storage, plus long runs",
  "Two texts are segmented, both 'Ola' plus one accent; 16 of 18 break classes and nearly all ordered pairs of them are unreached.",
  [H+"basic_grapheme_iterator.hpp", H+"basic_grapheme.hpp", S+"grapheme_cluster_break.cpp"],
  [("pair rules", H+"basic_grapheme_iterator.hpp: is_grapheme_boundary"), ("cluster end", H+"basic_grapheme_iterator.hpp: find_end_of_grapheme"),
   ("end detection", H+"basic_grapheme_iterator.hpp: operator==")],
  state=[("begin_/end_/where_/end_of_grapheme_", "text bounds and current cluster", H+"basic_grapheme_iterator.hpp")],
  observe=["codepoints of each grapheme", "number of graphemes"])

p("G03", "A grapheme can be found from any position and used to truncate",
  "A grapheme iterator created at any position of a text, including inside a codepoint or a cluster and at the end, denotes the cluster that contains that position (or the end), and advances from there as an iterator "
  "that came from the start does. Appending from the start up to it therefore yields the longest prefix of whole graphemes that ends at or before the position.",
  ["inputs"], "all sequences over representatives of every break class up to a bound, every native offset in each",
  "No test constructs a grapheme iterator anywhere but at the start or the end.",
  [H+"basic_grapheme_iterator.hpp", H+"basic_encodedstring.hpp"],
  [("search for the start of a cluster", H+"basic_grapheme_iterator.hpp: find_start_of_grapheme"), ("grapheme append", H+"basic_encodedstring.hpp: append")],
  observe=["bounds of the grapheme denoted", "comparison with iterators that came from the start", "truncated text"])

p("D01", "Every codepoint has its canonical combining class",
  "For every integer, the canonical combining class returned is the one Unicode 9.0.0 assigns, 0 for everything unlisted or outside the codespace; and the combining order comparison orders any two codepoints exactly as those classes do.",
  ["inputs"], "all 1,114,112 codepoints and values around the codespace, all pairs of codepoints of different classes by representative; all 2^32 values in the deep run",
  "Six codepoints of 813 table rows are looked up.",
  [S+"canonical_combining_class.cpp", S+"canonical_combining_class_data.hpp", H+"canonical_combining_order.hpp"],
  [("table", S+"canonical_combining_class_data.hpp"), ("search", S+"canonical_combining_class.cpp: resolve"), ("order", H+"canonical_combining_order.hpp")],
  observe=["props::canonical_combining_class::resolve", "canonical_combining_order"])

p("D02", "Decomposing a codepoint appends its full decomposition",
  "Canonically decomposing any codepoint appends exactly its full canonical decomposition under Unicode 9.0.0, Hangul syllables included, after whatever the output held, and compatibility decomposition does the same with its full compatibility decomposition; "
  "a codepoint without decomposition is appended as itself. The number returned is the number of codepoints appended.",
  ["inputs"], "all 1,114,112 codepoints in both modes, and values outside the codespace",
  "Five codepoints of about 16,800 that decompose are looked up.",
  [H+"codepoint_decomposition.hpp", H+"canonical_decomposition.hpp", H+"compatibility_and_canonical_decomposition.hpp",
   S+"canonical_decomposition_mapping.cpp", S+"canonical_decomposition_mapping_data.hpp",
   S+"compatibility_and_canonical_decomposition_mapping.cpp", S+"compatibility_and_canonical_decomposition_mapping_data.hpp"],
  [("append of the mapping", H+"codepoint_decomposition.hpp"), ("tables", S+"*_decomposition_mapping_data.hpp"), ("search", S+"*_decomposition_mapping.cpp: resolve")],
  observe=["output of canonical_decomposition and compatibility_and_canonical_decomposition", "count returned"])

p("D03", "Two codepoints compose exactly when Unicode says so",
  "For any two codepoints the composition lookup reports a composition exactly when Unicode 9.0.0 defines a primary composite for the pair (composition exclusions respected, Hangul syllables included), and then gives that composite; otherwise it reports none and leaves the result untouched.",
  ["inputs"], "all pairs (first, second) where first is any codepoint and second any of the codepoints that can combine or a neighbour of one; pairs outside that set by boundary representatives",
  "Three pairs are looked up of 939 table rows, 11,172 Hangul pairs, and the roughly 10^12 pairs that must not compose.",
  [S+"canonical_composition_mapping.cpp", S+"canonical_composition_mapping_data.hpp"],
  [("table", S+"canonical_composition_mapping_data.hpp"), ("two key search", S+"canonical_composition_mapping.cpp")],
  observe=["props::canonical_composition_mapping::resolve"])

for i, (f, name, extra) in enumerate([
    ("D", "Normalization Form D", "normalization_form_d.hpp"), ("C", "Normalization Form C", "normalization_form_c.hpp"),
    ("KD", "Normalization Form KD", "normalization_form_kd.hpp"), ("KC", "Normalization Form KC", "normalization_form_kc.hpp")]):
    comp = [("composition", H+"canonical_composition.hpp")] if "C" in f else []
    p("N0%d" % (i+1), "Text is normalized to Unicode %s" % name,
      "Normalizing any text, grapheme by grapheme, to form %s produces exactly the codepoint sequence that Unicode 9.0.0 (UAX #15) defines as the NF%s of the whole text, appended to the output. "
      "The number returned is the number of codepoints appended." % (f, f),
      ["inputs"], "every single codepoint, every pair of a decomposable or composing codepoint with every combining codepoint, and all sequences up to a bound over representatives of every normalization behaviour",
      "Each form is tested on one to three texts of at most four codepoints; reordering across classes, blocking, non-adjacent composition and Hangul are never exercised.",
      [H+extra, H+"filter.hpp", H+"canonical_combining_order.hpp", H+"codepoint_decomposition.hpp"] + ([H+"canonical_composition.hpp"] if comp else []),
      [("pipeline", H+extra), ("ordering of marks", H+"canonical_combining_order.hpp")] + comp,
      observe=["output text", "count returned"])

p("N05", "Combining marks of equal class are never reordered, however many",
  "However many codepoints a grapheme holds, normalization to any form keeps marks of equal combining class in their original order, never moves a mark across a codepoint of class 0, and loses or duplicates none.",
  ["inputs"], "runs of marks of every length up to a bound well past any internal threshold, with every placement of a bounded number of deviating marks",
  "No test text has more than two marks; sorting thresholds only show beyond 16.",
  [H+"normalization_form_d.hpp", H+"normalization_form_c.hpp", H+"normalization_form_kd.hpp", H+"normalization_form_kc.hpp", H+"canonical_combining_order.hpp"],
  [("ordering of marks", H+"canonical_combining_order.hpp")],
  observe=["output text for long graphemes"])

p("N06", "Normal forms are stable and equivalent texts normalize alike",
  "Normalizing an already normalized text to the same form changes nothing, going through form D or C first never changes the result of any form, and going through KD or KC first never changes KD or KC. "
  "Two texts that differ only by canonical equivalence (a replaced composed codepoint, reordered marks of different class) have the same forms D, C, KD and KC.",
  ["inputs", "histories"], "all chains of two normalizations, and all elementary canonical rewrites, of all texts up to a bound; no reference tables involved for the chains",
  "No test feeds the output of one normalization to another.",
  [H+"normalization_form_d.hpp", H+"normalization_form_c.hpp", H+"normalization_form_kd.hpp", H+"normalization_form_kc.hpp"],
  [("pipelines", H+"normalization_form_*.hpp"), ("composition", H+"canonical_composition.hpp")],
  observe=["outputs of chained normalizations"])

p("N07", "Results do not depend on encoding or storage, and input is kept",
  "The same text held as UTF-8 or UTF-32, in an owning string or a view, and in any standard string type with the right unit (char32_t, wchar_t, another allocator), has the same codepoints, the same graphemes and the same normal forms with the same counts, into an output of either encoding. "
  "Normalizing only appends to its output and never modifies its input.",
  ["inputs", "configurations"], "all texts up to a bound in all combinations of input storage, output encoding and form, with empty and non-empty outputs",
  "Each test uses a single storage; no test compares two, none has a non-empty output.",
  [H+"basic_encodedstring.hpp", H+"utf8.hpp", H+"utf32ne.hpp", H+"normalization_form_*.hpp"],
  [("pluggable encodings", H+"utf8.hpp, "+H+"utf32ne.hpp"), ("output conversion", H+"basic_encodedstring.hpp: append_from_utf32ne")],
  observe=["outputs and counts across configurations"])

p("F01", "Filtering visits every element once, in order, and sums the results",
  "Filtering a range calls the operation exactly once for each element, in order, with that element and the caller's own output object, touches nothing outside the range, and returns the sum of what the operation returned; "
  "the operation may be anything that can be called, also if it keeps state or cannot be copied; an empty range calls nothing and returns 0, and an error thrown by the operation stops the filter there and reaches the caller.",
  ["inputs", "histories"], "all ranges up to a bound over plain, codepoint and grapheme iterators, with all return-value patterns and a throw at every position",
  "One four-grapheme range is filtered, with an operation that always returns 1.",
  [H+"filter.hpp"], [("loop", H+"filter.hpp: filter")], observe=["sequence of calls", "returned sum"])

p("H01", "Results do not depend on what was called before",
  "Every lookup, iteration and normalization gives the same result whatever calls were made before it, on the same or other objects, in any order.",
  ["histories"], "all ordered pairs of lookups over the codepoints at every table row boundary, and all sequences of library operations up to a bound",
  "Each test makes a handful of calls in one fixed order in a fresh process.",
  [S+"*.cpp", H+"*.hpp"], [("read-only tables, no caches", S+"*.cpp"), ("locals only", H+"normalization_form_*.hpp")],
  observe=["results of each call in a sequence"])

p("T01", "Independent use from several threads is safe",
  "Threads that iterate, look up and normalize at the same time, each with its own iterators and outputs, even over the same input text, obtain the results they obtain alone, under every interleaving.",
  ["schedules"], "all interleavings, up to a preemption bound, of two and three threads running library operations",
  "No test starts a second thread.",
  [S+"*.cpp", H+"*.hpp"], [("immutable shared tables", S+"*.cpp"), ("no hidden mutable state", H+"*.hpp")],
  observe=["results per thread under each schedule", "conflicting accesses to shared memory"])

p("I01", "The library works during program start-up and shutdown",
  "Lookups, segmentation and normalization give correct results when called from constructors and destructors of static objects of any other part of the program, whatever the order in which the parts are linked.",
  ["configurations", "histories"], "all orders of the client relative to each library object file in the link, at start-up and at shutdown",
  "Tests only run inside main().",
  [S+"*.cpp"], [("constant-initialized tables", S+"*.cpp: data, ranges")], observe=["results in static constructors and destructors"])

p("A01", "Running out of memory is reported and corrupts nothing",
  "If any memory allocation fails while text is appended, decomposed or normalized, then either the call still completes with the correct result or the failure reaches the caller as std::bad_alloc; nothing leaks, the input is unchanged, and after a failure the output still begins with its previous "
  "content followed by at most a prefix, in whole codepoints, of the correct result; repeating the call on a fresh output then succeeds.",
  ["fault_sequences"], "every operation of a small alphabet with a failure injected at each allocation it makes, and at each pair of them",
  "No test injects a failure.",
  [H+"codepoint_decomposition.hpp", H+"normalization_form_*.hpp", H+"basic_encodedstring.hpp", H+"utf8.hpp"],
  [("owning containers only", H+"normalization_form_*.hpp: decomposed")], observe=["exception", "output and input after the failure", "live allocations"])

p("U06", "Malformed UTF-8 that passes the bounds check can still be processed",
  "Every operation on an octet buffer that the bounds check accepts, however malformed it is otherwise (too many or too few continuation octets, overlong or impossible sequences), comes to an end and stays inside the buffer, leaving it unchanged: "
  "walking in either direction from any octet reaches the end or the beginning in no more steps than there are octets, reading is repeatable and moves nothing, comparing two positions is symmetric, "
  "segmentation and finding a grapheme from any octet give no more graphemes than there are octets and can be normalized into all four forms, and appending the part before any position appends a beginning of the buffer (all of it for the end).",
  ["inputs"], "all octet strings over representatives of every octet class up to a bound, all strings over fewer classes up to a longer one, all strings of 2 (3) octets, and every starting octet in them",
  "Every text of the suite that is iterated is well-formed.",
  [H+"utf8_iterator.hpp", H+"utf8_util.hpp", H+"utf8.hpp", H+"basic_grapheme_iterator.hpp", H+"utf8_bounds.hpp"],
  [("step forward", H+"utf8_iterator.hpp: forward_one_codepoint"), ("step back", H+"utf8_iterator.hpp: rewind_one_codepoint"), ("read", H+"utf8_iterator.hpp: current_codepoint"), ("equality", H+"utf8_iterator.hpp: same_codepoint")],
  state=[("cursor", "native position inside the buffer", H+"utf8_iterator.hpp: raw_iterator_")], observe=["number of steps", "values read", "memory faults", "buffer contents"])

p("X01", "Values that stand for no character are carried through unharmed",
  "A text may hold values that are no Unicode characters: surrogates, noncharacters, unassigned codepoints, values above U+10FFFF (in UTF-8 up to 31 bits, in UTF-32 any int, also negative). Each of those outside the Unicode range has grapheme break class Other and combining class 0, "
  "does not decompose and composes with nothing; so it appears in every normal form and in its grapheme unchanged and counted once, and the characters around it are segmented and normalized as around any such character.",
  ["inputs"], "all sequences up to a bound over such values and ordinary codepoints, and every value that equals an ordinary codepoint in its low 8, 16, 20, 21 or 24 bits with one or two higher bits set",
  "No test has a value outside the Unicode range.",
  [S+"*.cpp", H+"codepoint_decomposition.hpp", H+"basic_grapheme_iterator.hpp", H+"normalization_form_*.hpp", H+"utf8_util.hpp"],
  [("lookup keys", S+"*.cpp: resolve"), ("arithmetic decomposition", H+"codepoint_decomposition.hpp"), ("encoding of values above U+10FFFF", H+"utf8_util.hpp: encoded_size")],
  observe=["graphemes", "codepoints and counts of the normal forms"])

p("C01", "Composing a text in place leaves exactly its canonical composition",
  "canonical_composition, applied to any UTF-32 text whose codepoints are in canonical order (also one that is not decomposed, or consists of many graphemes), leaves before the position it returns exactly the text that the UAX #15 composition algorithm gives "
  "(every codepoint composed with the last starter before it unless blocked), and with a counter that starts at zero counts each composition once; it touches nothing outside the text.",
  ["inputs"], "all texts over an alphabet of composing starters, marks, Hangul and excluded codepoints up to a bound, every canonical pair of the database in context, long texts of repeated parts",
  "The suite composes a handful of texts through normalization, each with one composition.",
  [H+"canonical_composition.hpp", S+"canonical_composition_mapping.cpp", S+"canonical_combining_class.cpp"],
  [("in-place pass with a read and a write position", H+"canonical_composition.hpp: canonical_composition")],
  state=[("write position", "never ahead of the read position", H+"canonical_composition.hpp: oi, in"), ("starter", "last starter written", H+"canonical_composition.hpp: starter")],
  observe=["codepoints up to the returned end", "count"])

p("G04", "Grapheme iterators are values with exact comparisons",
  "However grapheme iterators are created (at the begin, the end or any position), copied, assigned, advanced (++i, i++) and read, in any mix, each denotes exactly the cluster it should and no operation on one changes another; "
  "two are equal exactly when they denote the same cluster or are both at the end, one equals a codepoint position exactly when that position lies in its cluster (or both are the end), and a grapheme once read denotes the same codepoints while the iterator moves on.",
  ["inputs", "histories"], "all texts up to a bound over codepoints of the classes that join and separate, in all storages, all sequences of operations on two iterators and a kept grapheme",
  "The suite advances one iterator from the start to the end of three texts.",
  [H+"basic_grapheme_iterator.hpp", H+"basic_grapheme.hpp"],
  [("advance", H+"basic_grapheme_iterator.hpp: operator++, find_end_of_grapheme"), ("comparison", H+"basic_grapheme_iterator.hpp: operator=="), ("grapheme as a pair of positions", H+"basic_grapheme.hpp")],
  state=[("where_, end_of_grapheme_", "the cluster denoted", H+"basic_grapheme_iterator.hpp")],
  observe=["codepoints of the graphemes denoted", "results of all comparisons"])

p("U07", "Editing UTF-8 text in place changes exactly the codepoints written",
  "Over well-formed UTF-8 in writable memory, any mix of steps in both directions, reads, and replacements of the codepoint an iterator stands on by one of the same encoded length edits exactly that codepoint of the text, however often it is written, "
  "whatever the rest of the text, and leaves the iterator on it; the value of an assignment is the codepoint assigned; nothing outside the text is touched.",
  ["inputs", "histories"], "all texts up to a bound over every encoded length, every codepoint to start on, all sequences of operations, in strings, arrays next to inaccessible memory and deques",
  "The suite writes only at the end of a text, each place once.",
  [H+"utf8_iterator.hpp", H+"utf8_util.hpp"],
  [("assignment proxy", H+"utf8_iterator.hpp: proxyobject"), ("steps", H+"utf8_iterator.hpp: forward_one_codepoint, rewind_one_codepoint")],
  observe=["octets of the text after every operation", "codepoint the iterator stands on", "value of an assignment"])

p("I02", "Public headers work alone, in any order, in any number of units",
  "Every public header can be the only one (or the first) a translation unit includes, what it declares can then be used, headers can be included repeatedly and in any order, and any number of translation units that include any of them link into one program that works.",
  ["configurations"], "all public headers alone, all ordered pairs, all headers together; linked programs with every header in two translation units",
  "Each test program consists of one translation unit with a fixed list of headers.",
  [H+"*.hpp", H+"props/*.hpp", S+"*.cpp"],
  [("include guards and includes", H+"*.hpp"), ("inline definitions", H+"*.hpp"), ("definitions of the lookups", S+"*.cpp")],
  observe=["acceptance by g++ and clang++ in C++14 mode", "linking", "results of a use of each header"])

p("U08", "Standard algorithms work on codepoint iterators",
  "Codepoint iterators over UTF-8 and UTF-32 text can be given to the standard library's algorithms, iterator adaptors and container constructors; over any well-formed text these give what they give over the list of its codepoints. Algorithms that write through mutable iterators, replacing codepoints by others of the same encoded length, change exactly those.",
  ["inputs", "configurations"], "all texts and pairs of texts up to a bound over every encoded length, all positions, every algorithm the iterators' category admits, all iterator kinds and native storages",
  "The suite uses the iterators in hand-written loops over a few texts.",
  [H+"utf8_iterator.hpp", H+"utf32ne_string.hpp", H+"basic_encodedstring.hpp", H+"codepoint.hpp"],
  [("iterator operations and traits", H+"utf8_iterator.hpp: utf8_const_iterator, utf8_iterator"), ("codepoint conversions", H+"codepoint.hpp")],
  observe=["values and positions the algorithms give", "text after algorithms that write"])

p("P01", "Builds and surroundings make no difference to results",
  "The library builds as C++14, C++17 and C++20, with g++ and clang++, at any optimization level, with plain char signed or unsigned, with or without NDEBUG and the standard library's own checks, also when library and client are built differently, and gives the same results in each. Nor do results depend on locale, floating-point rounding mode, where the text lies in memory or what fresh memory held before.",
  ["configurations", "inputs"], "all combinations of compiler, language version, optimization level, signedness of char, library checks and environments listed, over all short texts and octet buffers and every codepoint",
  "The suite is built and run in one configuration.",
  [H+"*.hpp", H+"props/*.hpp", S+"*.cpp"],
  [("octet arithmetic", H+"utf8_util.hpp"), ("grapheme and normalization state", H+"basic_grapheme_iterator.hpp"), ("lookups", S+"props/*.cpp")],
  observe=["acceptance by the compilers", "trace of the results of every operation"])

p("E01", "The documented programs print what they document for any text",
  "The example programs of the documentation, built as they are written, print exactly the codepoints, the graphemes or the normal form of each of their arguments, whatever well-formed UTF-8 text the arguments hold and however many there are; the first codepoint is read from a bare character pointer; truncation stops at a codepoint or grapheme boundary. The arguments are left as they were.",
  ["inputs"], "all lists of none, one or two arguments whose texts are all sequences up to a bound over codepoints of every break class and behaviour under normalization; every codepoint as an argument",
  "The suite never runs the example programs; they go through the library's whole range of interfaces as users combine them.",
  [H+"*.hpp", S+"props/*.cpp", "examples/*.cpp"],
  [("iteration over views and bare pointers", H+"utf8_iterator.hpp"), ("graphemes and append", H+"basic_grapheme_iterator.hpp, basic_encodedstring.hpp"), ("filter with a normalization function", H+"filter.hpp, normalization_form_*.hpp")],
  observe=["standard output and exit status of each program"])

p("E02", "Other encodings can be plugged in",
  "A client's own encoding, given to basic_encodedstring as a class with the documented iterator and const_iterator templates over some native storage, whatever its iterators look like inside (several units per codepoint, a position within a unit, a table known at run time), makes texts that can be read in both directions, copied, compared, split into graphemes from any position, filtered, decomposed and normalized (into the library's strings) with exactly the results the same codepoints have in the library's encodings.",
  ["inputs", "programs"], "all texts to a bound in five encodings of the client's own and seven storages; every codepoint; long texts",
  "The suite has no encoding but the library's two, so any dependence on their iterators goes unnoticed.",
  [H+"basic_encodedstring.hpp", H+"basic_grapheme_iterator.hpp", H+"basic_grapheme.hpp", H+"filter.hpp", H+"normalization_form_c.hpp", H+"normalization_form_d.hpp", H+"normalization_form_kc.hpp", H+"normalization_form_kd.hpp"],
  [("encoding parameter", H+"basic_encodedstring.hpp"), ("graphemes over any codepoint iterator", H+"basic_grapheme_iterator.hpp")],
  observe=["codepoints, graphemes, normal forms and counts of texts in the client's encodings"])

p("W01", "Work stays in proportion to the text",
  "On well-formed text, reading, stepping to either side and comparing codepoint positions takes a bounded amount of work wherever it happens and however long the text is; looking up the properties of any codepoint takes a small bounded amount, not a pass over the tables; finding, reading, comparing with the end and leaving a grapheme takes work in proportion to the graphemes around it, not to the text before or after; splitting, filtering, converting, appending and copying a whole text takes work in proportion to its length, and so does normalizing it, but for the sorting of marks (n log n); checking and enforcing the bounds of a buffer looks at a bounded number of octets (apart from continuation octets it begins with).",
  ["inputs"], "every codepoint; all short texts; every place of all short texts within long ordinary ones; long patterns, doubled; buffers of up to 10^5 octets",
  "The suite measures nothing, and a text that is looked at again and again gives the same result as one that is looked at once.",
  [H+"utf8_iterator.hpp", H+"utf8_bounds.hpp", H+"basic_grapheme_iterator.hpp", H+"basic_encodedstring.hpp", H+"canonical_combining_order.hpp", H+"canonical_composition.hpp", H+"filter.hpp", "src/u5e/props/canonical_combining_class.cpp", "src/u5e/props/grapheme_cluster_break.cpp", "src/u5e/props/canonical_composition_mapping.cpp", "src/u5e/props/canonical_decomposition_mapping.cpp"],
  [("rewinding stops at a certain boundary", H+"basic_grapheme_iterator.hpp"), ("runs of marks are sorted by merging", H+"canonical_combining_order.hpp"), ("binary search in the tables", "src/u5e/props/")],
  observe=["basic blocks entered and octets allocated by each operation"])

p("V01", "Codepoints are plain integer values",
  "A codepoint holds any int unchanged through construction, copy and assignment, starts as U+0000, converts to and compares with integers and other codepoints (equality and order, either operand first) exactly as the integers do, and can be used in constant expressions, switches, sorted and associative containers. The version the library reports at run time is that of the headers.",
  ["inputs"], "all 2^32 values (quick: 2^26 around zero and the ends of the range); all pairs of values with up to two bits set, their neighbours and complements, and encoding boundaries",
  "A few values are compared in the suite; the others, and mixed operands, are not.",
  [H+"codepoint.hpp", H+"codepoint_traits.hpp", H+"version.hpp", S+"version.cpp"],
  [("value and conversions", H+"codepoint.hpp"), ("run-time version", S+"version.cpp")],
  observe=["values, comparisons, order in containers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
