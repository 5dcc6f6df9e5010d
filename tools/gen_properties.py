#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements, anchors)."""
import json, os
I = 'include/u5e/'
P = 'src/u5e/props/'
ps = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    ps.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

it8 = I+'utf8_iterator.hpp'; util = I+'utf8_util.hpp'; es = I+'basic_encodedstring.hpp'; gi = I+'basic_grapheme_iterator.hpp'
RAW = ('raw_iterator_', 'native position of the cursor; may rest on any octet of a codepoint', it8)

prop('C01', 'UTF-8 forward iteration yields exactly the encoded codepoints',
 'For every well-formed UTF-8 text (codepoints U+0000..U+10FFFF) held in any supported storage (string, view, raw character pointer), walking from the begin position to the end position yields exactly the codepoints whose encodings make up the text, each once and in order, and then compares equal to the end position. '
 'The prefix form of ++ yields the new position and the postfix form the old one, and neither reading nor moving changes the text.',
 ['inputs', 'histories'], 'all well-formed texts, all storages, const and mutable iterators',
 'Three short literals are walked today; no test covers lead/continuation boundaries of each length, U+0000, the last codepoints of each encoded length, or texts of mixed lengths.',
 [it8, util, I+'utf8.hpp', es],
 [('forward_one_codepoint', it8), ('current_codepoint', it8), ('codepoint_size', util)],
 ['operator*, operator++ of codepoint_begin()/codepoint_cbegin() iterators'], [RAW])

prop('C02', 'Codepoint iterators move both ways like an array index',
 'Over any well-formed UTF-8 text, any sequence of pre/post increments, pre/post decrements, copies and reads on codepoint iterators behaves as the same sequence on an index into the array of codepoints: -- undoes ++, copies move independently, and reads never move the position they observe. '
 'Reverse iteration through the exposed reverse iterator types yields the codepoints in reverse order.',
 ['inputs', 'histories'], 'all well-formed texts and all operation sequences that stay within the text (the octet at the end position being a terminator or the start of another codepoint)',
 'One fixed back-and-forth walk over five octets is tested; operation histories and the reverse iterator types are not.',
 [it8, es], [('rewind_one_codepoint', it8), ('forward_one_codepoint', it8), ('reverse_iterator', es)],
 ['operator++, operator--, operator* and copies of codepoint iterators', 'reverse_iterator/const_reverse_iterator'], [RAW])

prop('C03', 'A position inside a codepoint stands for that codepoint',
 'A codepoint iterator created at any octet of a well-formed UTF-8 text stands for the codepoint that contains this octet: it reads that codepoint, ++ goes to the start of the following codepoint, and -- goes to the start of the preceding one. '
 'Two iterators over the same text compare equal exactly when they stand for the same codepoint (or are both at the end), whichever octet of it each rests on.',
 ['inputs'], 'all well-formed texts, all pairs of octet positions in them (the octet in the end position being no continuation octet)',
 'Only comparisons between codepoint-aligned iterators of one text are tested.',
 [it8], [('rewind_to_start_of_codepoint', it8), ('operator==', it8)],
 ['utf8_const_iterator / utf8_iterator built from an arbitrary native iterator'], [RAW])

prop('C04', 'UTF-32 to UTF-8 conversion is standard and round-trips',
 'Appending any sequence of codepoints U+0000..U+10FFFF to UTF-8 text appends exactly the standard shortest-form UTF-8 encoding of each codepoint in order, after and without touching what was there before. '
 'Iterating over the result therefore yields the original content followed by exactly the appended sequence; appending to UTF-32 text appends the codepoints unchanged.',
 ['inputs'], 'every codepoint and every sequence of codepoints',
 'Tests convert two 2-octet codepoints; the space is 1,114,112 codepoints with a boundary at each encoded length.',
 [I+'utf8.hpp', I+'utf32ne.hpp', it8, util, es],
 [('append_from_utf32ne', I+'utf8.hpp'), ('encoded_size', util), ('proxyobject::operator=', it8)],
 ['basic_encodedstring::append_from_utf32ne, native_string, codepoint iteration over the result'])

prop('C05', 'Writing through a UTF-8 iterator stores exactly that codepoint',
 'Assigning a codepoint through a mutable UTF-8 iterator that stands at the start of a codepoint (or of space to be filled) stores its standard UTF-8 encoding from that octet on and changes no other octet. '
 'Reading the iterator afterwards yields the codepoint, and advancing it leads to the octet right after the encoding, so writing a sequence this way produces the concatenation of the encodings.',
 ['inputs', 'histories'], 'all codepoints, all buffers with enough room, all write/advance sequences',
 'One buffer of five octets and one std::copy of four codepoints are tested.',
 [it8, util], [('proxyobject', it8), ('forward_one_codepoint', it8), ('encoded_size', util)],
 ['utf8_iterator::operator* assignment, ++, and the underlying buffer'], [RAW])

prop('C06', 'The bounds check accepts exactly the texts that cannot overrun',
 'For every octet sequence, the UTF-8 bounds check returns true exactly when the sequence is empty, or its first octet is not a continuation octet and no lead octet in it announces more octets than remain up to the end. '
 'Only octets inside the given range influence the answer, and nothing is modified.',
 ['inputs'], 'all octet sequences (including empty, and sub-ranges of larger buffers whatever follows them)',
 'Four hand-written strings are checked, all NUL-terminated and longer than one codepoint.',
 [I+'utf8_bounds.hpp', util], [('check', I+'utf8_bounds.hpp'), ('codepoint_size', util)],
 ['utf8_bounds::check return value'])

prop('C07', 'Bounds enforcement repairs any slice of a text, and nothing else',
 'For every octet sequence, bounds enforcement replaces by "?" exactly the continuation octets that begin the range and each lead octet announcing more octets than remain together with the continuation octets directly following it, returns true exactly when it replaced nothing, and touches no octet outside the range. '
 'Afterwards the bounds check accepts the range, and if the range was a slice of well-formed UTF-8 it is well-formed with all its complete codepoints unchanged.',
 ['inputs'], 'all octet sequences, all slices of well-formed texts, any surrounding memory',
 'Four strings are tested; a truncated sequence of 2 or 3 octets, a lead octet as the only octet, and sub-ranges are not.',
 [I+'utf8_bounds.hpp', util], [('enforce', I+'utf8_bounds.hpp')],
 ['utf8_bounds::enforce return value and the buffer'])

prop('C08', 'Grapheme iteration partitions the text',
 'For every text, walking the graphemes from begin to end yields consecutive non-empty graphemes whose codepoints, concatenated, are exactly the codepoints of the text in order, and terminates exactly at the end of the text; an empty text has no graphemes. '
 'This holds for prefix and postfix ++ and for copies of iterators, whatever memory follows the text.',
 ['inputs', 'histories'], 'all codepoint sequences in UTF-8 and UTF-32, strings and views (including views into larger buffers)',
 'Two five-codepoint literals are walked.',
 [gi, I+'basic_grapheme.hpp', es], [('find_end_of_grapheme', gi), ('operator++', gi), ('grapheme_begin/grapheme_end', es)],
 ['grapheme_begin()/grapheme_end(), operator*, operator++, codepoint_begin()/codepoint_end() of the grapheme'],
 [('where_ / end_of_grapheme_', 'current grapheme as a pair of codepoint positions', gi)])

prop('C09', 'Grapheme boundaries follow the documented pairwise Unicode rules',
 'Between two adjacent codepoints of a text there is a grapheme boundary exactly when the Unicode 9.0 extended grapheme cluster rules GB3 to GB999, applied to the Grapheme_Cluster_Break values of just these two codepoints, put one there, with the two documented readings of the library: two regional indicators never separate, and an Extend never separates from a following E_Modifier. '
 'No other context (length, position, earlier codepoints) influences it.',
 ['inputs'], 'all pairs of codepoints (all pairs of property values) at any place in any text',
 'Three property values out of 18 occur in the tests.',
 [gi, I+'props/grapheme_cluster_break.hpp'], [('is_grapheme_boundary', gi), ('find_end_of_grapheme', gi)],
 ['where graphemes produced by the grapheme iterator start and end'])

prop('C10', 'Graphemes and normalization do not depend on encoding or storage',
 'The same codepoint sequence held as UTF-8 or as UTF-32, as an owning string or as a view (of the whole buffer or of a codepoint-aligned part of a larger one), has the same graphemes, the same codepoint sequence and the same normalization forms. '
 'Input and output of a normalization may use different storages and encodings without changing the resulting codepoints or the returned count.',
 ['inputs', 'configurations'], 'all codepoint sequences, all combinations of the four string types as input and the owning ones as output',
 'Each test uses one storage; no test compares two, and none uses a view of part of a buffer.',
 [es, I+'utf8.hpp', I+'utf32ne.hpp', gi, I+'normalization_form_c.hpp', I+'normalization_form_kd.hpp'],
 [('basic_encodedstring', es), ('append_from_utf32ne', I+'utf8.hpp')],
 ['grapheme spans and normalized output for each combination'])

prop('C11', 'A grapheme iterator placed anywhere finds the grapheme around it',
 'A grapheme iterator created at any position of a text (including in the middle of a codepoint, at the beginning and at the end) denotes exactly the grapheme that contains this position in the forward segmentation of the text, and ++ continues with the next one. '
 'Created at the end it is the end iterator.',
 ['inputs'], 'all texts, all positions, both encodings',
 'The only use (an example program) starts in a two-codepoint grapheme; no test seeks.',
 [gi], [('find_start_of_grapheme', gi), ('basic_grapheme_iterator(b, e, w)', gi)],
 ['operator*, ++ of basic_grapheme_iterator(begin, end, where)'],
 [('where_ / end_of_grapheme_', 'current grapheme as a pair of codepoint positions', gi)])

prop('C12', 'Grapheme iterator comparison means the same grapheme',
 'Two grapheme iterators over one text compare equal exactly when they denote the same grapheme or are both at the end. '
 'A grapheme iterator compares equal to a codepoint position exactly when this position lies inside its grapheme (or both are at the end), and != is always the negation.',
 ['inputs', 'histories'], 'all texts, all pairs of grapheme positions, all codepoint positions',
 'Only the end comparison after a full walk is tested.',
 [gi], [('operator== / operator!=', gi)], ['operator==, operator!= of basic_grapheme_iterator'])

prop('C13', 'Appending a codepoint range copies whole codepoints, byte for byte',
 'Appending a range given by two codepoint iterators (of the same encoding, from any storage, including the destination itself) appends exactly the native units from the start of the codepoint the first stands for up to the start of the codepoint the second stands for; earlier content and the source are unchanged. '
 'So truncating a well-formed text at an arbitrary octet this way gives the longest well-formed prefix not longer than it.',
 ['inputs', 'histories'], 'all texts, all pairs of positions (aligned or not), all storages; for UTF-8 the octet in the end position, if there is one, is not a continuation octet, so that this position is no place inside a codepoint',
 'No test appends a range of iterators (only example programs do).',
 [es, I+'utf8.hpp', I+'utf32ne.hpp'], [('append', es), ('native_const_iterator', I+'utf8.hpp')],
 ['native_string of the destination'])

prop('C14', 'Appending a grapheme range copies exactly those graphemes',
 'Appending a range given by two grapheme iterators appends, unaltered and in the same encoding, exactly the text from the start of the first grapheme to the start of the second; earlier content and the source are unchanged. '
 'So truncating a text at any position this way never splits a grapheme or alters a codepoint.',
 ['inputs'], 'all texts, all pairs of grapheme positions, both encodings, strings and views; for UTF-8 the octet in the end position, if there is one, is not a continuation octet, so that this position is no place inside a codepoint',
 'Only an example program does it, on ASCII content.',
 [es, gi], [('append(grapheme iterators)', es)], ['native_string of the destination'])

prop('C15', 'Encoded strings are values: copies and assignments are independent',
 'Constructing an encoded string from native text, copying it, moving it, assigning it and exchanging two give objects with exactly the native content of their source, leave a source that is not moved from as it was, and later appends or writes to one owning string never show in another. '
 'Every constructor, assignment and append can be used and chained, and a default constructed string is empty.',
 ['histories'], 'all sequences of construct, copy, move, assign, exchange, append, write operations over several string objects',
 'Tests construct and copy once, never assign or modify afterwards.',
 [es], [('operator=', es), ('basic_encodedstring(const NativeString&)', es)], ['native_string of every object after every step'],
 [('native_string', 'the whole state of the object', es)])

prop('C16', 'The filter applies its function once per element, in order, and sums',
 'Filtering a range calls the function exactly once for every element between the two iterators, in order, handing over that element and the given output object, and returns the sum of the values the function returned; an empty range makes no call and returns 0. It is one function object that is called for all elements, so it may keep state in itself. '
 'The filter itself does not touch the output object, and the input is unchanged.',
 ['inputs', 'histories'], 'all ranges of codepoints or graphemes, all functions (any return value, any number of outputs per element)',
 'One five-codepoint text with a function returning 1 is tested.',
 [I+'filter.hpp'], [('filter', I+'filter.hpp')], ['the sequence of calls seen by the function, the returned sum, the output object'])

prop('C17', 'Grapheme_Cluster_Break lookup equals the Unicode database',
 'For every codepoint the Grapheme_Cluster_Break lookup returns the value the Unicode 9.0 database assigns, and Other for every codepoint the database does not list.',
 ['inputs'], 'every codepoint U+0000..U+10FFFF',
 'No test queries the lookup directly; five codepoints are exercised indirectly.',
 [P+'grapheme_cluster_break.cpp', P+'grapheme_cluster_break_data.hpp', P+'GraphemeBreakProperty.txt'],
 [('resolve (range search)', P+'grapheme_cluster_break.cpp'), ('generated ranges', P+'grapheme_cluster_break_data.hpp')],
 ['props::grapheme_cluster_break::resolve'])

prop('C18', 'Canonical_Combining_Class lookup equals the Unicode database',
 'For every codepoint the Canonical_Combining_Class lookup returns the value the Unicode 9.0 database assigns, and 0 for every codepoint the database does not list.',
 ['inputs'], 'every codepoint U+0000..U+10FFFF',
 'Six codepoints are tested.',
 [P+'canonical_combining_class.cpp', P+'canonical_combining_class_data.hpp', P+'UnicodeData.txt'],
 [('resolve (binary search)', P+'canonical_combining_class.cpp')], ['props::canonical_combining_class::resolve'])

prop('C19', 'Canonical decomposition of every codepoint is full and correct',
 'For every codepoint the canonical decomposition operation appends to the output exactly the full (recursive) canonical decomposition of the Unicode 9.0 database, including the algorithmic decomposition of Hangul syllables, or the codepoint itself if it has none, and returns the number of codepoints appended. '
 'The underlying mapping lookup returns that same decomposition, and none for codepoints that have no listed mapping.',
 ['inputs'], 'every codepoint U+0000..U+10FFFF',
 'Four codepoints are tested.',
 [P+'canonical_decomposition_mapping.cpp', P+'canonical_decomposition_mapping_data.hpp', I+'codepoint_decomposition.hpp', I+'canonical_decomposition.hpp'],
 [('resolve', P+'canonical_decomposition_mapping.cpp'), ('codepoint_decomposition', I+'codepoint_decomposition.hpp')],
 ['canonical_decomposition output and return value', 'props::canonical_decomposition_mapping::resolve'])

prop('C20', 'Compatibility decomposition of every codepoint is full and correct',
 'For every codepoint the compatibility decomposition operation appends to the output exactly the full (recursive) compatibility decomposition of the Unicode 9.0 database, whatever the formatting tag of the mappings, including Hangul syllables, or the codepoint itself if it has none, and returns the number of codepoints appended. '
 'The underlying mapping lookup returns that same decomposition, and none for codepoints that have no listed mapping.',
 ['inputs'], 'every codepoint U+0000..U+10FFFF',
 'Five codepoints are tested, with only one of the 16 formatting tags.',
 [P+'compatibility_and_canonical_decomposition_mapping.cpp', P+'compatibility_and_canonical_decomposition_mapping_data.hpp', P+'compatibility_and_canonical_decomposition_mapping_data.pl', I+'codepoint_decomposition.hpp'],
 [('resolve', P+'compatibility_and_canonical_decomposition_mapping.cpp'), ('codepoint_decomposition', I+'codepoint_decomposition.hpp')],
 ['compatibility_and_canonical_decomposition output and return value', 'props::compatibility_and_canonical_decomposition_mapping::resolve'])

prop('C21', 'Pairwise composition lookup yields exactly the primary composites',
 'For every ordered pair of codepoints the composition lookup succeeds exactly when the pair is the canonical decomposition of a primary composite of Unicode 9.0 (not excluded, not a non-starter decomposition; including Hangul LV and LVT syllables), and then yields that composite; otherwise it reports failure.',
 ['inputs'], 'all ordered pairs of codepoints',
 'Three pairs are tested.',
 [P+'canonical_composition_mapping.cpp', P+'canonical_composition_mapping_data.hpp', P+'CompositionExclusions.txt'],
 [('resolve', P+'canonical_composition_mapping.cpp')], ['props::canonical_composition_mapping::resolve'])

nfwhy = 'One or two short texts are tested; reordering, blocking, long mark sequences, Hangul and most of the database never occur.'
for id, f, n, d, extra in (('C22', 'd', 'NFD', 'canonical', ''), ('C23', 'c', 'NFC', 'canonical', ' and canonical composition'),
                           ('C24', 'kd', 'NFKD', 'compatibility', ''), ('C25', 'kc', 'NFKC', 'compatibility', ' and canonical composition')):
    F = I+'normalization_form_%s.hpp' % f
    prop(id, 'Filtering graphemes through form %s gives Unicode %s of the text' % (f.upper(), n),
     'For every text, filtering its graphemes through normalization form %s appends to the output exactly the Unicode %s of the whole text as defined by the standard: full %s decomposition, stable canonical ordering of each run of combining marks%s. '
     'This holds for texts of any length and for any number of combining marks or joined codepoints in one grapheme.' % (f.upper(), n, d, extra),
     ['inputs'], 'all codepoint sequences', nfwhy,
     [F, I+'canonical_combining_order.hpp', I+('canonical_decomposition.hpp' if d == 'canonical' else 'compatibility_and_canonical_decomposition.hpp')] + ([I+'canonical_composition.hpp'] if 'c' in f else []),
     [('normalization_form_'+f, F)] + ([('canonical_composition', I+'canonical_composition.hpp')] if 'c' in f else []),
     ['output text of u5e::filter over graphemes with normalization_form_'+f])

prop('C26', 'Normalization laws: idempotence, equivalence, agreement of the forms',
 'Normalizing an already normalized text in the same form changes nothing; canonically equivalent texts have identical D forms and identical C forms, and compatibility equivalent ones identical KD forms; the D form of the C form equals the D form, and the C form of the D form equals the C form. '
 'A text of ASCII codepoints is unchanged by all four forms.',
 ['inputs', 'histories'], 'all texts, all chains of normalizations',
 'No test applies two normalizations or compares two equivalent texts.',
 [I+'normalization_form_d.hpp', I+'normalization_form_c.hpp', I+'normalization_form_kd.hpp', I+'normalization_form_kc.hpp', I+'canonical_composition.hpp'],
 [('normalization_form_*', I+'normalization_form_c.hpp'), ('canonical_composition', I+'canonical_composition.hpp')],
 ['outputs of chained normalizations'])

prop('C27', 'Normalization only appends, and counts what it appended',
 'Each normalization form and each decomposition operation only appends to the output (content already there stays, the input is unchanged), and the returned count is exactly the number of codepoints appended, per grapheme and summed over a whole text, in either output encoding.',
 ['inputs', 'histories'], 'all texts, all outputs with earlier content, repeated normalization into one output',
 'Counts of nine texts are tested, always into an empty output.',
 [I+'normalization_form_d.hpp', I+'normalization_form_c.hpp', I+'normalization_form_kd.hpp', I+'normalization_form_kc.hpp', I+'filter.hpp', I+'codepoint_decomposition.hpp', I+'canonical_composition.hpp'],
 [('return count - compositions', I+'normalization_form_c.hpp')], ['return value and output before/after'])

prop('C28', 'Operations touch only the text they are given',
 'On well-formed UTF-8 text (and for the bounds functions on any octets), no operation writes outside the text range it was given or reads outside it, except that codepoint iterators may read the single octet at the end position when they are compared, moved or used from there. On UTF-32 text nothing outside the range is read. '
 'Read-only operations never write.',
 ['inputs', 'histories'], 'all texts, all operations on iterators, graphemes, bounds, appends and normalization, whatever surrounds the text in memory (moving back, appending or comparing from the end position: as long as the octet there is no continuation octet)',
 'Tests use NUL-terminated strings and cannot see stray accesses.',
 [it8, I+'utf8_bounds.hpp', gi, I+'utf8.hpp', es], [('operator==', it8), ('utf8_bounds', I+'utf8_bounds.hpp'), ('basic_grapheme_iterator', gi)],
 ['reads and writes seen by an instrumented native iterator (the library is templated over it) and an address-checked build'])

prop('C29', 'Results depend only on the arguments, in any history and on any thread',
 'Lookups, segmentation and normalization are pure: the same arguments give the same result however many and whichever operations ran before and however early, even while static objects are still being constructed, and when several threads use the library at once on their own objects each of them gets the results it would get alone.',
 ['schedules', 'histories'], 'all interleavings of operations on distinct objects in one or more threads',
 'Each test process makes a handful of calls from one thread.',
 [P+'grapheme_cluster_break.cpp', P+'canonical_combining_class.cpp', P+'canonical_composition_mapping.cpp', P+'canonical_decomposition_mapping.cpp', P+'compatibility_and_canonical_decomposition_mapping.cpp', I+'normalization_form_c.hpp'],
 [('constant tables, no mutable shared state', P+'canonical_combining_class.cpp')], ['results of operations in long histories and concurrent runs'])

prop('C30', 'Text that passed the bounds check is walked without leaving it',
 'Over any octets the bounds check accepts, whatever surrounds them in memory, reading and moving forward from a position before the end reads only these octets and never leads past the end position, moving back from a position behind the first codepoint never leads before the beginning, and the walk forward recognizes the end position. '
 'A slice of well-formed UTF-8 text taken anywhere in a buffer and repaired in place by enforcement is walked, codepoint by codepoint or grapheme by grapheme, exactly as the codepoints it then contains.',
 ['inputs'], 'all octet sequences the bounds check accepts, in any surroundings; all slices of well-formed text',
 'Tests check the answers of the bounds functions on a few texts, never what walking such a text touches; all their texts end with a NUL.',
 [I+'utf8_bounds.hpp', it8, gi], [('operator==', it8), ('forward_one_codepoint', it8), ('utf8_bounds', I+'utf8_bounds.hpp')],
 ['codepoint and grapheme iterators over a part of a buffer', 'reads seen by an instrumented native iterator'])

prop('C31', 'Values outside Unicode, up to 31 bits, pass through unchanged',
 'Any value from U+110000 to 0x7FFFFFFF that is converted or written to UTF-8 is stored in the shortest four to six octets of the same scheme, and is read from there, stepped over in both directions and compared at any of its octets as one codepoint; the bounds check accepts such text. '
 'The property lookups treat every value outside 0 to U+10FFFF as an unassigned codepoint (break value Other, combining class 0, no decomposition, in no composition), and texts with values up to 31 bits segment and normalize accordingly.',
 ['inputs'], 'all values from U+110000 to 0x7FFFFFFF, texts mixing them with codepoints; lookups of any 32 bit integer',
 'Tests use no value above U+10FFFF except one or two literals; nothing else says that data which is not Unicode survives.',
 [it8, util, P+'grapheme_cluster_break.cpp', P+'canonical_combining_class.cpp', I+'utf8_bounds.hpp'],
 [('codepoint_size_utf8', util), ('operator*', it8), ('append_from_utf32ne', es), ('resolve', P+'canonical_combining_class.cpp')],
 ['utf8 iterators, writes and append_from_utf32ne with such values', 'results of the lookups, graphemes and normal forms'])

prop('C32', 'Standard algorithms see a text as the array of its codepoints',
 'Every standard algorithm that needs no more than the iterators offer (bidirectional traversal, equality, reading) gives on any range of a UTF-8 or UTF-32 text the result it gives on the array of its codepoints, directly or through std::reverse_iterator. '
 'An algorithm that writes its results in order through the mutable iterator into fresh memory leaves exactly the encoded results there and nothing else changed.',
 ['inputs'], 'all texts, ranges in them and algorithms of the iterator category',
 'Tests step by hand over short texts; no standard algorithm is ever called, and every one uses the iterators differently (copies, postfix steps, reverse).',
 [it8, es, I+'codepoint_traits.hpp'], [('utf8_iterator_base', it8), ('codepoint_cbegin', es), ('operator--', it8)],
 ['std algorithms called with codepoint iterators and with reverse iterators of them'])

prop('C33', 'The compiler rejects combinations of texts that make no sense',
 'UTF-8 iterators and bounds can only be made over native units of one octet, codepoint ranges and texts of one encoding cannot be compared with, assigned to or appended as they are to those of the other, conversion starts from UTF-32 only, and const iterators, views and graphemes cannot be written through or appended to. '
 'Every combination that does make sense compiles, including normalization from any text type into any owning one.',
 ['programs'], 'all programs combining two text types, or an iterator with a native unit, in one operation of the interface',
 'A test can only contain code that compiles; that wrong code is rejected is never exercised.',
 [it8, es, I+'encoding_assertion.hpp', I+'utf8_util.hpp', gi], [('static_assert', I+'encoding_assertion.hpp'), ('append', es), ('utf8_iterator_base', it8)],
 ['programs over the public interface that must and must not compile'])

prop('C34', 'A codepoint object is interchangeable with the integer it holds',
 'For every 32 bit integer, a codepoint constructed or assigned from it holds and converts back to exactly that integer, copies, chained assignments and swaps move exactly these values and touch no other object, a default constructed one is zero. '
 'Comparing codepoints with codepoints or integers, in any operand order, is comparing the integers.',
 ['histories'], 'all sequences of constructions, assignments, copies and comparisons of codepoint objects over all 32 bit integers',
 'Tests only ever compare iterator results with a few literals; assignments between objects and values outside Unicode are never used.',
 [I+'codepoint.hpp', I+'codepoint_traits.hpp'], [('codepoint', I+'codepoint.hpp'), ('operator==', I+'codepoint.hpp')],
 ['u5e::codepoint objects'])

prop('C35', 'The steps of normalization work on their own and can be combined',
 'Decomposition as a filter operation appends, for any codepoint range of any text type, the full decomposition of each codepoint (or what the resolver given by the user maps it to) and returns how many; canonical_ordering puts any UTF-32 range into canonical order and touches nothing outside; canonical_composition composes ordered text in place, returning its new end and the number of compositions. '
 'Applied to a whole text in this order they yield its normalization form, Hangul across grapheme boundaries included.',
 ['inputs'], 'all texts, ranges in them, contents of the output before, and resolver tables',
 'Tests call the decomposition step on two short texts and the other steps only inside the forms, one grapheme at a time.',
 [I+'codepoint_decomposition.hpp', I+'canonical_decomposition.hpp', I+'compatibility_and_canonical_decomposition.hpp', I+'canonical_combining_order.hpp', I+'canonical_composition.hpp'],
 [('codepoint_decomposition', I+'codepoint_decomposition.hpp'), ('canonical_ordering', I+'canonical_combining_order.hpp'), ('canonical_composition', I+'canonical_composition.hpp')],
 ['u5e::filter with the decomposition functions', 'canonical_ordering and canonical_composition on utf32ne strings'])

prop('C36', 'Truncation and paging lose nothing and split nothing',
 'Truncating a well-formed text to a number of native units with codepoint iterators, with grapheme iterators, or by shortening it until the bounds check accepts it, leaves the longest beginning of at most that size made of whole codepoints (graphemes). '
 'A text cut into pages this way, one after the other from where the last one ended, is the concatenation of its pages, whatever the limits; pages of whole graphemes, normalized one by one, give the normalization form of the whole text (for KC but for the recorded compatibility jamo case).',
 ['histories'], 'all well-formed texts in all storages, all sequences of page limits',
 'The documentation offers truncation as a main use, but only examples (which no test runs) do it, once, at one place.',
 [es, gi, it8, I+'utf8_bounds.hpp'], [('append', es), ('basic_grapheme_iterator', gi), ('check', I+'utf8_bounds.hpp')],
 ['append with codepoint and grapheme ranges ending at any native position', 'utf8_bounds::check on prefixes'])

prop('C37', 'The table generators turn any Unicode data files into correct tables',
 'Run in a directory with UnicodeData.txt, CompositionExclusions.txt and GraphemeBreakProperty.txt, the scripts in src/u5e/props write tables with which the library compiles and answers for every codepoint as these files say: break class, combining class, full canonical and compatibility decomposition (however deep mappings lead to mappings), and exactly the primary compositions. '
 'Run on the files in the repository they give tables that answer like the committed ones. The order in which the scripts visit the rows does not matter.',
 ['inputs', 'schedules'], 'all data files in the published format (mappings that do not lead back to themselves, non-empty tables, below U+0300 what all published versions have in common), all orders of hash keys',
 'No test runs the scripts; the committed tables were made by them, and those of the next Unicode version will be.',
 [P+'canonical_decomposition_mapping_data.pl', P+'compatibility_and_canonical_decomposition_mapping_data.pl', P+'canonical_composition_mapping_data.pl', P+'canonical_combining_class_data.pl', P+'grapheme_cluster_break_data.sh'],
 [('$continue', P+'canonical_decomposition_mapping_data.pl'), ('%excl', P+'canonical_composition_mapping_data.pl')],
 ['tables written by the scripts', 'lookups, segmentation and composition of a library built with them'])

prop('C38', 'The example programs print what they are documented to print',
 'Run with any well-formed UTF-8 arguments, each example program prints one line per argument, in order, that depends on this argument alone: simple_iteration its codepoints, grapheme_iteration its codepoints grouped by grapheme, normalization_form_d, _c, _kd and _kc those of its normalization form (for KC but for the recorded compatibility jamo case). '
 'Feeding what one printed to the next, any chain is worth its last form, of the compatibility kind if any stage was. The programs on fixed texts print these forms and truncations, smallest_code ends with the first codepoint (modulo 256).',
 ['inputs', 'histories'], 'all argument lists of well-formed texts without U+0000, all chains of the programs',
 'No test runs the programs, which are the documentation of how the parts of the library are used together.',
 ['examples/simple_iteration.cpp', 'examples/grapheme_iteration.cpp', 'examples/normalization_form_c.cpp', I+'filter.hpp', gi, es], [('filter', I+'filter.hpp'), ('basic_grapheme_iterator', gi)],
 ['standard output and exit status of the programs'])

prop('C39', 'A failure in an operation leaves whole texts behind',
 'When memory cannot be obtained at some point of appending, converting, decomposing or normalizing, or when a function given to the filter throws, the exception reaches the caller unchanged: the output then holds what it held before followed by a beginning, in whole codepoints, of what the operation appends (an assigned string holds the old or the new content), the source is unchanged, and no memory stays allocated. '
 'The same operation done again gives the complete result, as if nothing had happened; an operation that returns has done all of its work.',
 ['fault_sequences', 'inputs', 'histories'], 'all texts, all operations that append or assign, failure of any one allocation or of all from any one on, a throwing function at any call',
 'No test makes an allocation or a function fail; defects show only when an operation is left in the middle and the library is used again.',
 [I+'filter.hpp', es, I+'codepoint_decomposition.hpp', I+'normalization_form_kc.hpp', I+'utf8.hpp'],
 [('filter', I+'filter.hpp'), ('append_from_utf32ne', I+'utf8.hpp'), ('append', es)],
 ['append, append_from_utf32ne, assignment and copies of encoded strings', 'filter with normalization forms, decompositions and user functions'])

prop('C40', 'Results do not depend on how the library is compiled',
 'Iteration, writing, conversion, segmentation, normalization, bounds checks and lookups give the results of the other properties with every supported compiler (g++ and clang++), every language standard from C++14 on, at every optimization level, and whether plain char is signed or unsigned.',
 ['configurations', 'inputs'], 'g++ and clang++, C++14 to C++23, -O0 to -O3, signed and unsigned char; all texts',
 'The tests are compiled in one way, on a platform where char is signed.',
 [I+'utf8_util.hpp', it8, I+'codepoint.hpp', es, I+'utf8_bounds.hpp'], [('is_7bit_character', I+'utf8_util.hpp'), ('codepoint_size', I+'utf8_util.hpp'), ('current_codepoint', it8)],
 ['everything public, built in other ways'])

prop('C41', 'Any random access string will do as the native string',
 'A text may be held in any native string or view with random access iterators, whatever its memory looks like: the units need not lie next to each other, and may be of any integer type of the right size, signed or unsigned. Iteration, writing, comparison, bounds check and enforcement, graphemes, appending and normalization give the same results as on std::string, reach units only through the native iterators, and leave everything between the units alone.',
 ['configurations', 'inputs'], 'all native string types with random access iterators and the member functions of std::basic_string apart from data() and c_str(), as inputs and as outputs; all texts',
 'Tests use std::string, std::basic_string<int> and their views, all contiguous.',
 [it8, es, I+'utf8.hpp', I+'utf32ne.hpp', I+'utf8_bounds.hpp', I+'basic_grapheme_iterator.hpp'], [('NativeIterator', it8), ('NativeString', es), ('current_codepoint', it8), ('append_from_utf32ne', I+'utf8.hpp')],
 ['iterators, strings, graphemes, bounds and forms over a native string with rubbish between its units'])

prop('C42', 'Headers can be included in any order, in any number of source files',
 'A program may be made of any number of source files, and each may include any of the public headers, alone or in any order and any number of times. Every file compiles, the files link together and with the library, and in every file each header included offers what it documents, with the results of the other properties. '
 'A header puts nothing outside namespace u5e: whatever names a program gives to things of its own it may still use, and no macros are defined that do not carry the name of the library. The version at run time is the one at compile time.',
 ['configurations', 'inputs'], 'all programs of source files that include public headers in any order; all texts',
 'Every test is a program of one source file that includes a few headers in one order, most of them through others.',
 [es, I+'utf8_util.hpp', I+'canonical_combining_order.hpp', I+'codepoint_decomposition.hpp', I+'utf32ne_string_view_grapheme_iterator.hpp', I+'version.hpp'],
 [('INCLUDED_U5E_BASIC_ENCODEDSTRING', es), ('inline', I+'canonical_combining_order.hpp'), ('run_time', I+'version.hpp')],
 ['compilation, linking and results of programs that include the headers'])

prop('C43', 'Operations look only near where they are; passes take linear work',
 'What an operation looks at does not depend on how long the text is. The bounds check looks at the first octet and the last seven; repairing looks, besides the last seven, only at as many octets at the beginning as it replaces and the one after them. Making, reading, moving and comparing codepoint iterators looks at most at the codepoints involved and the ones next to them, and the same holds for grapheme iterators, placed anywhere, and graphemes. '
 'A pass over a whole text (walking by codepoints or graphemes in either direction, copying, converting, repairing, filtering, decomposing, and every normalization form) takes work in proportion to the length of the text, except that a normalization form may take the square of the length of each grapheme, and beside its result it holds no more memory than for the largest grapheme.',
 ['inputs'], 'all texts of any length in any storage, all positions in them',
 'The tests use texts of a few codepoints and look only at results; how much was looked at or done for it is not seen.',
 [I+'utf8_bounds.hpp', it8, gi, I+'filter.hpp', es, I+'utf8.hpp', I+'utf32ne.hpp', I+'canonical_combining_order.hpp', I+'canonical_composition.hpp'],
 [('max_walkback', I+'utf8_bounds.hpp'), ('find_start_of_grapheme', gi), ('find_end_of_grapheme', gi), ('append_from_utf32ne', I+'utf8.hpp')],
 ['the positions an instrumented native string is read at', 'steps and memory of passes over texts of growing length'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in ps:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
