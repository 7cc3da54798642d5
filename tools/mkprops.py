#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles and statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
I = "include/configor/"
D = I + "details/"
prop("C01", "Dumping and parsing back is lossless",
 "For every value built from null, booleans, integers, Unicode strings, finite floats, arrays and objects, parsing the text produced by dump gives back an equal value with the same type at every node, whatever indentation, unicode-escaping or character width was chosen. Floats come back equal to the printed decimal (the chosen precision is the only thing that can be lost) and are still floats.",
 ["inputs", "configurations"], "all values x all dump options (indent step and character, unicode escaping, precision/notation, char and wide targets)",
 "The tests round-trip one float and compare a handful of literal texts; they never parse back what dump produced for control characters, escaped non-ASCII text, nested empty containers or large numbers.",
 [I+"json.hpp", D+"serializer.hpp", D+"parser.hpp", D+"encoding.hpp"],
 [("indent depth/last token", "layout state of the writer", I+"json.hpp json_serializer"), ("current code point, number accumulators", "lexer state of the reader", I+"json.hpp json_parser")],
 [("json_serializer::next/put_*", I+"json.hpp"), ("json_parser::scan*", I+"json.hpp"), ("basic_serializer::do_dump, basic_parser::do_parse", D+"serializer.hpp, "+D+"parser.hpp")],
 ["json::dump return value", "json::parse return value"])
prop("C02", "The parser accepts exactly its language and yields the denoted value",
 "A text parses iff it is one JSON value, where whitespace, // and /* */ comments may appear between tokens, a number may carry a leading '+', a comma may precede a closing bracket, the first digit of an unsigned exponent must not be 0 and '0' takes no exponent directly; a NUL outside a string ends the text. The result is exactly the value the text denotes (the first of duplicate keys wins), independent of what the target held before. Every other text, including every truncation, raises a deserialization error; no text crashes, hangs or is partly accepted.",
 ["inputs"], "all texts over Unicode code points (nesting depth limited by the stack)",
 "The tests sample about sixty texts; rejection of malformed input and denotation are statements about every text, e.g. every prefix of every document.",
 [I+"json.hpp", D+"parser.hpp"],
 [("current code point", "one-character lookahead", I+"json.hpp json_parser::current_"), ("recursion in do_parse", "stack of open containers", D+"parser.hpp")],
 [("scan/skip_comments/scan_literal/scan_string/scan_number", I+"json.hpp"), ("do_parse", D+"parser.hpp")],
 ["json::parse return value or exception type"])
prop("C03", "Every input source and encoding of a document parses alike",
 "The same document gives the same outcome (value, or failure) whether it is read from a string, a C string, a stdio FILE, an input stream, an input adapter or the stream-extraction wrapper, and whether it is encoded as UTF-8, UTF-16 or UTF-32, decoded by the library's encodings or by one of the user's that takes its units singly or in blocks, or read into a narrow or a wide value. Reading starts at the source's current position; a failed extraction into a typed object leaves that object unchanged.",
 ["inputs", "configurations"], "all documents x all source kinds x all source/target encodings",
 "The tests read FILE-less sources only (no FILE* test at all), no UTF-16 source, and compare adapter and string on one document.",
 [D+"parser.hpp", D+"stream.hpp", D+"wrapper.hpp", D+"encoding.hpp"],
 [("buffered look-ahead character", "character peeked but not consumed", D+"stream.hpp"), ("index", "read position", D+"stream.hpp")],
 [("parsable::parse overloads", D+"parser.hpp"), ("fast_*_istreambuf, basic_iadapterstream", D+"stream.hpp"), ("operator>>", D+"wrapper.hpp")],
 ["json::parse overloads", "operator>> on json::wrap"])
prop("C04", "Dump writes the one canonical text of a value",
 "Without indentation the output has no whitespace between tokens; with indentation every element starts on its own line indented by step x depth copies of the indent character and each ':' is followed by one indent character, and nothing else differs. Object members appear in container order; quotes, backslashes and control characters are escaped, everything else is verbatim unless unicode escaping is on, in which case the output is pure ASCII using four-digit escapes and surrogate pairs. Output is always valid JSON (up to the chosen indent character) and depends only on the value and the options.",
 ["inputs", "configurations"], "all values x all indent/escaping options",
 "The tests compare two indented outputs and one escaped string; deep nesting, empty containers in indented mode, every control character and every code point range are untested.",
 [I+"json.hpp", D+"serializer.hpp"],
 [("object_or_array_began_, last_token_, indent depth", "layout state", I+"json.hpp json_serializer")],
 [("json_serializer::next/put_string", I+"json.hpp"), ("indent", D+"serializer.hpp")],
 ["json::dump return value"])
prop("C05", "Unicode codecs are exact and reject ill-formed text",
 "For UTF-8, UTF-16 and UTF-32, encoding a Unicode scalar value gives its standard code-unit sequence and decoding that sequence gives the scalar value back, consuming exactly that sequence. Surrogates and numbers above U+10FFFF are refused by the encoders; every ill-formed sequence (truncated, overlong, bad continuation, lone surrogate, out of range) is reported as a failure by the decoders, and parse and dump turn it into an error rather than into different text.",
 ["inputs"], "all 0x110000 code points x 3 encodings; all code-unit sequences",
 "The tests use one Chinese string with one emoji and one truncated byte.",
 [D+"encoding.hpp", I+"json.hpp"],
 [("stream fail state", "reports an encoding error", D+"encoding.hpp")],
 [("utf8/utf16/utf32::encode/decode, surrogate helpers", D+"encoding.hpp")],
 ["encoding::utfN<CharT>::encode/decode on a stream", "json::parse / json::dump of strings"])
prop("C06", "Values are independent: copies are deep, moves and swaps transfer",
 "After any sequence of constructions, copies, moves, swaps, assignments and appends between values or between parts of values (including self-assignment, assigning a value from its own part and copying a value into its own part), each value holds exactly what the operations say and later changes to one are never visible through another. A moved-from value is null and usable. When all values are destroyed every allocation has been released exactly once. (Moving or swapping a value into its own part has no meaning and is excluded.)",
 ["histories"], "all finite sequences of value operations",
 "The tests copy one object and compare it; aliasing, self-assignment, assignment from a child and leaks need histories.",
 [D+"value.hpp"],
 [("type_, data_", "tag and owned payload", D+"value.hpp")],
 [("copy/move constructors, operator=, swap, destructor, value_constructor", D+"value.hpp")],
 ["public accessors after each operation", "allocation balance"])
prop("C07", "Container operations behave as a map / sequence / scalar algebra",
 "Non-const indexing turns null into an array or object, grows arrays with nulls up to the index and inserts missing keys as null; const access never changes anything and reports a wrong index or key as out-of-range. size, empty, count, find, erase, push_back, emplace_back and clear agree with the abstract container (clear keeps the type). Using an operation on a value of the wrong type raises the documented library error and leaves every value unchanged.",
 ["histories", "inputs"], "all sequences of container operations on all values",
 "The tests do one or two operations on three small values.",
 [D+"value.hpp"],
 [("type_, data_", "tag and owned payload", D+"value.hpp")],
 [("operator[], at, find, count, erase, push_back, emplace_back, clear, size, empty", D+"value.hpp")],
 ["return value or exception type, and the whole value after each call"])
prop("C08", "Iterators visit each element once, in order, both ways",
 "Iterating from begin to end yields each element of an array in index order, each member of an object in container order, a scalar once and null never; reverse iteration yields the same sequence reversed, through const and mutable iterators alike. Stepping, offsetting, subtracting and comparing iterators agree with positions; erase by iterator or range returns the position after the erased part; dereferencing the end, taking key() of a non-object, or mixing iterators of different values is reported as the documented error.",
 ["histories", "inputs"], "all values x all sequences of iterator operations",
 "The tests walk arrays of three and objects of one element.",
 [D+"iterator.hpp", D+"value.hpp"],
 [("value_, array_it_, object_it_, primitive_it_", "iterator position", D+"iterator.hpp")],
 [("iterator, reverse_iterator, primitive_iterator", D+"iterator.hpp"), ("begin/end/rbegin/rend/erase/find", D+"value.hpp")],
 ["iterator operations' results or exception types"])
prop("C09", "Typed access succeeds exactly when the type matches",
 "Reading a value as a bool, integer, float, string, array or object (by value, pointer, reference or into a variable) succeeds iff the stored type is that type (null also reads as an empty array or object by value) and yields the stored content. Pointers and references designate the stored content itself, so writing through them changes the value. On mismatch by-value and reference reads raise a type error, pointers are null, try-reads return false and leave the variable alone; no read ever changes the value.",
 ["inputs"], "all values x all access forms and types",
 "The tests check mostly matching accesses; mismatches are a cross product of 7 stored types x access forms.",
 [D+"value.hpp", D+"conversion.hpp"],
 [("type_, data_", "tag and payload", D+"value.hpp")],
 [("get, get_ptr, do_get*, from_value", D+"value.hpp, "+D+"conversion.hpp")],
 ["get<T>(), get<T*>(), get<T&>(), get(T&), implicit conversion"])
prop("C10", "Comparison is coherent",
 "Two values are equal iff they have the same type and content, except that an integer and a float compare by numeric value; a copy always equals its original. Less-than orders numbers numerically, strings, arrays and objects lexicographically, false before true, and is false between other different types; !=, >, <= and >= are exactly the negation, mirror image and negated mirror images of these, for value-value and value-scalar comparisons alike.",
 ["inputs"], "all pairs of values (finite floats)",
 "The tests compare a dozen scalar pairs; nested, mixed-type and ordering comparisons are unsampled.",
 [D+"value.hpp"],
 [],
 [("operator== != < <= > >=", D+"value.hpp")],
 ["comparison results"])
prop("C11", "Standard containers convert to values and back without loss",
 "Converting a vector, list, deque, forward list, set, unordered set, array, C array, string-keyed map or unordered map, or an owning pointer (null when empty), of convertible elements to a value gives the array, object or element it denotes in container order, and converting back into a target holding anything gives an equal container (fixed-size targets take the common prefix and keep the rest). Converting from a scalar, or from an array or object of the wrong shape or with an unconvertible element, reports a failure (a container target may then be partly overwritten, a pointer keeps its object); no conversion changes the source value.",
 ["inputs"], "all containers over convertible element types, nested, x all source values x prior target contents",
 "The tests convert one element per container kind into empty targets.",
 [D+"conversion.hpp"],
 [],
 [("to_value/from_value overloads", D+"conversion.hpp"), ("get / converting constructor / operator T", D+"value.hpp")],
 ["value(T), get<T>(), get(T&)"])
prop("C12", "Bound custom types convert field by field",
 "A bound type converts to an object (null if it has no member) holding every required field and exactly the optional fields that differ from their type's default value, under the declared names, and converting that back into a fresh object gives an equal instance; extra members are ignored. A missing required field, or a source that is no object when a field is required, reports an error; a missing optional field, or a present scalar field that cannot be converted, leaves the field as it was. Non-default-constructible types convert through their binder, also when nested in containers and pointers.",
 ["inputs"], "all instances and all source values for bound types with every mix of required/optional/renamed fields",
 "The tests convert one instance of one type each way and never a malformed source.",
 [D+"conversion.hpp", D+"declare.hpp"],
 [],
 [("CONFIGOR_BIND and its argument machinery", D+"conversion.hpp"), ("value_binder", D+"conversion.hpp")],
 ["value(T), get<T>(), get(T&), json::wrap(T)"])
prop("C13", "Error handlers receive every failure exactly once",
 "Without a handler or with the strict policy a parse or dump failure raises the library's exception. With any handler installed every failure, wherever it occurs, is delivered to it exactly once and nothing is raised unless the handler raises; the ignore policy swallows it, the record policy stores exactly the message the exception would have carried and keeps it until the next failure. A call that succeeds never touches the handler and gives the same result as without one.",
 ["histories", "inputs"], "all sequences of parse and dump calls sharing handlers, all failing inputs",
 "The tests use one failing text and one failing string per policy.",
 [D+"exception.hpp", D+"parser.hpp", D+"serializer.hpp", I+"json.hpp"],
 [("err_handler_", "installed handler", D+"parser.hpp, "+D+"serializer.hpp"), ("error", "last recorded message", D+"exception.hpp")],
 [("basic_parser::parse, basic_serializer::dump", D+"parser.hpp, "+D+"serializer.hpp"), ("error_handler_with", D+"exception.hpp")],
 ["handler calls, recorded message, thrown exception, result"])
prop("C14", "A failing allocation, sink or source never corrupts, leaks or goes unreported",
 "If memory runs out at any point of any operation, or an output sink or input source fails at any point of a dump or parse, the call reports a failure (it never returns as if it had succeeded with truncated or altered data). Every value involved remains usable and can be destroyed, nothing leaks, and construction, copy assignment and conversion to a value either complete or leave their target as it was (a null target of an append or index operation may have become an empty container, a target of a parse or of a conversion into a native container may be partly written).",
 ["fault_sequences"], "every operation x every allocation, write or read at which a fault can strike",
 "No test injects a fault.",
 [D+"value.hpp", D+"conversion.hpp", D+"serializer.hpp", D+"parser.hpp", D+"stream.hpp", I+"json.hpp"],
 [("type_, data_", "tag and payload; must be consistent when an exception passes", D+"value.hpp")],
 [("value_constructor::construct/reset/create_data", D+"value.hpp"), ("stream state checks", I+"json.hpp, "+D+"serializer.hpp")],
 ["exception, value contents afterwards, live allocations, bytes that reached the sink"])
prop("C15", "Stream adapters carry every character once and in order",
 "Whatever mix of single-character reads, peeks and block reads is used on an input-adapter stream, the characters obtained are exactly those the adapter supplies, each once and in order, with correct counts; peeking consumes nothing. Whatever mix of character and block writes is used on an output-adapter stream, the adapter receives exactly the characters written, in order.",
 ["histories"], "all sequences of stream operations over all character sequences (including NUL and high bytes), narrow and wide",
 "The tests do one fixed sequence of reads over ASCII text and never a block read.",
 [D+"stream.hpp"],
 [("last_char_", "character peeked but not consumed", D+"stream.hpp basic_iadapterstream")],
 [("basic_iadapterstream::streambuf, basic_oadapterstream::streambuf", D+"stream.hpp")],
 ["istream get/peek/read results and counts", "characters received by the adapter"])
prop("C16", "Dump honours and preserves the output stream's formatting state",
 "Dumping to a string, an output stream, an output adapter or through the insertion wrapper gives the same text for the same options. A stream's width (consumed: reset to 0), fill, precision and float notation act as the corresponding options, explicit options override them, and its other formatting flags and locale influence neither the text nor are changed; any sequence of dumps and other insertions on one stream therefore gives the concatenation of the individual texts. The insertion wrapper writes nothing to a stream that is already failed.",
 ["histories", "configurations"], "all sequences of insertions over all stream formatting states, sinks and options",
 "The tests set width, fill or precision once on a fresh stream.",
 [D+"serializer.hpp", D+"wrapper.hpp", I+"json.hpp", D+"stream.hpp"],
 [("width, fill, precision, floatfield, locale of the caller's stream", "inputs to the layout", D+"serializer.hpp, "+I+"json.hpp")],
 [("basic_serializer/json_serializer constructors", D+"serializer.hpp, "+I+"json.hpp"), ("operator<<", D+"wrapper.hpp")],
 ["bytes written, stream state after the call"])
prop("C17", "Calls depend only on their arguments: no hidden state, no data races",
 "The outcome of every parse, dump, copy, comparison or conversion depends only on its arguments, not on calls made before, on errors raised before, or on calls running in other threads. Any number of threads may use distinct values, and may read one shared value, concurrently without data races and with the results they would get alone.",
 ["schedules", "histories"], "all interleavings of calls from several threads on private and shared-read values",
 "The tests are single-threaded and each starts fresh.",
 [I+"json.hpp", D+"value.hpp", D+"parser.hpp", D+"serializer.hpp", D+"encoding.hpp"],
 [("function-local statics (allocators, code tables)", "shared between calls", D+"value.hpp, "+D+"encoding.hpp")],
 [("absence of mutable shared state", I)],
 ["results of calls made concurrently and repeatedly"])
prop("C18", "Numbers keep their kind and value",
 "An integer literal parses to exactly that integer when it fits the integer type and is rejected otherwise; a literal with a fraction or exponent parses to the float it denotes (to working precision, rejected if beyond the float range). Integers dump as their decimal digits; floats dump so that they read back as floats: integral ones exactly with '.0', others in the chosen notation and precision, correctly rounded. Infinities and NaN are refused by dump.",
 ["inputs", "configurations"], "all numerals and all numbers x precisions and notations",
 "The tests check a dozen numerals and two precisions.",
 [I+"json.hpp"],
 [("number_integer_, number_float_, is_negative_", "number accumulators", I+"json.hpp json_parser")],
 [("scan_number/scan_integer/scan_float/scan_exponent, get_*", I+"json.hpp"), ("put_integer/put_float, with_precision", I+"json.hpp")],
 ["json::parse / json::dump of numbers"])
prop("C19", "Values of every configuration obey the same laws",
 "Value types configured with wide characters, another integer or float width, another object container (such as one keeping insertion order), or another allocator follow the same laws for construction, copying, access, iteration, comparison, conversion and (for standard strings) parsing and dumping, with member order and duplicate handling given by the configured object container and every allocation made and released through the configured allocator.",
 ["configurations", "histories"], "all admissible template configurations x operation sequences",
 "The tests instantiate one alternative configuration and use two operations on it.",
 [I+"configor.hpp", D+"value.hpp", I+"json.hpp"],
 [],
 [("basic_value<_Args> and basic_json<_Args> templates", D+"value.hpp, "+I+"json.hpp")],
 ["the same observations as C01, C06, C07, C08, C10 on alternative instantiations"])
prop("C20", "The encodings a caller selects are the ones applied",
 "Code units of text and of strings are read and written with the default encoding of the JSON type (automatic: UTF-8, UTF-16 or UTF-32 by unit width) unless with_encoding, with_source_encoding or with_target_encoding says otherwise for a side; the settings act in order, on their own side only, whatever else is selected, for every form of parse, dump and stream wrapper, and nothing else of the text or the value depends on them. encoding::ignore takes every unit as the character of the same number, so that text written under it reads back under it.",
 ["inputs", "configurations"], "all selections x all unit widths x all strings and texts",
 "One test selects encoding::ignore for one ASCII string; no test selects an encoding for one side, in another width, or as default of a JSON type.",
 [I+"json.hpp", D+"parser.hpp", D+"serializer.hpp", D+"encoding.hpp", D+"wrapper.hpp"],
 [("source_decoder_/target_encoder_", "encodings in effect", D+"parser.hpp, "+D+"serializer.hpp")],
 [("with_encoding/with_source_encoding/with_target_encoding", I+"json.hpp"), ("parsable/serializable default encoding", D+"parser.hpp, "+D+"serializer.hpp"), ("utf8/utf16/utf32/ignore/auto_utf", D+"encoding.hpp")],
 ["json::parse / json::dump with options", "basic_json<Args, Encoding>"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
