#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
S, J, N, A, B, R = ("source/cpp/json-string.hh", "source/cpp/json.hh", "source/cpp/json-number.hh",
                    "source/cpp/json-array.hh", "source/cpp/json-base64.hh", "source/cpp/protogen.hh")
T, G, Q, PR, M, TM = ("source/cpp/code.txt", "source/cpp/cppgen.cc", "source/proto3.cc", "source/printer.cc",
                      "source/main.cc", "source/template.cc")

p("C01", "String values survive serialisation and deserialisation byte for byte",
  "For every string value of a message (a singular or repeated field, at any nesting level, including empty strings, control characters, NUL, quotes, slashes and backslashes), serialising the message and deserialising the result yields exactly the same string. This holds with default parameters for every byte sequence that does not depend on encoding, and with ensure_ascii for every well-formed UTF-8 text.",
  ["inputs", "configurations"], "every string content and length, every position in a message, ensure_ascii on and off",
  "The tests try a handful of printable strings (one per UTF-8 length); escapes, control characters, byte boundaries of the UTF-8 ranges and surrogate pairs are never enumerated.",
  [S, R], [("string writer escapes per character and per UTF-8 length", S + " json<std::string>::write"),
           ("string tokenizer undoes the escapes", R + " tokenizer::parse_string, parse_escaped_utf8")],
  observe=["message.serialize", "message.deserialize"])
p("C02", "Integer and boolean fields keep their exact value through JSON",
  "For every value of every integer type (int32, sint32, sfixed32, uint32, fixed32, int64, sint64, sfixed64, uint64, fixed64) and of bool, singular or repeated, the serialised JSON carries exactly that value as a plain decimal literal (or true/false), and deserialising it restores it exactly. A decimal integer literal within the range of the field's type is always read as that very value.",
  ["inputs"], "all 2^32 / 2^64 values of each type; all decimal literals in range",
  "Test 7A tries one maximum per type and ignores its own verdict; negative values, minima, 53-bit boundaries and literals written by other producers are not tried.",
  [N, G], [("text to number conversion per signedness", N + " string_to_number"), ("number to text", N + " number_to_string"),
           ("proto type to C++ type table", G + " TYPE_MAPPING")],
  observe=["message.serialize", "message.deserialize"])
p("C03", "Finite double and float fields keep their exact value through JSON",
  "For every finite value of a double or float field, singular or repeated, serialising and deserialising the message restores exactly the same value, and the serialised literal is a valid JSON number.",
  ["inputs"], "every finite IEEE-754 binary32/binary64 value",
  "Tests use 10 and the type maximum only; small magnitudes and full-precision fractions are never written.",
  [N, R], [("number formatting", N + " number_to_string<floating>"), ("number parsing", N + " string_to_number<floating>"),
        ("number tokenizer", R + " tokenizer::parse_number")],
  observe=["message.serialize", "message.deserialize"])
p("C04", "Bytes fields are RFC 4648 base64 and malformed base64 is rejected",
  "A bytes field is serialised as a JSON string holding the standard (RFC 4648, padded) base64 encoding of its content, and deserialising such a string restores exactly the same bytes, for every content and length. A JSON string that is not valid padded base64 is reported as an error instead of being decoded to something else.",
  ["inputs"], "every byte sequence; every candidate base64 text",
  "No test exercises the base64 code at all: it is not even emitted for the test models, so a syntax error there goes unnoticed.",
  [B, G], [("encoder", B + " write"), ("decoder", B + " read, b64_int"), ("emission of the base64 header", G + " generateInclusions")],
  observe=["message.serialize", "message.deserialize"])
p("C05", "A successful serialisation is always well-formed JSON",
  "Whenever serialising a message reports success, the produced text is one complete RFC 8259 JSON object whose members are exactly the message's serialisable fields; with ensure_ascii it additionally contains ASCII characters only. When a value cannot be represented (text that is not valid UTF-8 under ensure_ascii), serialisation reports failure with an error code instead of producing a damaged document.",
  ["inputs", "configurations"], "every message value and parameter combination",
  "Tests only compare output with the library's own re-reading of it, never with the JSON grammar, and never serialise an unrepresentable value.",
  [S, T, J, A, N], [("escaping", S + " json<std::string>::write"), ("member and separator emission", T + " CODE_JSON__WRITE__*"),
        ("array emission", A + " write"), ("error propagation", J + " PG_X_Y_Z_ENTITY serialize")],
  observe=["message.serialize", "params.error"])
p("C06", "Field presence is preserved: unset is omitted or null, set is written",
  "A field that was never set (or was cleared) is omitted from the JSON, or written as null (an empty array, or an object of nulls) when serialize_null is on; a field that was set is always written, even to zero, false or an empty string. Reading a document leaves exactly the fields unset whose member is missing or null, so that a round trip preserves which fields are present. A null inside a list never becomes an element of it.",
  ["inputs", "configurations"], "every subset of fields set/unset, every default-like value, serialize_null on and off",
  "Tests use one or two fixed populations; presence of null strings and of default values is not checked after reading.",
  [N, S, T, A], [("presence flag of numbers", N + " field"), ("null flag of strings", S + " string_field"), ("member guard", T + " CODE_JSON__WRITE__ITEM")],
  state=[("empty flag", "field has not been assigned", N), ("null flag", "string has not been assigned", S)],
  observe=["message.serialize", "message.deserialize", "field.empty"])
p("C07", "Copy, assignment, clear, swap and equality of messages are consistent",
  "After any history of assigning, copying, clearing, swapping and deserialising messages, a copy compares equal to its source and serialises to the same text, a cleared message is empty, equal to a default-constructed one and serialises as the empty object, and swapping exchanges the two values completely. Equality and inequality of messages are each other's negation, and two messages are equal exactly when all their fields agree in presence and value.",
  ["histories", "inputs"], "all operation sequences up to the bound over all field values",
  "Tests compare a few fresh objects and never reuse, copy over or clear a populated one; two of the comparisons are vacuous.",
  [N, S, T, J], [("value wrappers' special members", N + " field; " + S + " string_field"), ("member-wise helpers", T + " CODE_JSON__CLEAR/EQUAL/SWAP/EMPTY")],
  state=[("value + presence", "wrapper content", N)], observe=["operator=", "operator==", "clear", "swap", "empty", "serialize"])
p("C08", "Unknown and transient members are skipped without affecting other fields",
  "A member whose name is not a serialisable field of the message may hold any valid JSON value, at any position, any number of times, at any nesting level, and deserialising succeeds with exactly the result obtained without that member. Unknown names include case variants, prefixes and extensions of known names.",
  ["inputs"], "every unknown name, every valid JSON value, every position in the document",
  "Tests contain unknown members only in documents that must fail.",
  [R, J, T], [("value skipper", R + " tokenizer::ignore_value/ignore_object/ignore_array"), ("name lookup", T + " CODE_JSON__INDEX__*"), ("dispatch", J + " read_object")],
  observe=["message.deserialize"])
p("C09", "All JSON string escapes are decoded as RFC 8259 prescribes",
  "In any string of an input document (member values and member names), each two-character escape and each \\uXXXX escape, with upper or lower case hexadecimal digits, is decoded to the UTF-8 encoding of the code point it denotes, and a surrogate pair to its one supplementary code point. Malformed escapes (unknown letter, missing or invalid hexadecimal digits, a trailing surrogate without a leading one) make deserialisation fail.",
  ["inputs"], "all 65536 code units, all 1048576 surrogate pairs, all escape letters, any surrounding text",
  "The tests decode only what the library itself emits; the table entries for bad escapes in test 4 are never reached.",
  [R], [("escape decoding", R + " tokenizer::parse_string"), ("UTF-16 to UTF-8", R + " tokenizer::parse_escaped_utf8")],
  observe=["message.deserialize"])
p("C10", "Whitespace and member order in a document do not change its meaning",
  "Inserting any amount of JSON whitespace (space, tab, CR, LF) between tokens, before the document or after it, and reordering the members of an object, never changes the outcome of deserialisation nor the resulting message. Whitespace inside strings is data and is preserved.",
  ["inputs"], "every whitespace sequence at every token boundary; every permutation of members",
  "Tests read compact documents in one member order.",
  [R, J], [("whitespace skipping", R + " tokenizer::next, iterator_istream::skip"), ("member loop", J + " read_object")],
  observe=["message.deserialize"])
p("C11", "Truncated or structurally malformed documents are rejected",
  "Every proper prefix of a valid document (a document cut at any byte) is rejected, whatever the fields involved. So are documents with a missing or doubled separator or bracket, a mismatched bracket, a non-string member name, or a member value whose JSON type does not match the type of the known field. Text after the closing bracket of the outermost value is not examined (streams may hold several documents), and the exact syntax of numbers is not part of this property.",
  ["inputs", "crash_points"], "every cut position of every document within the bound; every single-token deletion, duplication or replacement",
  "Test 4 has eight fixed malformed documents.",
  [R, J, A], [("grammar of objects", J + " read_object"), ("grammar of arrays", A + " read"), ("type checks", N + ", " + S + " read")],
  observe=["message.deserialize", "params.error"])
p("C12", "Deserialising arbitrary bytes is memory-safe and terminates",
  "For every byte sequence of any length, including NUL and non-ASCII bytes, deserialisation returns true or false: it never reads outside the given buffer, never writes outside an object, never triggers undefined behaviour or an unexpected exception, and its work is bounded by the input length. The message object remains usable afterwards (it can be serialised, cleared and read into again).",
  ["inputs"], "every byte buffer up to the bound, for message and array entry points",
  "No test feeds arbitrary bytes; nothing runs under a memory checker.",
  [R, J, A, B, N, S], [("bounded input stream", R + " iterator_istream, mem_const_iterator"), ("tokenizer", R + " tokenizer"), ("readers", J + " read_object")],
  observe=["message.deserialize", "deserialize_array"])
p("C13", "All serialisation and deserialisation entry points agree",
  "Deserialising the same bytes from a std::string, a std::vector<char>, a pointer and length, or a std::istream gives the same verdict, the same error and the same message; serialising to a std::string, std::vector<char>, std::ostream or sufficiently large char buffer gives the same bytes from the first position on. Serialising into a char buffer never writes outside it, and the array functions treat a container exactly as a repeated field of the same element type.",
  ["inputs", "configurations"], "every document and message within the bound, every entry point, every buffer size",
  "Test 5 ORs its checks so that almost any one suffices, never calls the char-buffer writer, and the array reader from a buffer is commented out because it does not compile.",
  [R, A, J], [("stream adapters", R + " iterator_istream, iterator_ostream, mem_iterator"), ("array entry points", A + " deserialize_array/serialize_array")],
  observe=["serialize overloads", "deserialize overloads", "serialize_array", "deserialize_array"])
p("C14", "Failed deserialisation always reports an error code and a valid position",
  "When deserialisation with parameters returns false, the reported error has a code other than OK, a non-empty message, and a 1-based line and column that designate the start of the offending token (or the end of the document), counting lines by line feeds. When it returns true the error is clear, even if the same parameters carried an error from an earlier call.",
  ["inputs", "histories"], "every rejected document within the bound, any sequence of calls sharing one Parameters object",
  "Test 4 checks eight positions; tokens of other kinds and reuse of parameters are not covered.",
  [R, J, A], [("error recording", R + " tokenizer::error"), ("line/column tracking", R + " iterator_istream"), ("result transfer", J + " PG_X_Y_Z_ENTITY deserialize")],
  observe=["params.error"])
p("C15", "JSON member names follow the proto options in both directions",
  "For every field, the JSON member name written and the one recognised on reading are the same: the field name by default, the text of the name option if given, the decimal field number under number_names; string obfuscation changes only the representation inside the generated source, never the names in JSON. A name that could not be emitted as a correct C++ and JSON string is rejected by the compiler: control characters, backslashes, quotes, invalid UTF-8, and names that two persistent fields of one message would share. Names that are not shared in JSON (those of transient fields, of different messages, or under number_names) are no reason to reject a file.",
  ["programs", "configurations"], "every field name and name option text, every option combination, every field number",
  "One test model uses obfuscation, only with one-digit names; number_names alone is not built at all and the name option is used once.",
  [G, T, R], [("name selection", G + " get_json_name"), ("literal obfuscation", G + " obfuscate"), ("run-time counterpart", R + " reveal, rol"), ("lookup table", T + " CODE_JSON__INDEX__*")],
  observe=["generated header text", "message.serialize"])
p("C16", "Only valid, unique field numbers are accepted",
  "The compiler accepts a field number (written in decimal without leading zeros) exactly when it is an integer from 1 to 536870911 outside the reserved range 19000-19999 and not used by another field of the same message; an accepted number is recorded with its exact value. Every other number, of any length, is rejected with an error.",
  ["inputs", "programs"], "every decimal field number text up to 21 digits, every pair of fields",
  "No test feeds the compiler an invalid number or a large valid one.",
  [Q], [("number conversion and range check", Q + " parseField")], observe=["Proto3::parse"])
p("C17", "The proto parser terminates with a result or a diagnostic on every input",
  "For every byte sequence given as a .proto file the parser terminates, without memory errors, undefined behaviour, unbounded memory growth or any exception other than its own diagnostic. The diagnostic carries a non-empty message.",
  ["inputs"], "every file content up to the bound, including unterminated comments and literals and end of file anywhere",
  "The compiler is only ever run on three valid files.",
  [Q], [("character source", Q + " InputStream"), ("scanner loops", Q + " Tokenizer::comment/literalString/qname/integer")], observe=["Proto3::parse"])
p("C18", "Comments and layout of a .proto file never change its meaning",
  "Replacing any white space between tokens of a .proto file by any other white space, line comments and block comments (with any content, including asterisks, slashes, quotes and braces, also at the very end of the file), does not change the outcome of parsing nor the resulting definitions.",
  ["inputs"], "every comment content and whitespace sequence at every token boundary",
  "Three line comments in one test file are all that is ever parsed.",
  [Q], [("comment scanner", Q + " Tokenizer::comment"), ("whitespace", Q + " InputStream::skipws")], observe=["Proto3::parse"])
p("C19", "Incomplete or malformed .proto files are rejected, never half accepted",
  "A .proto file that ends inside a message body, field, option, statement, string literal or block comment, or that breaks the grammar (unknown token, missing type, name, number, separator or brace, unterminated string, syntax other than proto3), is rejected with an error. An accepted file contributes all of its definitions: no text after an accepted prefix is silently ignored.",
  ["inputs", "crash_points"], "every cut position of valid files; every single-token deletion or replacement",
  "No test runs the compiler on invalid input.",
  [Q], [("grammar", Q + " parseProto, parseMessage, parseField, parseStandardOption, parseFieldOptions, parsePackage, parseSyntax")], observe=["Proto3::parse"])
p("C20", "A valid .proto file is parsed into exactly the definitions it contains",
  "For every valid file, the resulting model has exactly the declared messages in their packages, each with exactly its declared fields: name, type, number, repeated/optional label and options with their type and value. Every scalar type keyword, and keywords documented as usable as names, are recognised as such.",
  ["programs", "inputs"], "every combination of label, type, name, number and options within the bound",
  "The three test files cover a fixed list of combinations and only through the generated code.",
  [Q], [("keyword table", Q + " KEYWORDS"), ("field parser", Q + " parseField"), ("option parser", Q + " parseOption")],
  state=[("Proto3 model", "messages, fields, options", "include/protogen/proto3.hh")], observe=["Proto3::parse"])
p("C21", "Message references resolve independently of order; cycles are rejected",
  "A field whose type is a message name refers to the message of that name in the same package wherever it is declared in the file, and an undeclared name is an error. In the generated code each message is defined after every message it contains, whatever the declaration order, each exactly once; files whose messages contain each other or themselves are rejected with an error.",
  ["programs"], "every reference graph up to the bound, in every declaration order",
  "The test models contain a single forward-only chain.",
  [Q, G], [("late resolution", Q + " Proto3::parse, findMessage"), ("dependency sort with cycle detection", G + " sort")], observe=["Proto3::parse", "CppGenerator::generate"])
p("C22", "The compiler's exit status tells whether the header is complete",
  "The command-line compiler exits with status 0 only if the complete generated header was written to the requested output; if the input cannot be opened or is invalid, or the output cannot be opened or fails at any point while being written, it exits with a non-zero status and a diagnostic on standard error. Diagnostics for invalid input name the file, line and column, and the position is in the faulty statement (or names one of the messages of a cycle, or the end of the file). Failures to read the input count as failures to open it.",
  ["fault_sequences", "inputs"], "every position at which writing fails; every kind of invalid input",
  "The build runs the compiler on three valid files with a working disk.",
  [M], [("exit code and diagnostics", M + " main")], observe=["exit status", "standard error", "output file"])
p("C23", "The embedded run-time library is a faithful copy of its source",
  "For every text file, the preprocessing tool turns it into a C++ string macro that denotes exactly the lines of that file (or of each named section of the template file), with only the version placeholder substituted and preprocessor directives marked for removal (a # at the start of the line and AUTO-REMOVE in it) dropped; the compiler emits that text unchanged. Quotes, backslashes, question marks, non-ASCII bytes, empty lines and a last line without line feed are preserved; tabs may become spaces when emitted. The tool exits with a non-zero status if it could not read its input or write its output completely.",
  ["inputs"], "every line content up to the bound, every number of lines and sections",
  "Only checked implicitly by compiling the generated test headers, for the text the repository happens to contain today.",
  [TM, PR], [("literal escaping", TM + " copy, process"), ("placeholder expansion", PR + " Printer::print")], observe=["template tool output", "Printer"])
p("C24", "Nested messages, lists and empty containers keep their structure",
  "For every nesting of messages and every repeated field (of scalars, strings or messages, in vector or list form) of any length including zero, serialising and deserialising preserves the number, order and content of all elements and nested messages. Deserialising a document twice into two fresh objects gives equal messages.",
  ["inputs", "programs"], "all shapes up to the bound with arbitrary leaf values",
  "Tests use at most two elements per list and one nesting level with fixed values.",
  [A, J, T], [("array reader/writer", A + " json<container>"), ("object reader/writer", J + " read_object; " + T + " CODE_JSON__WRITE__*")],
  observe=["message.serialize", "message.deserialize"])
p("C25", "Generated classes have every declared field with its documented C++ type",
  "For every accepted .proto file the generated header defines each message as a class in the namespace of its package, with one member per declared field of the documented C++ type (vector or list for repeated fields as configured), and every non-transient member takes part in reading and writing while transient ones take part in neither. Messages with more fields than supported, two fields of one message or two messages of one package with the same name are rejected. Names must not be C++ keywords or names that the generated code itself uses or introduces.",
  ["programs", "configurations"], "every field type x label x option combination, message sizes from 0 to the limit and above",
  "The test models fix one layout; the field limit, transient-only messages and most type and label combinations are never generated.",
  [G, T], [("type mapping", G + " fieldNativeType, TYPE_MAPPING"), ("member-wise code emission", G + " generate_function__*"), ("limit", G + " generateMessage")],
  observe=["generated header", "message.serialize", "message.deserialize"])
p("C26", "Results depend only on the arguments: no hidden state, headers combine",
  "Every call depends on its arguments only: serialising, deserialising and the array functions give the same result (verdict, text or message, error) when repeated after any number of other calls on other objects, successful or failed; parsing and generating the same file gives the same result after any other files were compiled in the same process. The generated header depends on the content of its file only: its path shows in comments and in the names of include guards, and nowhere else, whatever characters it has. Headers generated from files at different paths can be included in one translation unit, in any order.",
  ["histories", "programs"], "all sequences of calls before a repeated one, all pairs of paths, all combinations of headers",
  "The tests make each call once in a fresh state, compile each file once and use fixed paths.",
  [R, G, "source/proto3.cc"], [("no static state", "source/cpp/*.hh"), ("include guards", G + " makeGuard, generateModel"), ("parser state", "source/proto3.cc")],
  observe=["message.serialize", "message.deserialize", "generated header"])
p("C27", "Fields are values with presence, however they are changed",
  "Every field of a message behaves as an optional value: empty() tells whether it is set, conversion gives the value it was last given (zero, false or the empty text when unset), a field equals a value exactly when it is set to it, and two fields (and messages) are equal exactly when presence and value agree. This holds after any sequence of assignments from values, fields and texts, copies, moves, swaps with fields and with values, self-assignment, clear(), and for text fields changes through their reference. A message is empty exactly when none of its fields is set, a field is written to JSON exactly when it is set, and the message read back is equal.",
  ["histories", "inputs"], "all sequences of operations on fields and all values",
  "The tests assign each field once and read it; sequences of operations on set and unset fields with equal and different values are not sampled.",
  [R, "source/cpp/json-string.hh", "source/cpp/json-number.hh"], [("field<T>", "source/cpp/protogen.hh"), ("string_field", "source/cpp/json-string.hh")],
  observe=["field operations", "message.serialize", "message.deserialize"])
p("C28", "The locale and the format of streams have no effect",
  "Serialising and deserialising give the same result (verdict, text or message, error) whatever locale is in use: that of the process (setlocale), of the thread (uselocale) or of C++ streams (std::locale::global, with any decimal point, grouping and character classes). Numbers are written and read with a decimal point; a decimal comma is not accepted; letters and spaces are those of ASCII. The calls leave these locales as they were. The format flags, precision and fill of the caller's streams change neither what is written nor what is read, and stay as they were.",
  ["configurations", "inputs"], "all kinds of locale, all format flags, all values and bytes",
  "The tests run in the C locale with streams of default format.",
  [R, "source/cpp/json-number.hh", J], [("number format and reading", "source/cpp/json-number.hh"), ("tokens", "source/cpp/json.hh"), ("streams", R)],
  observe=["message.serialize", "message.deserialize", "locale", "stream format"])
p("C29", "Different threads can use different messages, and read the same ones",
  "Calls on messages that no other thread uses are free of data races, whatever the calls and the contents: serialising and deserialising (through strings, streams, vectors and buffers, with parameters of the thread's own), arrays, copies, swaps, failures. Nothing process-wide (such as the locale) is changed, not even for the time of a call. Operations that do not change a message (serialising, reading and comparing fields, copying from it) can be done by several threads on the same message at once.",
  ["interleavings", "inputs"], "all interleavings of two threads, all sequences of calls, all contents",
  "The tests have one thread; a race shows in few interleavings, and needs calls that meet in the same storage.",
  [R, "source/cpp/json-number.hh", "source/cpp/json-base64.hh", J], [("statics of functions", "source/cpp/*.hh"), ("const operations", R)],
  observe=["data race", "message.serialize", "message.deserialize", "locale"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
