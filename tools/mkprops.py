#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
R = "source/cpp/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Serialize followed by deserialize is the identity",
 "For every value of a message type generated from an accepted schema, serializing it and deserializing the output into a fresh object succeeds and yields an object equal to the original in every non-transient field, including which fields are absent. This holds for every field type, nesting and repetition, for every combination of schema options, and for every setting of the ensure_ascii and serialize_null parameters. (Floating-point values finite, elements of repeated strings present, text valid UTF-8 when ensure_ascii is set.)",
 ["inputs", "configurations"],
 "every message value (presence pattern x field values x nesting x list lengths) x schema options x parameters",
 "The tests round-trip nine hand-written objects, compare mostly the two JSON texts rather than the objects, and cover two of the schema options; presence patterns, nulls, empty strings, bytes and most values are never tried.",
 [R+"code.txt", R+"json.hh", R+"json-array.hh", R+"json-base64.hh", R+"json-number.hh", R+"json-string.hh", R+"protogen.hh", R+"cppgen.cc"],
 [("generated read_field/write/index functions", R+"code.txt"), ("read_object", R+"json.hh"), ("per-type json<> read/write pairs", R+"json-*.hh")],
 observe=["message.serialize", "message.deserialize", "message equality and field accessors"])

prop("C02", "Serialized output is exact, well-formed JSON",
 "Every successful serialization produces a single well-formed RFC 8259 JSON object holding each present non-transient field exactly once, under its JSON name, with exactly its value (repeated fields as arrays in order, messages as objects, bytes as padded base64), and nothing else; absent fields are omitted, or written as null, [] , \"\" or an object of such values when serialize_null is set. With ensure_ascii the output contains only ASCII bytes and decodes to the same text, and a value that cannot be represented (text that is not valid UTF-8 under ensure_ascii) makes the serialization fail instead of producing malformed output.",
 ["inputs", "configurations"],
 "every message value x parameters x schema options, including control characters, invalid UTF-8 and non-finite numbers (written as null)",
 "The tests only compare protogen's output with itself; no independent JSON parser looks at it, and control characters, invalid UTF-8, presence patterns and null handling are not sampled.",
 [R+"code.txt", R+"json-string.hh", R+"json-number.hh", R+"json-array.hh", R+"json-base64.hh", R+"cppgen.cc"],
 [("generated write function", R+"code.txt CODE_JSON__WRITE__*"), ("string escaping", R+"json-string.hh json<std::string>::write"), ("number formatting", R+"json-number.hh number_to_string")],
 observe=["message.serialize output bytes and return value"])

prop("C03", "Every Unicode text survives, raw or escaped",
 "Every Unicode scalar value, alone or next to others, is preserved by serialization and deserialization with and without ensure_ascii, and every escape form JSON allows for it (\\uXXXX in either hex case, surrogate pairs, the two-character escapes, raw UTF-8) decodes to its UTF-8 encoding, in field values and in field names alike. Escapes that denote no character (unpaired or misordered surrogates, bad hex digits, unknown escapes) are rejected, and under ensure_ascii every byte sequence that is not valid UTF-8 is refused.",
 ["inputs"],
 "all 1,112,064 scalar values, all 65,536 single \\u escapes, all 1,048,576 surrogate pairs, all ill-formed escape and UTF-8 shapes, at every context in a string",
 "The tests use five strings; the escape cases listed in test 4 sit behind its terminator and never run.",
 [R+"protogen.hh", R+"json-string.hh"],
 [("parse_string / parse_escaped_utf8", R+"protogen.hh"), ("ensure_ascii encoder", R+"json-string.hh json<std::string>::write")],
 state=[("lead", "pending first half of a surrogate pair", R+"protogen.hh parse_string")],
 observe=["string field after deserialize", "serialize output"])

prop("C04", "Deserialization accepts exactly schema-conforming JSON objects",
 "A document whose JSON value is a well-formed object in which each value given for a schema field is null or has that field's JSON type is accepted, whatever the field order and white space, and sets exactly the fields it names to exactly those values, leaving all other fields absent (a null field is absent, null array elements are skipped). A document that is truncated, not well-formed, or gives a field a value of another type is rejected. (Not covered: text after the object, repeated keys, raw control characters inside strings.)",
 ["inputs"],
 "every token sequence and every small edit of a document, for schemas with every field kind",
 "The tests parse a dozen documents, nearly all of them protogen's own output; white space between tokens, field order, type mismatches and truncations are hardly sampled.",
 [R+"protogen.hh", R+"json.hh", R+"json-array.hh", R+"json-number.hh", R+"json-string.hh", R+"json-base64.hh", R+"code.txt"],
 [("tokenizer", R+"protogen.hh"), ("read_object", R+"json.hh"), ("array reader", R+"json-array.hh"), ("iterator_istream", R+"protogen.hh")],
 state=[("current_", "one-token lookahead", R+"protogen.hh tokenizer")],
 observe=["deserialize result", "field accessors after deserialize"])

prop("C05", "Unknown and transient members are skipped without effect",
 "A member whose name is not the JSON name of a non-transient field of the schema is skipped whatever well-formed value it holds, at any nesting depth, size and position and in nested messages as well: the result is the same as if the member were not there. If the skipped value is not well-formed the document is rejected.",
 ["inputs"],
 "every JSON value shape up to a bound as the unknown member, at each position in top-level, nested and repeated objects; nesting depth to hundreds of thousands",
 "The tests skip one unknown empty object and two malformed ones; nested values, arrays, strings containing brackets, and deep nesting are never skipped.",
 [R+"protogen.hh", R+"json.hh", R+"code.txt", R+"cppgen.cc"],
 [("ignore_value / ignore_array / ignore_object", R+"protogen.hh"), ("index lookup returning -1", R+"code.txt CODE_JSON__INDEX__*"), ("is_transient", R+"cppgen.cc")],
 observe=["deserialize result", "object equality with and without the member"])

prop("C06", "Failures are reported with the right code and position",
 "When deserialization fails and parameters were given, the error information holds a code other than OK naming the kind of failure, a message, and the 1-based line and column of the token at which the document stops conforming (the end of input counts as a token); every newline before it counts. After a success the error information is clear, and in either case it depends only on the last operation, not on earlier ones that used the same parameters; the failing object stays usable and, once cleared, behaves as new. Error information is a value: new or cleared it reports no error, and two are equal exactly when code, line and column are.",
 ["inputs", "histories"],
 "every non-conforming document up to a bound in several layouts; every sequence of operations sharing one Parameters object up to a depth",
 "Test 4 checks eight documents in a fixed order, none failing at a string token or after a success.",
 [R+"protogen.hh", R+"json.hh", R+"json-array.hh", R+"json-string.hh", R+"json-number.hh", R+"json-base64.hh"],
 [("tokenizer::error and token positions", R+"protogen.hh"), ("iterator_istream line/column", R+"protogen.hh"), ("params->error handling in the entity macro", R+"json.hh")],
 state=[("error", "result of the last operation", R+"protogen.hh Parameters")],
 observe=["Parameters::error after each operation"])

prop("C07", "All input and output overloads are equivalent",
 "For the same bytes, deserializing from a std::string, a character buffer with a length, a std::vector<char>, a std::istream or a user-defined input stream gives the same result, object and error information, and never reads outside the given range; a std::istream's formatting flags are left as they were. For the same object, serializing to a std::string, a std::vector<char>, a std::ostream or a user-defined output stream produces the same bytes, and serializing to a character buffer writes those same bytes from its first position, never touches anything outside it, and succeeds exactly when they fit.",
 ["inputs"],
 "every document and object in the bounded sets x every overload x every buffer length around the needed one",
 "Test 5 exercises the overloads once but ORs its comparisons together and returns true regardless; the char-buffer overloads are not compared at all.",
 [R+"protogen.hh", R+"json.hh"],
 [("message::serialize/deserialize overloads", R+"protogen.hh"), ("iterator_ostream / iterator_istream, mem_iterator", R+"protogen.hh")],
 observe=["result, object, error, output bytes, guard bytes, stream flags"])

prop("C08", "No input crashes, hangs or corrupts the deserializer",
 "For every byte sequence, of any content, length and nesting depth, deserialization into a message or an array terminates in time about linear in the input and returns a verdict, without crashing, without undefined behaviour and without reading outside the input; the target object remains valid and can be serialized, cleared and reused.",
 ["inputs"],
 "all byte strings up to a length over the significant bytes in every parser context, all prefixes and all one-byte edits (256 values x every position) of a document corpus, size and depth ladders, and families of inputs (prefix, repeated unit, suffix) whose counted work is compared at two sizes",
 "The tests feed well-formed text and eight fixed errors; memory errors and hangs need particular truncations, bytes or depths.",
 [R+"protogen.hh", R+"json.hh", R+"json-array.hh", R+"json-base64.hh", R+"json-string.hh", R+"json-number.hh"],
 [("end-of-input checks in the tokenizer", R+"protogen.hh"), ("mem_const_iterator bounds", R+"protogen.hh")],
 observe=["process state under AddressSanitizer/UBSan, watchdog, deserialize result"])

prop("C09", "Numbers are stored and written exactly, in every locale",
 "Every value of every integer type and every finite float and double is written so that reading it back gives the identical value, and a JSON number is stored in a field exactly when the field's type can represent it: integer fields take precisely the integral values in their range however they are written, floating-point fields the nearest value. Text that is not a JSON number, a fraction for an integer field, or a magnitude out of range is rejected rather than stored altered. None of this depends on the C or C++ locale in force, which is left unchanged.",
 ["inputs", "configurations"],
 "every string over the number alphabet up to a length x every numeric type; boundary and bit-pattern values of each type; each under the C locale and a comma-decimal locale",
 "The tests use the maximum of each type in the C locale and a few small integers.",
 [R+"json-number.hh", R+"protogen.hh"],
 [("string_to_number / number_to_string", R+"json-number.hh"), ("parse_number", R+"protogen.hh")],
 observe=["field value after deserialize, serialize output, uselocale(0)/setlocale"])

prop("C10", "bytes fields carry arbitrary binary data as base64",
 "A bytes field, single or repeated, in any schema, is written as standard padded base64 (RFC 4648) of its contents and reading that back restores them, for every byte string of every length. Reading accepts every valid padded base64 string with exactly the decoded contents and rejects text that is not base64 (wrong length, foreign characters, misplaced padding).",
 ["inputs", "configurations"],
 "all byte strings up to length 2 (3 in thorough), length classes beyond; all strings over a base64-and-foreign alphabet up to length 5 (8 in thorough) as input",
 "No test reaches the base64 code: the one bytes field in the tests is serialized as an array of numbers.",
 [R+"json-base64.hh", R+"cppgen.cc"],
 [("base64 encoder/decoder", R+"json-base64.hh"), ("generateInclusions, fieldNativeType", R+"cppgen.cc")],
 observe=["bytes field after deserialize, serialize output, deserialize result"])

prop("C11", "Fields and messages behave as optional values",
 "A scalar or string field behaves as an optional value: absent when created or cleared, present with the assigned value after assignment (zero, false and the empty string included), and copying, assigning or swapping transfers presence and value together. Two fields are equal exactly when both are absent or both present with equal values; a message's equality, empty, clear, copy, assignment and swap act on all its fields accordingly, whatever operations came before, and a cleared object is indistinguishable from a new one.",
 ["histories"],
 "every sequence of operations up to a depth on a pair of fields of each kind and on a pair of messages",
 "The tests assign fields once on fresh objects; assigning absent over present values, swaps, reuse after clear and comparisons of absent fields are not covered.",
 [R+"json-number.hh", R+"json-string.hh", R+"code.txt", R+"json.hh"],
 [("class field", R+"json-number.hh"), ("class string_field", R+"json-string.hh"), ("generated empty/clear/equal/swap", R+"code.txt")],
 state=[("value_/empty_", "value and absence flag", R+"json-number.hh field"), ("value_/null_", "value and absence flag", R+"json-string.hh string_field")],
 observe=["field accessors, equality operators, serialize output"])

prop("C12", "The schema compiler accepts exactly its proto3 subset",
 "A schema in the supported proto3 subset (syntax, package, options, messages with scalar, bytes and message fields, repeated/optional, field options, comments) is accepted and understood exactly: its messages, fields with type, number and modifiers, options with type and value, and each type name, plain or package-qualified, bound to the message it denotes, before or after its declaration. A schema that is truncated, syntactically wrong, uses an unsupported construct, an unknown type, a field number outside 1..536870911 or inside 19000..19999, or the same field number, field name or message name twice is rejected.",
 ["programs"],
 "every token sequence up to a bound along and one step off the grammar, every prefix of a schema corpus, all field numbers around the boundaries",
 "The tests compile three valid schemas and never feed the compiler an invalid one.",
 ["source/proto3.cc", "include/protogen/proto3.hh"],
 [("Tokenizer and parse* functions", "source/proto3.cc")],
 observe=["Proto3::parse result (AST or protogen::exception)"])

prop("C13", "The schema compiler always terminates with a located diagnosis",
 "For every byte sequence given as a schema, parsing and generation terminate in time about linear and memory proportional to the input and the header, and either succeed or fail with the compiler's own exception carrying a message; no other exception, crash or hang. For a syntax error the exception carries the 1-based line and column of the token where the schema stops being valid, and comments, white space and line endings before it are counted correctly.",
 ["inputs"],
 "all strings up to a length over the significant characters, all prefixes and one-character edits of a schema corpus, in several layouts, and families of schemas (prefix, repeated unit, suffix) whose counted work is compared at two sizes",
 "No test gives the compiler malformed input, so end-of-input inside a comment, string or message and positions of errors are untested.",
 ["source/proto3.cc", "source/exception.cc", "source/main.cc"],
 [("InputStream, Tokenizer::comment/literalString/integer", "source/proto3.cc"), ("exception positions", "source/proto3.cc")],
 state=[("last_/ungot_/line_/column_", "character lookahead and position", "source/proto3.cc InputStream")],
 observe=["exception type, line and column; watchdog; memory limit"])

prop("C14", "Message references: any acyclic order compiles, cycles are rejected",
 "Whatever the order in which messages are declared and refer to one another (directly, repeated, several times), a schema whose reference graph has no cycle is accepted and yields a header that compiles, with every message defined exactly once, and a schema with a cycle of any length, self-references included, is rejected with an error naming a circular reference.",
 ["programs"],
 "all labelled digraphs with self-loops on up to 4 messages (5 in thorough), with plain and repeated references",
 "The test schemas declare every message before its use and contain no cycle.",
 ["source/cpp/cppgen.cc", "source/proto3.cc"],
 [("sort (depth-first with pending set)", "source/cpp/cppgen.cc"), ("late resolution of type names", "source/proto3.cc Proto3::parse")],
 observe=["generate result; compiling the header"])

prop("C15", "Every accepted schema yields a self-contained, conforming C++ header",
 "The header generated from an accepted schema compiles on its own as the first include of a translation unit, with g++ and clang++ from C++11 on, for every combination of field types, modifiers, options and package depth, and its members have the documented C++ types. Headers generated from different schema files can be included together, in any order, in one program. A schema whose names cannot be used in C++ (reserved words, names clashing with one another or with those the generated declarations use) or with more than 64 fields in a message is rejected rather than turned into a header that does not compile or work. (Not covered: names that are macros or global declarations of the standard library, and plain access to a field that has the name of a member of every generated class, such as 'clear' or 'message', or of its own message.)",
 ["programs", "configurations"],
 "all subsets of field kinds x options x package depth; all pairs of headers; all C++ keywords as names",
 "The tests compile three schemas with g++ in one order after including <string>, <vector>, <chrono> and friends, which hides missing includes; clang rejects the header.",
 ["source/cpp/cppgen.cc", R+"code.txt", R+"protogen.hh", R+"json.hh", R+"json-array.hh", R+"json-number.hh", R+"json-string.hh", R+"json-base64.hh"],
 [("generateInclusions", "source/cpp/cppgen.cc"), ("fieldNativeType", "source/cpp/cppgen.cc"), ("makeGuard", "source/cpp/cppgen.cc")],
 observe=["compiler exit status, static type assertions"])

prop("C16", "Schema options determine the JSON names and nothing else changes",
 "A field's JSON name is its number under number_names, otherwise its name option if given, otherwise its field name; obfuscate_strings and cpp_use_lists change neither the JSON written nor the JSON accepted, and transient fields are neither written nor read but keep their place in equality, clear and swap. With obfuscate_strings no JSON name appears in clear in the generated code, for names of any length and characters. Option values of the wrong type, names that cannot appear in a JSON string as they are, and two non-transient fields sharing a JSON name are rejected.",
 ["programs", "configurations"],
 "all combinations of the four file options and per-field options; every identifier character at every position of names of each length class",
 "Tests cover one obfuscated schema with one-digit names and one custom name; number_names without obfuscation is not even compiled.",
 ["source/cpp/cppgen.cc", R+"code.txt", R+"protogen.hh"],
 [("get_json_name / get_option / is_transient / obfuscate", "source/cpp/cppgen.cc"), ("reveal", R+"protogen.hh")],
 observe=["serialize output, deserialize result, generated text, compiler verdict"])

prop("C17", "The command reports success only for a complete header",
 "The protogen command exits with status 0 only if the whole schema was read and compiled and every byte of the complete header reached the output file or standard output; whatever open, read of the schema, write or close of the output fails, at whatever point, it exits non-zero with a diagnostic on standard error. On a schema error the diagnostic has the form path:line:column: error: and the exit status is non-zero.",
 ["fault_sequences"],
 "an output limit at every byte offset, every k-th read or write failing or being short, unusable input and output paths, every kind of schema error",
 "The build only runs the command on valid schemas with a working file system.",
 ["source/main.cc", "source/proto3.cc"],
 [("main", "source/main.cc")],
 observe=["exit status, stderr, output bytes"])

prop("C18", "Operations on distinct objects do not influence one another",
 "Serializing and deserializing distinct objects concurrently in several threads, interleaved in any way, gives each operation exactly the result, object, output and error information it gives when run alone; the same holds for parsing and generating distinct schemas. There is no data race, and concurrent read-only use of one object (serializing, comparing, reading) is safe.",
 ["schedules"],
 "all interleavings of 2-3 operations at stream-call granularity with up to 2 preemptions (3 in thorough); data races separately under ThreadSanitizer",
 "The tests are single-threaded.",
 [R+"protogen.hh", R+"json-number.hh", R+"code.txt", "source/proto3.cc", "source/cpp/cppgen.cc"],
 [("function-local statics (locale handle, field index map)", R+"json-number.hh, "+R+"code.txt"), ("all other state in per-call context objects", R+"json.hh json_context")],
 observe=["results of each operation compared with a solo run"])

prop("C19", "Generated code depends only on the meaning of the schema",
 "Comments, white space, line endings and the order of the fields inside a message do not change the header the command generates, and compiling the same schema again, in the same process after any other schemas (rejected ones included) or in another process, gives the identical header. Likewise the JSON a message is written to does not depend on the order its fields were assigned or declared.",
 ["programs", "histories"],
 "every token boundary x every kind of separator, all permutations of a message's fields, all sequences of compilations up to a depth",
 "The tests compile each schema once, in one layout.",
 ["source/proto3.cc", "source/cpp/cppgen.cc", "source/main.cc", "source/printer.cc"],
 [("skipws/comment", "source/proto3.cc"), ("std::sort of fields", "source/main.cc"), ("GeneratorContext per call", "source/cpp/cppgen.cc")],
 observe=["generated text"])

prop("C20", "Top-level arrays work like repeated fields",
 "Serializing a standard container of messages, numbers, booleans or strings as a top-level JSON array writes a well-formed array of exactly its elements in order, and deserializing such an array appends exactly the array's elements, through every overload of the array functions. Documents that are not a well-formed array of suitable elements are rejected with an error code and position, in the same way as for fields.",
 ["inputs", "histories"],
 "every container content up to a length x element types x container types x overloads; every token sequence up to a bound as input; repeated calls on one container",
 "Tests 9 and 10 round-trip one list of five people and an empty list; the buffer overload did not even compile.",
 [R+"json-array.hh"],
 [("serialize_array / deserialize_array", R+"json-array.hh"), ("container reader/writer", R+"json-array.hh")],
 observe=["container contents, output bytes, result, error"])

prop("C21", "Schema versions interoperate",
 "Data written under one version of a schema and read under another, where fields have been added, removed, reordered, made transient or (keeping the JSON name) renamed, is accepted; every field common to both versions, also inside nested and repeated messages, is preserved, every other field is ignored or absent.",
 ["configurations", "inputs"],
 "all ordered pairs of the sub-schemas of a schema with every field kind x message values",
 "The tests always read with the schema that wrote.",
 [R+"code.txt", R+"json.hh", R+"protogen.hh", "source/cpp/cppgen.cc"],
 [("unknown members ignored", R+"json.hh read_object"), ("field index lookup by name", R+"code.txt")],
 observe=["fields after cross-version deserialize"])

prop("C22", "The runtime library is embedded in generated code unaltered",
 "The build step that embeds the runtime library's source and the code templates in the compiler, and the compiler's printing of them, preserve the text: every line comes out as it went in, whatever characters it contains, except for the version placeholder, lines marked for removal, and, in the templates, the substitution of parameters and tabs.",
 ["inputs"],
 "every line of up to 3 characters over the characters special to either step, and every template/parameter arrangement up to a bound",
 "The tests see only the present sources pass through; nothing compares input and output.",
 ["source/template.cc", "source/printer.cc", "source/printer.hh"],
 [("copy / process", "source/template.cc"), ("Printer::print", "source/printer.cc")],
 observe=["text emitted by the embedded macros"])

prop("C23", "Deserializing adds a document to what the object holds",
 "Deserializing a document into an object that already holds data leaves every field the document does not name as it was, replaces the value of each number, boolean, string and bytes field it names, appends the elements of each array to the repeated field, and updates a message field member by member in the same way; the result is the same through every overload and indistinguishable from an object given these values directly, and after clear the object reads as a new one. (Not covered: null for a field that holds a value, and the fields of an object after a failure.)",
 ["histories", "inputs"],
 "all sequences of documents, assignments and clear on one object up to a depth, for every field kind and pair of fields",
 "The tests always deserialize into a new object.",
 [R+"json.hh", R+"code.txt", R+"json-array.hh", R+"json-number.hh", R+"json-string.hh", R+"json-base64.hh"],
 [("read_object / read_field", R+"json.hh"), ("container reader", R+"json-array.hh"), ("field readers", R+"json-number.hh")],
 observe=["fields of the object, equality, text"])

P.append(json.loads(r'''{"id": "C24", "title": "A failure in the middle of an operation leaves nothing behind", "statement": "When memory runs out (any single allocation, or all from some point on) or a stream throws in the middle of an operation of a generated message (reading, writing, copying, assigning, swapping, clearing, comparing), of the array functions, of the schema parser or of the generator, then the exception reaches the caller or the operation reports failure (or the std stream shows it); it never reports success with a wrong or truncated result. All memory is released, the objects involved stay valid (they can be copied, compared, written, cleared, reused and destroyed), the thread's locale, the global locale, the formatting flags of the stream and the caller's settings in Parameters are as before, and a failure at the first use does not spoil later uses. Without a failure, operations release all the memory they take.", "quantifier": {"over": ["faults", "inputs"], "text": "every allocation of every listed operation as the failing one (once, or from then on), every call on the stream as the throwing one, over documents right and wrong at every place and values of every field kind, also as the first operation of a process"}, "why_tests_cant": "The tests never run out of memory and no stream in them throws.", "anchors": {"files": ["source/cpp/protogen.hh", "source/cpp/json-number.hh", "source/cpp/json-array.hh", "source/cpp/json.hh", "source/cpp/code.txt", "source/proto3.cc", "source/cpp/cppgen.cc", "source/printer.hh"], "mechanism": [{"name": "flags guard of istream reading", "where": "source/cpp/protogen.hh"}, {"name": "locale switch for numbers", "where": "source/cpp/json-number.hh"}, {"name": "Proto3::parse / ~Message", "where": "source/proto3.cc"}, {"name": "Printer::format", "where": "source/printer.hh"}], "observe_at": ["exceptions and return values", "memory blocks alive", "locale and stream flags", "later operations on the same objects"], "hook_needed": null}}'''))

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
