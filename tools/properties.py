#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script only because the lines are long)"""
import json, os
S = "json_typegen_shared/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [S + f if not f.startswith("json_typegen") else f for f in files],
                     "mechanism": [{"name": n, "where": S + w if not w.startswith("json_typegen") else w} for n, w in mech],
                     "hook_needed": None}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    P.append(d)

p("C01", "Combining samples never loses one of them",
  "When several observed values are combined into one inferred shape (elements of an array, values of a map, records of a list, nodes selected by unwrapping), the result admits every one of them: nulls, absent fields, empty collections, integers next to floats, arrays of different lengths and values of unrelated kinds included. This holds however many values are combined, in whatever order and however deeply they are nested. Combining never panics and always terminates.",
  ["inputs"], "all finite collections of JSON values, any nesting and order, and all shapes that inference can produce from them",
  "The unit tests of merging compare about a dozen hand-written pairs of shapes; the guarantee quantifies over all pairs of shape trees and all ways of folding them.",
  ["shape.rs", "inference/jsoninfer.rs"],
  [("least common shape of two shapes", "shape.rs common_shape"), ("field-wise merge of records", "shape.rs common_field_shapes"), ("absent / null markers", "shape.rs Shape::into_optional, Shape::into_nullable"), ("folding many", "shape.rs fold_shapes; jsoninfer.rs infer_array, infer_map, optional_common_shape")],
  ["shape output mode of the library"])
p("C02", "Combining samples claims no more than was observed",
  "The combined shape is not looser than the observations call for: something is marked optional only if it was absent from some record, nullable only if null was observed there, floating point only if a fraction or exponent was observed, and unconstrained only if values of different kinds were observed there (numbers count as one kind); a record type has exactly the fields that were observed.",
  ["inputs"], "all finite collections of JSON values combined without map or opaque hints and without a map threshold",
  "Tests look at the exact result for a handful of samples; over-generalisation for some other combination (order, nesting, null mixed with absence) goes unnoticed because looser types still accept the sample.",
  ["shape.rs", "inference/jsoninfer.rs"],
  [("merge", "shape.rs common_shape, common_field_shapes, into_optional, into_nullable"), ("inference", "inference/jsoninfer.rs infer_shape, infer_object, infer_array")],
  ["shape output mode of the library"])
p("C03", "Reusing a type for another shape never rejects the sample",
  "When a generator reuses an already generated type for a later structure instead of defining a new one, every value that the later structure admits is also admitted by the reused type. In particular a type whose field is nullable, optional or of another type is not confused with one whose field differs in that respect.",
  ["inputs"], "all pairs of shapes; all samples in which several objects have the same field names",
  "Reuse only happens when two differently located objects look alike; the tests contain two such samples and compare text, while the guarantee is about every pair of shapes.",
  ["shape.rs", "generation/rust.rs", "generation/typescript.rs", "generation/kotlin.rs", "generation/python.rs"],
  [("substitution test", "shape.rs Shape::is_acceptable_substitution_for"), ("reuse of created types", "generation/rust.rs generate_struct_from_field_shapes; generation/python.rs; generation/kotlin.rs")],
  ["generated Rust, Python and Kotlin definitions"])
p("C04", "JSON strings are decoded exactly as RFC 8259 says",
  "A string token decodes to the text that RFC 8259 gives it: every simple escape, \\uXXXX in upper or lower case, surrogate pairs combined into one character, and everything else passed through byte for byte as UTF-8. A lone or mispaired surrogate, an unknown escape, invalid UTF-8 or an unterminated string is reported as an error, never decoded to something else and never a panic.",
  ["inputs"], "all byte sequences between the quotes of a string literal",
  "Tests decode seven literals; the escape grammar has 2^16 code units and 2^20 surrogate pairs, plus all their invalid neighbours.",
  ["inference/jsonlex.rs"],
  [("string scanner", "inference/jsonlex.rs JsonLexer::match_string"), ("hex escapes", "inference/jsonlex.rs JsonLexer::parse_codepoint")],
  ["field names in the generated code"])
p("C05", "Reading any bytes ends in tokens or one error, never a panic",
  "For every byte sequence, tokenising terminates without panicking or overflowing; it yields the tokens of a prefix of the input in order and at most one error, after which nothing more is produced. White space never changes the tokens, punctuation and literals are recognised exactly, and a number token is the verbatim maximal run of number characters.",
  ["inputs"], "all finite byte sequences, including invalid UTF-8, truncated input and read errors at any point",
  "The tests feed about fifteen short well-formed snippets and two malformed ones.",
  ["inference/jsonlex.rs", "inference/jsoninputerr.rs"],
  [("token dispatch", "inference/jsonlex.rs JsonLexer::get_next_token"), ("error latch", "inference/jsonlex.rs Iterator::next"), ("numbers and literals", "inference/jsonlex.rs match_number, match_token")],
  ["result of code generation on arbitrary input"])
p("C06", "The inferred shape admits the sample it was inferred from",
  "For every well-formed JSON sample, inference succeeds and the shape it returns admits that sample: each scalar has its own kind (numbers with a fraction or exponent are floating point), arrays admit all their elements also beyond the first dozen, objects have all their keys, and with a map threshold the large objects become maps that admit all their values. The document is read to the end of its value.",
  ["inputs", "configurations"], "all well-formed JSON documents of any size and nesting (a repeated key counts with its last value), with any map threshold, without hints",
  "Inference tests use small flat samples; lengths around the internal tuple limit, deep nesting, and thresholds are combinations tests sample at a few points.",
  ["inference/jsoninfer.rs", "shape.rs"],
  [("recursive inference", "inference/jsoninfer.rs Inference::infer_shape, infer_object, infer_array, infer_map")],
  ["shape output mode of the library"])
p("C07", "Samples that are not JSON are rejected",
  "If the tokens of a sample do not start with a grammatical JSON value (missing or doubled commas or colons, trailing commas, mismatched or unclosed brackets, keys that are not strings, an error inside), an error is returned instead of a type. This also covers the parts of the document that unwrapping or an opaque-type hint skip over.",
  ["inputs", "configurations"], "all token sequences, all unwrap pointers, all hints",
  "Tests reject six malformed samples; the grammar has unboundedly many ways to be violated, in particular inside parts whose shape is discarded.",
  ["inference/jsoninfer.rs"],
  [("expecting tokens", "inference/jsoninfer.rs next_token, expect_token"), ("object and array loops", "inference/jsoninfer.rs infer_object, infer_array, unwrap")],
  ["result of code generation"])
p("C08", "Hints take effect exactly where their pointer says",
  "A hint applies to a value exactly when its JSON pointer, with '-' standing for any key or index, addresses that value's position in the sample, at any depth and any array index. Where an opaque hint applies the value becomes that type whatever it is; where a map hint applies an object becomes a map and anything else is an error; everywhere else inference is as without hints.",
  ["inputs", "configurations"], "all pointers (without ~ escapes) and sets of hints, all positions in all documents, array indices of any size; when unwrapping, pointers are relative to the selected nodes; an opaque type absorbs what it is combined with",
  "Three tests step hints by one level; pointer matching composes over depth and index and interacts with array position.",
  ["hints.rs", "inference/jsoninfer.rs"],
  [("stepping hints into children", "hints.rs Hints::step, step_field, step_index"), ("applying hints", "inference/jsoninfer.rs infer_shape"), ("passing hints down", "inference/jsoninfer.rs infer_object, infer_array")],
  ["shape output mode of the library"])
p("C09", "Unwrapping infers from exactly the nodes it points at",
  "With an unwrap pointer the inferred shape is the combination of exactly the nodes whose position matches the pointer ('-' matching every key and every index): it admits each of them, and nodes elsewhere have no influence. If no node matches, that is reported as an error, not as a type.",
  ["inputs", "configurations"], "all pointers (without ~ escapes; one without a leading slash is read as if it had one) and all well-formed documents",
  "Five tests unwrap one level of two-element documents.",
  ["inference/jsoninfer.rs"],
  [("pointer walk", "inference/jsoninfer.rs Inference::unwrap, shape_from_json"), ("combining matches", "inference/jsoninfer.rs optional_common_shape")],
  ["shape output mode of the library"])
p("C10", "Generated Rust names are legal identifiers",
  "Whatever the root name and the JSON keys are, every struct and field name in generated Rust is a legal Rust identifier and not a reserved word: never empty, never starting with a digit, made of ASCII letters, digits and underscores. This does not depend on the characters of the key.",
  ["inputs"], "all Unicode strings as root name and as keys (a root that is not a record gets the requested name verbatim as an alias), including empty, symbolic, non-Latin, keyword and digit-leading ones",
  "Tests try a few dozen names; the guarantee is over all strings.",
  ["util.rs", "generation/rust.rs", "generation/kotlin.rs"],
  [("cleaning", "util.rs sanitize, snake_case, lower_camel_case, type_case"), ("names", "generation/rust.rs type_or_field_name"), ("reserved words", "generation/rust.rs RUST_KEYWORDS_ARR")],
  ["generated Rust"])
p("C11", "Generated Kotlin, Python and TypeScript names are legal",
  "Whatever the root name and the JSON keys are, every class, interface, schema and field name in generated Kotlin, Python and TypeScript is a legal identifier that is not reserved where it stands, or, for TypeScript properties, a correctly quoted string. Names are never empty and never start with a digit.",
  ["inputs"], "all Unicode strings as root name and keys (a root that is not a record gets the requested name verbatim, as does the root of a TypeScript alias or zod schema)",
  "Tests try a handful of names per language.",
  ["util.rs", "generation/kotlin.rs", "generation/python.rs", "generation/typescript.rs", "generation/typescript_type_alias.rs", "generation/zod_schema.rs"],
  [("Kotlin names", "generation/kotlin.rs type_or_field_name"), ("Python names", "generation/python.rs type_or_field_name"), ("TypeScript names", "generation/typescript.rs type_name; generation/typescript_type_alias.rs is_ts_identifier")],
  ["generated code"])
p("C12", "Distinct keys and types get distinct names",
  "Within one generated type all field names are distinct, and within one generated file all type names are distinct, even when different JSON keys clean up to the same identifier or collide with names the generator uses itself. No key of the sample is dropped because of a collision.",
  ["inputs"], "all sets of keys and all nestings of objects; the requested root name has no surrounding white space",
  "Collisions need keys chosen to clean up to the same name, also after a numeric suffix was added; tests contain one such pair.",
  ["generation/rust.rs", "generation/kotlin.rs", "generation/python.rs", "generation/typescript.rs"],
  [("suffixing", "generation/rust.rs type_or_field_name; generation/kotlin.rs type_or_field_name; generation/python.rs type_or_field_name; generation/typescript.rs type_name"), ("used-name sets", "generation/rust.rs field_name, type_name")],
  ["generated code"])
p("C13", "Generated fields keep the JSON key they came from",
  "For every field of every generated type the key used when (de)serialising is the JSON key of the sample, whatever characters it contains and whichever property-naming option is set: either the identifier itself is the key, or an annotation gives the key as a correctly escaped literal.",
  ["inputs", "configurations"], "all Unicode keys, all output modes, all property-name formats",
  "Tests cover a few keys with spaces and dashes; quotes, backslashes, '$' and case-format round trips are combinations outside them.",
  ["generation/rust.rs", "generation/kotlin.rs", "generation/python.rs", "generation/typescript.rs", "generation/zod_schema.rs", "generation/serde_case.rs"],
  [("rename attributes", "generation/rust.rs generate_struct_from_field_shapes; generation/kotlin.rs; generation/python.rs"), ("case formats", "generation/serde_case.rs RenameRule::apply_to_field"), ("property keys", "generation/typescript.rs; generation/zod_schema.rs")],
  ["generated code"])
p("C14", "Generated Rust types accept the sample they came from",
  "Deserialising the sample with the generated Rust types succeeds under serde's rules: every object is a struct with all its keys or a map, absent fields are Option or defaulted, null positions are Option, numbers and collections have types wide enough, and every type name used is defined or imported.",
  ["inputs", "configurations"], "all well-formed samples without repeated keys whose integers fit in i64 (not -0), all combinations of the Rust options except deny_unknown_fields together with collect_additional",
  "Tests compare generated text for a dozen samples and compile a few; options interact with optional, nullable, tuple and empty shapes.",
  ["generation/rust.rs", "shape.rs"],
  [("type expressions", "generation/rust.rs type_from_shape, type_from_field_shape"), ("structs", "generation/rust.rs generate_struct_from_field_shapes"), ("collapsing options and lists", "generation/rust.rs collapse_option, collapse_option_vec")],
  ["generated Rust"])
p("C15", "Generated TypeScript, Zod, Kotlin and Python accept the sample",
  "The types or schemas generated for TypeScript (both modes), Zod, Kotlin and Python accept the sample they were generated from: arrays, tuples, unions with null or undefined, optional fields, maps and nested objects are written with the grouping and markers that language needs.",
  ["inputs"], "all well-formed samples without repeated keys, each of the output modes; Pydantic 1 semantics; a nullable Kotlin property may be absent; z.unknown() accepts absence",
  "Tests compare text for a few samples per mode and parse none of it.",
  ["generation/typescript.rs", "generation/typescript_type_alias.rs", "generation/zod_schema.rs", "generation/kotlin.rs", "generation/python.rs"],
  [("type expressions", "generation/typescript.rs type_from_shape; generation/typescript_type_alias.rs type_from_shape; generation/zod_schema.rs type_from_shape; generation/kotlin.rs type_from_shape; generation/python.rs type_from_shape")],
  ["generated code"])
p("C16", "JSON Schema and shape output is well-formed JSON",
  "The output in JSON Schema mode and in shape mode is one well-formed JSON document for every sample, whatever characters the keys and names contain, and contains each object key exactly as in the sample.",
  ["inputs"], "all samples with arbitrary Unicode keys and titles",
  "Tests print a few documents with plain ASCII keys.",
  ["generation/value.rs", "generation/json_schema.rs", "generation/shape.rs"],
  [("printing", "generation/value.rs pretty_print_value"), ("building", "generation/json_schema.rs, generation/shape.rs")],
  ["JSON Schema and shape output"])
p("C17", "The generated JSON Schema validates the sample",
  "The sample validates against the JSON Schema generated from it, under the standard meaning of type, properties, required, items, anyOf and additionalProperties: required lists only keys present in every record, nulls are allowed where null was observed, and array items cover every element.",
  ["inputs"], "all well-formed samples",
  "Tests compare the text of a few schemas; none validates an instance.",
  ["generation/json_schema.rs", "shape.rs"],
  [("schema construction", "generation/json_schema.rs")],
  ["JSON Schema output"])
p("C18", "Generated Rust refers only to what is imported or spelled out",
  "For every import style, each name used in generated Rust from outside the prelude (serialisation derives, map and value types) is either written as a full path or has exactly one import, and no unused or duplicate import is emitted.",
  ["inputs", "configurations"], "all samples, all import styles, all derive lists and visibilities",
  "Tests look at three configurations.",
  ["generation/rust.rs"],
  [("imports", "generation/rust.rs import, rust_types")],
  ["generated Rust"])
p("C19", "SQL table definitions map to the right field types",
  "For SQL input every column of the table becomes a field with the column's name; its kind follows the column type (integers, text, booleans, dates; others are left open), and it is nullable exactly if the column may be null. Input without a table is an error, not a panic.",
  ["inputs"], "all CREATE TABLE statements the SQL parser accepts; the kind is prescribed for integer, character and text, boolean, and date/datetime/timestamp types, other types may map to anything",
  "Tests use two tables; column types, options and constraints combine.",
  ["sql.rs", "lib.rs"],
  [("column mapping", "sql.rs sql_to_shape")],
  ["shape output mode with SQL input"])
p("C20", "Every option name is accepted and means what it says",
  "Each documented spelling of an output mode, import style, string transform and input mode parses to the corresponding option and to no other, and any other string is rejected. Parsing is the inverse of the documented names for every value.",
  ["inputs", "configurations"], "all strings offered as option values",
  "Tests exercise a few of the spellings; the mapping is a finite table over an infinite set of strings.",
  ["options.rs", "parse.rs"],
  [("parsing", "options.rs OutputMode::parse, ImportStyle::parse, StringTransform::parse, InputMode::parse")],
  ["command-line and macro options"])
p("C21", "Root name, visibility and trailing newline are as requested",
  "A leading 'pub' or 'pub(...)' in the requested name selects the visibility and is removed from the name, any other name is kept; and every successful generation ends in exactly one newline with no trailing blanks. The sample text is taken as inline JSON exactly when it starts, after white space, with an object or array.",
  ["inputs", "configurations"], "all names and all samples",
  "Tests cover four names and a few outputs.",
  ["lib.rs"],
  [("visibility prefix", "lib.rs handle_pub_in_name"), ("final newline", "lib.rs codegen_from_shape"), ("source kind", "lib.rs infer_source_type")],
  ["generated code"])
p("C22", "The command line never destroys the output file on failure",
  "When the command-line tool is given an output file and generation fails, an existing file of that name keeps its contents; on success it holds exactly the generated code.",
  ["inputs", "fault_sequences"], "all arguments and failures of reading, parsing or generating",
  "The command-line tests run successful invocations only.",
  ["json_typegen_cli/src/main.rs"],
  [("writing the result", "json_typegen_cli/src/main.rs main_with_result")],
  ["file system"])
p("C23", "Macro input is parsed as written",
  "The options and sample given to the procedural macro are parsed to the same configuration as the equivalent library call, and malformed macro input is reported as a compile error at the call and nothing else.",
  ["programs"], "all token sequences that can be passed to the macro",
  "Tests parse three option blocks.",
  ["parse.rs", "json_typegen/src/lib.rs"],
  [("macro grammar", "parse.rs"), ("error expansion", "json_typegen/src/lib.rs json_typegen")],
  ["expansion of the macro"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
