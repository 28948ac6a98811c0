#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, then re-run."""
import json, os
P = "prost-reflect/src/"
DYN = [P+"dynamic/mod.rs", P+"dynamic/message.rs", P+"dynamic/fields.rs", P+"dynamic/unknown.rs"]
SER = [P+"dynamic/serde/ser/mod.rs", P+"dynamic/serde/ser/wkt.rs", P+"dynamic/serde/mod.rs", P+"dynamic/serde/case.rs"]
DE = [P+"dynamic/serde/de/mod.rs", P+"dynamic/serde/de/kind.rs", P+"dynamic/serde/de/wkt.rs", P+"dynamic/serde/mod.rs", P+"dynamic/serde/case.rs"]
TXT = [P+"dynamic/text_format/format.rs", P+"dynamic/text_format/mod.rs"]
TXP = [P+"dynamic/text_format/parse/mod.rs", P+"dynamic/text_format/parse/lex.rs", P+"dynamic/text_format/parse/error.rs"]
BLD = [P+"descriptor/build/mod.rs", P+"descriptor/build/names.rs", P+"descriptor/build/resolve.rs", P+"descriptor/build/options.rs", P+"descriptor/build/visit.rs"]
API = [P+"descriptor/api.rs", P+"descriptor/mod.rs", P+"descriptor/types.rs"]
rows = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    rows.append(d)

p("C01", "Binary encode/decode round trip of dynamic messages",
  "For every schema and every message value a user can build through the dynamic API (all scalar kinds, enums, nested messages, groups, lists, maps, oneofs, extensions), encoding the message and decoding the bytes with the same descriptor gives back a message with the same field values and presence. The reported encoded length is exactly the number of bytes written, including for nested messages and length-delimited framing, and encoding the decoded message again gives the same bytes.",
  ["inputs", "configurations"], "all valid schemas (proto2 and proto3) and all message values over them",
  "The tests encode a few fixed schemas (scalars, arrays, maps, WKTs) with proptest values; packed/unpacked overrides, groups in lists, extensions, explicit defaults, closed oneofs and negative enum numbers combine only in generated schemas.",
  DYN, [("encode_raw / encoded_len / merge_field", P+"dynamic/message.rs"), ("Value wire codec", P+"dynamic/message.rs")],
  ["DynamicMessage::encode", "encoded_len", "DynamicMessage::decode", "encode_length_delimited"],
  [("fields", "ordered map from field number to known value, unknown value or taken marker", P+"dynamic/fields.rs")])
p("C02", "Decoding follows the protobuf wire-format rules for every valid stream",
  "Decoding any valid protobuf byte stream, however it was produced, yields exactly the message the protobuf specification prescribes: repeated scalars accepted packed, unpacked or mixed, last value wins for singular scalars, singular submessages and groups merge, later oneof members replace earlier ones, map entries may repeat keys, reorder or omit key and value, and non-minimal varints are understood. Decoding a concatenation of two encodings equals decoding the first and then merging the second, and merging never disturbs fields absent from the merged bytes.",
  ["inputs", "histories", "configurations"], "all valid schemas, all well-formed wire streams over them (any field order, splitting, packing and duplication), all splits into successive merges",
  "The existing tests decode bytes produced by an encoder, so non-canonical streams (mixed packing, split submessages, oneof overrides, key-less map entries, interleaved groups) are covered by at most one hand-written case each.",
  DYN[:3], [("merge_field / Value::merge_field / merge_packed", P+"dynamic/message.rs"), ("get_mut clears oneof siblings", P+"dynamic/fields.rs")],
  ["DynamicMessage::decode", "DynamicMessage::merge", "get_field_by_number", "has_field_by_number"])
p("C03", "Unknown fields survive every pass through an older schema",
  "Data that a schema does not describe is never lost: decoding with a descriptor that lacks some fields (at any nesting level, of any wire type, including groups) and encoding again yields bytes from which a reader with the full schema recovers the complete original message. Unknown fields are reported through the reflection API with their numbers, wire values and order, can be taken or cleared, and never shadow or alter known fields.",
  ["inputs", "configurations", "histories"], "all pairs (full schema, schema with fields removed), all messages, all interleavings of known and unknown fields",
  "Tests use one hand-written message with a couple of unknown fields; repeated occurrences of one unknown number, unknown groups, unknown fields inside list elements, maps and oneofs are unsampled.",
  DYN, [("UnknownField decode/encode", P+"dynamic/unknown.rs"), ("unknown entries in the field set", P+"dynamic/fields.rs")],
  ["unknown_fields", "take_unknown_fields", "encode"])
p("C04", "Dynamic and generated (prost) messages interoperate losslessly",
  "For a type known both as a generated prost struct and as a descriptor, transcoding typed to dynamic and back returns an equal struct for every value, the dynamic message exposes exactly the struct's field values, and each encodes to bytes the other reads as the same value, of the same length unless there are map entries (generated structs leave out default keys and values). Merging a typed value into a dynamic message has the effect of merging the structs. The reflect implementation of generated and well-known types returns the descriptor of that type, and typed values can be read from JSON or text parsed dynamically.",
  ["inputs"], "all values of the generated types, including well-known types, proto2 types, groups, enums, oneofs, maps, and types produced by the build and derive crates",
  "The tests run proptest over five message types of one file and never over proto2, extensions, groups or generated well-known types.",
  DYN[:2]+[P+"reflect/mod.rs", P+"reflect/wkt.rs", "prost-reflect-derive/src/lib.rs", "prost-reflect-build/src/lib.rs"],
  [("transcode_from / transcode_to", P+"dynamic/mod.rs"), ("ReflectMessage", P+"reflect/mod.rs"), ("derive macro", "prost-reflect-derive/src/lib.rs")],
  ["transcode_from", "transcode_to", "transcode_to_dynamic", "ReflectMessage::descriptor"])
p("C05", "Arbitrary bytes never crash the binary decoder",
  "Decoding any byte string with any message descriptor returns a message or an error and never panics, overflows the stack or loops; truncated input, bad wire types, over-long varints, unbalanced groups and invalid UTF-8 in string fields are rejected. When it is accepted, the resulting message re-encodes to bytes that decode to the same message.",
  ["inputs", "configurations"], "all byte strings (random, mutated-valid and deeply nested) and all schemas",
  "Tests decode a handful of malformed inputs; the space of truncations and mutations is unbounded.",
  DYN, [("merge_field", P+"dynamic/message.rs"), ("unknown field decode with recursion limit", P+"dynamic/unknown.rs")], ["DynamicMessage::decode", "DynamicMessage::merge"])
p("C06", "The reflection API behaves as a map with presence and oneof rules",
  "After any sequence of set, get, get-mutable, clear, take, has and iteration calls (by descriptor, name, number or extension) a message holds exactly the values a simple model predicts: a read returns the last value written or the field's default, presence follows proto2/proto3 rules, at most one member of a oneof is set, and the iterators yield each populated field exactly once with its value. Taking removes and returns the value, clones are independent, and lookups by name, number and descriptor address the same field.",
  ["histories", "configurations", "inputs"], "all sequences of reflection operations on all schemas, compared after every step",
  "Unit tests perform isolated operations; the interaction of oneof exclusivity, taken markers, default-valued entries, unknown fields and extensions appears only in longer histories.",
  DYN[:3], [("field set operations", P+"dynamic/fields.rs"), ("DynamicMessage API", P+"dynamic/mod.rs")],
  ["get_field", "set_field", "has_field", "clear_field", "take_field", "get_field_mut", "fields", "fields_mut", "take_fields", "extensions", "take_extensions", "*_by_name", "*_by_number"])
p("C07", "Setting a value of the wrong type is refused without side effects",
  "The checked setters succeed whenever the named or numbered field exists and the value is of the field's type (for lists every element, for maps every key and value); a value that cannot be encoded as the field is refused with the matching error, which hands back the field and the value, and leaves the message unchanged, so it never becomes readable through the field. A value accepted by the check can always be encoded.",
  ["inputs", "configurations", "histories"], "all (field, value) pairs over all schemas, with the message in any prior state",
  "Tests try three combinations of a type mismatch.",
  [P+"dynamic/mod.rs", P+"dynamic/fields.rs"], [("is_valid_for_field / try_set_field", P+"dynamic/mod.rs")],
  ["try_set_field", "try_set_field_by_name", "try_set_field_by_number", "try_set_extension", "Value::is_valid", "Value::is_valid_for_field", "SetFieldError"])
p("C08", "JSON round trip under every serialization option",
  "For every schema and every message without unknown fields, serializing to JSON under any combination of the serialization options and deserializing with the same descriptor gives back a message with the same field values and presence (up to presence of default values in messages that cannot represent it), whatever serde data format carries it. Values representable only specially (64-bit integers, non-finite floats, bytes, unknown enum numbers, extensions, map keys, well-known types) are included.",
  ["inputs", "configurations"], "all schemas, all message values, all 16 option combinations, string, value-tree and reader front ends",
  "The tests round-trip three typed messages with proptest under default options and check others on fixed literals.",
  SER+DE, [("serialize_message", P+"dynamic/serde/ser/mod.rs"), ("deserialize_message", P+"dynamic/serde/de/mod.rs")],
  ["serialize_with_options", "deserialize_with_options", "Serialize impl"])
p("C09", "JSON output is the canonical protobuf JSON mapping",
  "The JSON produced for any message is exactly the canonical mapping of its content: lowerCamelCase or custom JSON names (original names, enum numbers, plain 64-bit integers and default-valued fields when the options ask for them), base64 bytes, string 64-bit integers, quoted non-finite floats, bracketed extension names, string map keys, and the special forms of well-known types, with nothing missing or added.",
  ["inputs", "configurations"], "all schemas, all message values, all 16 option combinations",
  "The tests compare a fixed set of literals; names, defaults, oneofs, extensions, options and WKT combinations are unbounded.",
  SER, [("serialize_message / serialize value", P+"dynamic/serde/ser/mod.rs"), ("WKT serializers", P+"dynamic/serde/ser/wkt.rs")], ["serialize_with_options"])
p("C10", "JSON input: every equivalent spelling accepted, invalid values rejected",
  "Every spelling of a value that the protobuf JSON mapping allows (either field name, any key order, quoted or integral-float numbers, enum name or number, either base64 alphabet with or without padding, null for absent) parses to the same message. A document with an unknown field (when denied), out-of-range or fractional integer, wrong JSON type, unknown enum name, invalid base64, two members of one oneof, or null inside a list is rejected with an error, and unknown fields are skipped when allowed.",
  ["inputs", "configurations"], "all schemas and messages, all legal respellings of their JSON, and all single faults injected into it",
  "The tests list some literals per kind; the product of kind, position (singular, list, map value, map key, extension, oneof) and spelling is not covered.",
  DE, [("deserializers per kind", P+"dynamic/serde/de/kind.rs"), ("message visitor", P+"dynamic/serde/de/mod.rs")], ["deserialize_with_options"])
p("C11", "Arbitrary JSON never crashes the deserializer",
  "Deserializing any JSON document (well-formed or not, of any shape) with any message descriptor returns a message or an error and never panics or overflows the stack; an accepted document yields a message in which every value has its field's type, and which serializes to JSON again and parses to the same message whenever its content is representable.",
  ["inputs", "configurations"], "all JSON documents against all schemas including well-known types",
  "The tests try fixed documents only.",
  DE, [("message and WKT visitors", P+"dynamic/serde/de/wkt.rs")], ["DynamicMessage::deserialize"])
p("C12", "Well-known types map to and from their JSON forms",
  "Timestamps, durations, field masks, wrappers, structs, values, lists, empty and any messages serialize to and parse from the special JSON forms of the protobuf specification, wherever they occur (top level, field, list, map, inside any), for their whole valid range and exactly: the represented instant, span, paths or value is preserved. Values outside the valid range or not representable, unresolvable type URLs and malformed forms are rejected with an error, never silently altered.",
  ["inputs", "configurations"], "all values in and around the valid range of each well-known type and all positions it can occur in",
  "Tests fix a dozen literals per type; leap years, nanosecond rendering, offsets, sign combinations, nesting of any and path casing have unbounded variants.",
  [P+"dynamic/serde/ser/wkt.rs", P+"dynamic/serde/de/wkt.rs", P+"dynamic/serde/case.rs"], [("WKT serializers and deserializers", P+"dynamic/serde/ser/wkt.rs"), ("case conversion", P+"dynamic/serde/case.rs")],
  ["serialize_with_options", "deserialize_with_options"])
p("C13", "Text format round trip under every format option",
  "For every schema and every message, printing to the text format under any combination of format options (except those documented to drop data) and parsing with the same descriptor gives back a message with the same field values and presence. Strings and bytes of any content, non-finite and negative-zero floats, groups, extensions, maps, unknown enum numbers and expanded any messages are included.",
  ["inputs", "configurations"], "all schemas, all message values, all 32 option combinations, Display/Debug front ends",
  "The tests round-trip three typed messages with proptest under two option settings.",
  TXT+TXP, [("Writer", P+"dynamic/text_format/format.rs"), ("Parser", P+"dynamic/text_format/parse/mod.rs")], ["to_text_format_with_options", "parse_text_format"])
p("C14", "Text input: every equivalent spelling accepted, invalid input rejected",
  "Every spelling the text-format specification allows (decimal, hex and octal numbers, float suffixes, escapes and adjacent string literals, either quote, colon and separator variants, angle brackets, list shorthand, comments and whitespace, enum names or numbers, expanded any, extension names) parses to the same message. Input with an unknown field or enum value, out-of-range number, wrong value kind, repeated singular field, two members of a oneof, an unterminated construct or trailing garbage is rejected with an error locating the fault inside the source.",
  ["inputs", "configurations"], "all schemas and messages, all legal respellings of their text, and all single faults injected into it",
  "The tests list literals per token kind; spellings and faults in combination with field kinds and positions are unbounded.",
  TXP, [("lexer", P+"dynamic/text_format/parse/lex.rs"), ("parser", P+"dynamic/text_format/parse/mod.rs"), ("error labels", P+"dynamic/text_format/parse/error.rs")], ["parse_text_format", "merge_text_format", "ParseError"])
p("C15", "Arbitrary text never crashes the text-format parser",
  "Parsing any string with any message descriptor returns a message or an error and never panics or overflows the stack, and every span in an error lies on character boundaries within the source. An accepted text yields a message in which every value has its field's type and which prints and parses back to the same message.",
  ["inputs", "configurations"], "all strings (random, token soup, mutated-valid, deeply nested) against all schemas",
  "The tests try fixed strings only.",
  TXP, [("lexer and parser", P+"dynamic/text_format/parse/mod.rs")], ["parse_text_format", "ParseError labels"])
p("C16", "Text output options do what they document and nothing else",
  "The text printed for any message lists exactly its populated fields and content: pretty and compact output have the same tokens, default-valued fields appear only when asked, unknown fields appear only when not skipped, fields are in number order or declaration order as selected, and any messages are expanded exactly when the type is known and its content decodes. An option left unset has its documented default.",
  ["inputs", "configurations"], "all schemas, all message values (with unknown fields), all 32 option combinations",
  "Tests compare a few fixed messages under a few option settings.",
  TXT, [("Writer", P+"dynamic/text_format/format.rs"), ("field iteration", P+"dynamic/fields.rs")], ["to_text_format_with_options", "Display", "Debug"])
p("C17", "Descriptors describe exactly what the schema files say",
  "For every valid set of files, the descriptor pool exposes every file, message, field, oneof, enum, enum value, extension, service and method exactly once with the attributes written in (or implied by) the file: names and full names, parents, packages, paths, numbers, kinds and target types, cardinality, packing, presence, required-ness, JSON names, default values, map and group structure, reserved and extension ranges, method types and streaming. Lookups by name, JSON name, number, full name and index agree with iteration and return nothing for absent keys.",
  ["configurations", "inputs"], "all valid file descriptor sets (proto2 and proto3, nested, multi-file, multi-package)",
  "Tests inspect a few fixed schemas via snapshots and assertions.",
  API+BLD[:3], [("resolve", P+"descriptor/build/resolve.rs"), ("accessors", P+"descriptor/api.rs")], ["DescriptorPool", "FileDescriptor", "MessageDescriptor", "FieldDescriptor", "ExtensionDescriptor", "EnumDescriptor", "OneofDescriptor", "ServiceDescriptor", "MethodDescriptor"],
  [("names", "fully-qualified name to definition", P+"descriptor/mod.rs")])
p("C18", "Names resolve by protobuf scoping and import rules",
  "A type name in a field, extension or method resolves to the definition protobuf scoping rules select: absolute names exactly, relative names in the innermost enclosing scope that defines the first component, and only among definitions in the same file, its imports and what those import publicly (transitively). A name with no visible definition of the right kind is rejected, and spelling a reference relatively or absolutely gives the same descriptor.",
  ["configurations", "inputs"], "all import graphs (public and private), package structures and shadowing patterns, and all spellings of each reference",
  "The tests have a handful of fixed files with one or two scopes and a single public import.",
  [P+"descriptor/build/resolve.rs", P+"descriptor/build/names.rs", P+"descriptor/build/mod.rs"], [("resolve_name / resolve_public_dependencies", P+"descriptor/build/resolve.rs")], ["DescriptorPool::from_file_descriptor_set", "FieldDescriptor::kind", "MethodDescriptor::input"])
p("C19", "Invalid schemas are rejected, valid ones accepted",
  "Every file set that protoc produces is accepted, and a set with a definite fault is rejected with an error whose file, path, line and column, where it has them, are those of the fault, and so are the places it marks in the source text: duplicate definitions or field names, numbers or JSON names, colliding enum values, field numbers out of range or reserved, missing or ill-formed names, missing types, unresolved or wrong-kind references, missing imports, extension numbers outside the declared ranges or used twice, bad oneof indices, invalid defaults, empty enums or a proto3 enum not starting at zero, and ill-formed map entries. Describing the error never fails.",
  ["configurations", "inputs"], "all valid file sets and all single faults injected into them at any site",
  "Tests have one fixed file per fault; whether the check applies at every site (nested, extension, second file, later add) is not sampled.",
  BLD+[P+"descriptor/error.rs", P+"descriptor/tag.rs"], [("name collection checks", P+"descriptor/build/names.rs"), ("resolution checks", P+"descriptor/build/resolve.rs")], ["DescriptorPool::from_file_descriptor_set", "DescriptorError"])
p("C20", "A failed or cloned addition never disturbs an existing pool",
  "Adding files is atomic: if an addition fails at any stage, the pool afterwards answers every query exactly as before, and later valid additions succeed as if the failure had not happened. Changing one clone of a pool never affects other clones or descriptors and messages obtained earlier, and adding a file that is already present has no effect.",
  ["histories", "configurations", "fault_sequences"], "all sequences of successful, failing, duplicate and cloned additions",
  "One test adds one failing file; failures at each stage, followed by further additions and queries, form histories no test samples.",
  BLD[:1]+[P+"descriptor/api.rs", P+"descriptor/mod.rs", P+"descriptor/global.rs"], [("build_files rollback", P+"descriptor/build/mod.rs"), ("copy-on-write pool", P+"descriptor/mod.rs")], ["add_file_descriptor_set", "add_file_descriptor_proto", "add_file_descriptor_protos", "decode_file_descriptor_proto", "decode_file_descriptor_set", "Clone", "DescriptorPool::global"])
p("C21", "Pools round-trip through their encoded form, however they were built",
  "Encoding a pool (or one of its files) and decoding it gives a pool with the same definitions, including all options, and encoding again gives identical bytes; a buffer with exactly that much room is enough, and one with less is an error. The same files added one at a time, in any dependency order, in one batch or from bytes yield pools that answer all queries identically.",
  ["configurations", "histories"], "all valid file sets, all orders and groupings of addition",
  "Tests encode two fixed pools and add in one order.",
  [P+"descriptor/api.rs", P+"descriptor/types.rs", P+"descriptor/build/mod.rs"], [("encode with options", P+"descriptor/api.rs"), ("Options wrapper", P+"descriptor/types.rs")], ["encode_to_vec", "FileDescriptor::encode_to_vec", "decode", "file_descriptor_protos"])
p("C22", "Options are resolved and preserved, including custom options",
  "Every option written on any kind of definition is readable from its descriptor with the right value: options already encoded (including custom options from extensions) are preserved from bytes, and uninterpreted options are resolved to what their name path and literal denote (scalars, enums, strings, aggregates, nested and extension path parts, repeated elements), moving them out of the uninterpreted list. An option with an unknown name, wrong value kind or out-of-range value is rejected.",
  ["configurations", "inputs"], "all option schemas, sites, name paths and literal values",
  "The tests use one fixed options file and about ten error cases.",
  [P+"descriptor/build/options.rs", P+"descriptor/types.rs", P+"descriptor/api.rs"], [("options visitor", P+"descriptor/build/options.rs")], ["*Descriptor::options", "DescriptorPool::decode", "encode_to_vec"])
p("C23", "Malformed descriptors never crash the pool or later use of it",
  "Adding any file descriptor (arbitrary structure, or arbitrary bytes) returns success or an error and never panics or overflows the stack; whatever is accepted can be fully traversed through the descriptor API, and its messages can be created, encoded, decoded and converted without panicking.",
  ["inputs", "configurations"], "all structurally mutated file descriptor sets and all byte strings",
  "Tests have a fixed list of invalid files.",
  BLD+API+[P+"descriptor/error.rs"], [("validation during build", P+"descriptor/build/mod.rs")], ["DescriptorPool::decode", "add_file_descriptor_set", "descriptor accessors"])
p("C24", "Conversions between the formats agree",
  "Binary, JSON, text and typed representations of one message denote the same content: a message parsed from its JSON or text equals the one decoded from its bytes, so any chain of conversions ends with the same message, and merging text into a message has the same effect as merging the bytes that text denotes when no field is set twice.",
  ["inputs", "configurations", "histories"], "all schemas, messages and chains of format conversions, with any options",
  "Tests check formats separately on fixed messages.",
  DYN[:2]+SER[:1]+DE[:1]+TXT[:1]+TXP[:1], [("format front ends over the same field set", P+"dynamic/fields.rs")], ["decode", "deserialize", "parse_text_format", "merge_text_format"])
p("C25", "The global pool is one registry, whatever threads add to it",
  "However many threads add files to and take copies of the global descriptor pool at once, the outcome is that of some order of the calls: an addition that succeeded is in every copy taken later and is never lost, a set of files appears as a whole or (if it fails) not at all, of conflicting additions exactly one succeeds, a file that needs another is accepted exactly when that one is there, and copies only ever grow. A copy taken earlier never changes, and adding to a copy does not change the global pool. No call panics or leaves the pool unusable.",
  ["schedules", "histories", "fault_sequences"], "all sets of threads, their additions (valid, failing, duplicate, conflicting, dependent, extending one message) and all interleavings",
  "Tests touch the global pool from one thread; lost updates and torn additions depend on interleavings.",
  [P+"descriptor/global.rs", P+"descriptor/mod.rs", P+"descriptor/build/mod.rs"], [("INSTANCE lock and initialisation", P+"descriptor/global.rs"), ("build_files rollback", P+"descriptor/build/mod.rs")], ["DescriptorPool::global", "DescriptorPool::add_global_file_descriptor_proto", "DescriptorPool::decode_global_file_descriptor_set"],
  [("global pool", "one set of files; copies are its prefixes", P+"descriptor/global.rs")])
p("C26", "The built-in descriptors are protobuf's own",
  "The global pool holds, from the start, the files protobuf comes with (any, api, descriptor, duration, empty, field_mask, source_context, struct, timestamp, type, wrappers, compiler/plugin), and describes them as protobuf does: every message, field, oneof, enum, enum value, extension range and option those files define is there under its name, with the same number, type, cardinality, JSON name, presence, packedness and default. So any message of these types, whatever its contents, is read and written through its built-in descriptor (in binary, JSON and text) as it is by every other protobuf implementation, and each of prost-types' generated types names the descriptor of its own message and converts to and from a dynamic message without loss or unknown fields.",
  ["inputs"], "all definitions in protobuf's own files and all messages of their types",
  "The 5,500 lines of hand-maintained descriptor tables are only checked by tests for the messages' names; an exchanged number, type or default shows up only when that very field is used.",
  [P+"reflect/wkt.rs", P+"descriptor/global.rs", P+"reflect/mod.rs"], [("make_descriptor and impl_reflect_message", P+"reflect/wkt.rs")], ["DescriptorPool::global", "ReflectMessage::descriptor", "ReflectMessage::transcode_to_dynamic", "DynamicMessage::transcode_to"])
p("C27", "Values, map keys and kinds say what they are",
  "For every Value exactly the accessor of its own variant returns it (the shared and the mutable one), and a change through the mutable accessor is what is read afterwards. is_valid, is_valid_for_field and is_valid_for_extension hold exactly for the values that can be encoded as that kind, field or extension, every element and entry of lists and maps included. The default value of a kind, field or extension is the one its schema gives it, is valid for it, and is_default* holds exactly for it. A value converts to a map key exactly when it may be one, and back without change; keys compare, hash, validate and default accordingly; a kind reports the wire type and the message or enum it stands for. A value printed by itself is the text format of that value: read back as the field's value it is the same, and the error for a refused value shows it.",
  ["inputs"], "all values, elements, keys, kinds, fields and extensions",
  "Tests call a handful of accessors on fixed values; the tables over 13 variants and 17 kinds are only right if every pair is.",
  [P+"dynamic/mod.rs", P+"descriptor/api.rs", P+"dynamic/text_format/format.rs"], [("Value and MapKey methods", P+"dynamic/mod.rs"), ("Kind::default_value and wire_type", P+"descriptor/api.rs")], ["Value::as_*", "Value::is_valid", "Value::is_default", "Value::into_map_key", "MapKey", "Kind::default_value", "Kind::wire_type", "Display for Value"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows))
