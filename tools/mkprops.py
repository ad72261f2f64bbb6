#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
JR = "lib/json/reflector.h"; BR = "lib/binary/reflector.h"; EH = "lib/json/errorhandling.h"
JS = "lib/json/serializable.h"; BS = "lib/binary/serializable.h"
p("J01", "JSON round trip restores every value",
  "For every value of every supported type (integers, floats, bool, enums, strings, optionals, pointers, tuples, pairs, variants, arrays, sets, maps, multimaps and records of those, nested in any way), deserializing the JSON document produced from it into any existing object of that type restores an equal value and reports no error. Strings and map keys are restored with their full length, embedded NUL characters included, and what the target held before does not leak into the result.",
  ["inputs"], "all values of all supported types, all previous contents of the target object",
  "The unit tests push and pull a handful of hand-written objects; the claim is about every nesting of container types, every length and every string content.",
  [JR, JS, "lib/json/reflector-boosthana.h"],
  [("push overload set", JR + ": JsonReflector::push"), ("pull overload set", JR + ": JsonReflector::pull"), ("toJson/fromJson", JR)])
p("J02", "Every C++ value has its documented JSON representation",
  "Serializing a value yields exactly the documented JSON shape: numbers for integers, floats, enums and 8-bit integers, true/false, strings, arrays with one element per item in iteration order for sequences, sets, tuples and pairs, objects for records and maps, objects of arrays for multimaps, {\"index\",\"data\"} for variants, and null for empty optionals, null pointers, null C-strings, string views without data and valueless variants. A filled optional or pointer is represented exactly as what it holds.",
  ["inputs"], "all values of all supported types",
  "Tests compare a few literal documents; a wrong element order, dropped item or wrong shape for another type, size or content is not sampled.",
  [JR], [("push overload set", JR + ": JsonReflector::push")])
p("J03", "Deserializing any JSON document is safe and independent of error collection",
  "Whatever JSON value is presented to whatever target type, deserialization never reads a JSON value as a type it does not have, never accesses an array out of bounds, never dereferences an absent error collector and never performs an undefined numeric conversion. The values stored are the same whether or not a (non-throwing) error collector is passed.",
  ["inputs", "configurations"], "all JSON documents, all target types, with and without an error collector",
  "The tests feed well-typed documents and one or two mistyped ones, always with an error collector; RapidJSON's own assertions are compiled out in release builds.",
  [JR, EH], [("type checks before RapidJSON accessors", JR + ": JsonReflector::pull"), ("if (errors) guards", JR)])
p("J04", "A JSON type mismatch is reported once and leaves the target unchanged",
  "If the JSON type of a value does not fit the target type, the target keeps its value and exactly one type-mismatch error naming the JSON type expected for the target and the JSON type actually present is recorded. If the types fit, no type-mismatch error is recorded for that value.",
  ["inputs"], "all target types and all JSON values",
  "Tests provoke a mismatch for a few member types only; the claim covers each of the overloads and each of the JSON types.",
  [JR, EH], [("reportTypeMismatch", EH), ("jsonType<>() mapping", EH), ("type checks", JR + ": JsonReflector::pull")])
p("J05", "Recorded errors name the record, member and index they occurred at",
  "Every recorded deserialization error carries the record, member and array index that were being processed at that moment, at any nesting depth. When deserialization of a value, member, array or record finishes normally, the context is back to what it was before, so later errors are not attributed to the wrong place.",
  ["inputs", "histories"], "all documents and nestings, all sequences of errors",
  "Only histories with several nested arrays/records and an error after the inner one has finished can show a context which is not restored; the tests contain just one of each.",
  [JR, EH, "generator/jsonserializationcodegenerator.cpp"],
  [("currentIndex handling in array/set pull", JR), ("currentMember save/restore", JR), ("currentRecord save/restore", "generator/jsonserializationcodegenerator.cpp")])
p("J06", "Errors are thrown exactly when declared fatal",
  "An error of a kind that is flagged as fatal is recorded and then thrown, the thrown object being equal to the last recorded error; an error of a kind not flagged as fatal is only recorded and deserialization carries on. Flagging everything as fatal covers every kind of error.",
  ["inputs", "configurations"], "all flag combinations, all error kinds, all documents",
  "Tests set one flag combination for two kinds; the claim ranges over 2^8 flag values and all places that report.",
  [EH, JR], [("throwMaybe", EH), ("ThrowOn flags", EH)])
p("J07", "Deserialized arrays, sets and maps hold exactly the document's elements",
  "Deserializing a JSON array or object into a sequence, set, multiset, map or multimap replaces the previous contents by exactly the document's elements, in document order for sequences, and values that fail to convert still occupy their place. A repeated element in a set is reported as an unexpected duplicate and stored once; a multimap accepts both a single value and an array of values per key.",
  ["inputs"], "all arrays/objects of any length, all previous contents",
  "Tests use fixed three-element documents and freshly constructed targets.",
  [JR], [("array pull loops", JR), ("map and multimap pull loops", JR)])
p("J08", "Tuples, pairs, variants, optionals and pointers validate their shape",
  "A JSON array whose size differs from a tuple's or pair's is reported as a size mismatch and leaves the target unchanged, otherwise every element goes to its position. A variant accepts only an object having an unsigned index within range and a data member, reports an invalid object or index otherwise and leaves the variant unchanged; null resets optionals and pointers while any other value is stored in a freshly constructed pointee.",
  ["inputs"], "all JSON values against all tuple, pair, variant, optional and pointer types",
  "Tests cover one wrong size and one wrong index; boundary indices, huge indices, missing data and every element position are not sampled.",
  [JR], [("TuplePullHelper", JR), ("assignVariantValueByRuntimeIndex", JR), ("optional/pointer pull", JR)])
p("J09", "Missing members keep their value and unknown members are ignored",
  "When deserializing a record, a member that is absent from the JSON object keeps its previous value without an error, and members of the JSON object which do not belong to the record have no effect. Each present member is deserialized from the JSON member with exactly its name.",
  ["inputs"], "all records and all JSON objects",
  "Tests check one missing member; all subsets of members are not enumerated.",
  [JR, "lib/json/reflector-boosthana.h", "generator/jsonserializationcodegenerator.cpp"],
  [("named member pull", JR), ("hana for_each", "lib/json/reflector-boosthana.h")])
p("J10", "A serialized JSON document does not depend on the source object",
  "A JSON document obtained by serializing an object owns copies of all strings and map keys, so it stays valid and unchanged when the source object is modified or destroyed. Only names with static lifetime may be referenced.",
  ["inputs", "histories"], "all values, all later modifications of the source object",
  "Tests print the document while the source object is alive; a dangling reference shows only when it is gone.",
  [JR, "README.md"], [("SetString with allocator", JR), ("member names", JR + ": map/multimap push")])
p("J11", "Numeric JSON values are converted faithfully or refused",
  "A JSON number representable in the target's arithmetic type is stored with that value, a fractional number stored into an integer is truncated, and a number outside the target's range is reported as a conversion error without changing the target. Enumerations are restored through their underlying integer and accept nothing but integers (anything else is a type mismatch).",
  ["inputs"], "all JSON numbers and all arithmetic and enum target types",
  "Tests use a few small numbers; the boundaries of all ten arithmetic types are not sampled.",
  [JR], [("arithmetic pull", JR), ("8-bit integer pull", JR), ("enum pull", JR)])
p("J12", "The formatted error message states the recorded facts",
  "The text for an error names its kind, for type mismatches the expected and actual JSON type, and the record together with the member or, when there is none, the index. Every combination of error kind, types and context produces the message for that combination.",
  ["inputs"], "all error objects",
  "Tests format five hand-made errors out of kinds x types x contexts.",
  ["lib/json/errorformatting.h"], [("formatJsonDeserializationError", "lib/json/errorformatting.h"), ("jsonTypeToString", "lib/json/errorformatting.h")])
p("J13", "All JSON entry points agree, and malformed JSON is always rejected",
  "The member functions and free functions for (de)serialization, with C-string, sized buffer or string argument, are equivalent: same document, same object, same errors. Text which is not well-formed JSON makes deserialization throw the parser's error, and a root value of the wrong type yields a default-constructed object plus a type-mismatch error.",
  ["inputs", "configurations"], "all texts, all entry points",
  "Tests call a few of the entry points with well-formed text.",
  [JR, JS], [("toJson/fromJson/toJsonDocument", JR), ("parseJsonDocFromString", JR), ("JsonSerializable", JS)])
p("J14", "Date and time values survive JSON and binary serialization",
  "A date-time or time span is represented in JSON as its string form and in binary as its 64-bit tick count, and is read back through the inverse conversion. A JSON string which is no valid date or time reports a conversion error, a non-string a type mismatch, and both leave the target unchanged.",
  ["inputs"], "all tick counts and all JSON values",
  "Tests use one date and one time span.",
  ["lib/json/reflector-chronoutilities.h", "lib/binary/reflector-chronoutilities.h"],
  [("push/pull specializations", "lib/json/reflector-chronoutilities.h"), ("readCustomType/writeCustomType specializations", "lib/binary/reflector-chronoutilities.h")])
p("B01", "Binary round trip restores every value and consumes exactly its bytes",
  "Reading back what was written for a value of any supported type, into any existing object of that type, restores an equal value and leaves the stream exactly behind that value's bytes, so that values written one after another can be read one after another. What the target held before does not leak into the result.",
  ["inputs", "histories"], "all values of all supported types and all sequences of them, all previous target contents",
  "Tests write a few fixed objects into fresh targets.",
  [BR, BS, "lib/binary/reflector-boosthana.h"], [("BinarySerializer::write overloads", BR), ("BinaryDeserializer::read overloads", BR)])
p("B02", "The binary encoding follows the documented layout",
  "Every value is encoded in the documented layout: fixed-width numbers big-endian, one byte for bool, enums as their underlying integer, containers and strings as a variable-length element count followed by the elements in order, optionals and unique pointers as a presence flag followed by the value, variants as a one-byte index followed by the value, records as their members in order.",
  ["inputs"], "all values of all supported types",
  "Tests compare a few byte strings; a change applied to both reader and writer passes round-trip tests but breaks stored files.",
  [BR, "README.md"], [("BinarySerializer::write overloads", BR)])
p("B03", "Shared ownership survives binary serialization",
  "Objects held by several shared pointers within one serialization are written once and, when read back, pointers which were equal are equal again and pointers which were different are different. Null pointers stay null, whatever the address of the object is.",
  ["inputs", "histories"], "all object graphs through shared pointers, all addresses",
  "Tests use two pointers; addresses above the big-ID threshold and interleavings of several objects are not reachable from tests.",
  [BR], [("m_pointer in BinarySerializer", BR), ("m_pointer in BinaryDeserializer", BR)],
  state=[("pointer tables", "which objects have been written/read already", BR)])
p("B04", "Malformed binary input raises an exception, never undefined behaviour",
  "For every byte stream, reading either yields a value of the requested type or throws; a variant index out of range and a reference to an unknown or differently typed shared object are rejected with a conversion exception. No read leads to an out-of-range access or an object of the wrong type.",
  ["inputs"], "all byte streams and all target types",
  "Tests feed one truncated stream and one bad variant index.",
  [BR], [("readVariantValueByRuntimeIndex", BR), ("std::any_cast check", BR)])
p("B05", "Version numbers gate members and reject newer data",
  "For a versioned record the effective version (the requested one, or the record's own version if none is requested) is stored in front of its members, exactly those members valid for that version are written and read, and the version is handed on to members which are records themselves. Reading data whose version is newer than supported throws an error naming both versions and the record before any member is touched; the version read is returned to the caller.",
  ["inputs", "configurations"], "all version numbers, all version ranges of members, all records",
  "Tests use a single record with three versions.",
  ["lib/versioning.h", BR, BS, "generator/binaryserializationcodegenerator.cpp"],
  [("Versioning", "lib/versioning.h"), ("version parameters", BR), ("generated version conditions", "generator/binaryserializationcodegenerator.cpp")])
p("H01", "The Boost.Hana reflectors cover exactly the declared members in order",
  "For every struct described through Boost.Hana, JSON and binary (de)serialization visit each declared member exactly once, in declaration order, under its declared name, with the same error collector and version the caller passed.",
  ["inputs", "programs"], "all Hana structs and values",
  "Tests use a few structs; the claim holds for every struct and number of members.",
  ["lib/json/reflector-boosthana.h", "lib/binary/reflector-boosthana.h"], [("hana::for_each lambdas", "lib/json/reflector-boosthana.h")])
p("G01", "Generated JSON code covers exactly the eligible members of a record",
  "For every relevant record the generated JSON code serializes each eligible data member once, under its own name and in declaration order, and deserializes each eligible non-constant data member once under the same name: all members if private access has been granted for that direction, otherwise the public ones. Static members are left out, deserialization code is omitted only for records without default constructor, and the error context names the record while its members are processed and is restored afterwards.",
  ["programs"], "all C++ records that can be fed to the generator",
  "The generator tests compare the output for one header file.",
  ["generator/jsonserializationcodegenerator.cpp"], [("JsonSerializationCodeGenerator::generate", "generator/jsonserializationcodegenerator.cpp")])
p("G02", "Generated binary code reads exactly what it writes, guarded by the same versions",
  "For every relevant record the generated binary reading and writing code list the same eligible non-constant members in declaration order, each under the version condition given by the version markers preceding it, when private access has been granted for both directions or none. The version is written and checked in front of the members exactly for records deriving from the serializable base, and braces of version conditions are always balanced.",
  ["programs"], "all C++ records with all sequences of members and version markers",
  "The generator tests compare the output for one header file with a handful of version markers.",
  ["generator/binaryserializationcodegenerator.cpp"],
  [("BinarySerializationCodeGenerator::generate", "generator/binaryserializationcodegenerator.cpp"), ("MemberTracking", "generator/binaryserializationcodegenerator.cpp")])
p("G03", "The generator emits code for exactly the relevant classes",
  "Code is generated for a class if and only if it is completely defined and either an adaption for it is present in the processed file, or it is defined in the processed file and directly derives from an instantiation of the serializable template or has been requested by name. Classes that are merely included or only forward-declared are left out, every relevant class is emitted once and nothing is emitted if there is none.",
  ["programs", "configurations"], "all translation units and command line class lists",
  "The generator tests process one header file with fixed options.",
  ["generator/serializationcodegenerator.cpp", "generator/codegenerator.cpp", "generator/jsonserializationcodegenerator.cpp", "generator/binaryserializationcodegenerator.cpp"],
  [("addDeclaration", "generator/serializationcodegenerator.cpp"), ("computeRelevantClass", "generator/serializationcodegenerator.cpp"), ("isOnlyIncluded", "generator/codegenerator.cpp")])
p("G04", "Inherited members are processed exactly once, before the own ones",
  "Generated code processes the members of each relevant base class exactly once and before the record's own members, in both directions and for both formats, however deep the (non-virtual) inheritance is: a base is referenced directly unless another relevant base already takes care of it. Bases that are not relevant are not referenced.",
  ["programs"], "all inheritance hierarchies without repeated bases",
  "The tests contain single-level inheritance only.",
  ["generator/serializationcodegenerator.cpp", "generator/jsonserializationcodegenerator.cpp", "generator/binaryserializationcodegenerator.cpp"],
  [("findRelevantBaseClasses", "generator/serializationcodegenerator.cpp")])
p("G05", "The generator hands on every option, declaration, diagnostic and failure",
  "Clang receives the built-in flags, then all user options (each --clang-opt value split at \";\", empty parts left out), then all input files, in the given order; every declaration and every generate request reaches each configured generator (those given via --generators in that order, by default JSON only) in order, all writing to the configured output: the replaced --output-file if given and otherwise the standard output, which nothing else is written to. Diagnostics are always forwarded, and only in error-resilient mode are semantic errors downgraded and cleared, and only as long as no other error occurred. The exit code is 0 if the code has been generated and written completely, and not 0 if an unknown generator is specified, clang reports errors or the output cannot be opened or written.",
  ["configurations", "histories", "fault_sequences"], "all command lines, option lists, generator lists, diagnostic sequences and failures of the output",
  "Tests run the tool once with fixed options and an input without errors.",
  ["generator/main.cpp", "generator/codefactory.cpp", "generator/codefactory.h", "generator/consumer.cpp", "generator/visitor.cpp", "generator/frontendaction.cpp"],
  [("main", "generator/main.cpp"), ("makeClangArgs", "generator/codefactory.cpp"), ("addGenerator", "generator/codefactory.h"), ("DiagConsumer::HandleDiagnostic", "generator/consumer.cpp"), ("Visitor::VisitDecl", "generator/visitor.cpp")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
