"""Which obligations and lemmas decide which property."""
import time

import z3

TRUSTED = [
    "extractor/extract.cpp: prints clang's AST of the instantiated functions as JSON; drops nothing but attributes and comments (an AST node it does not know makes the function 'unsupported')",
    "rrv/engine.py: symbolic execution of that AST (weakest preconditions path by path), loops cut at Houdini-inferred invariants",
    "z3 (ground queries; theory axioms are instantiated by rrv/theory.py)",
    "clang 18 front end and the template instantiations listed in drivers/",
]
ASSUMPTIONS = [
    "element, member and record types are opaque: their own push/pull/read/write obey the same contract (induction over the structure of types)",
    "strings and containers have fewer than 2^32-1 elements (RapidJSON's SizeType)",
    "an integer object of an enumeration type may hold every value of its underlying type",
    "allocation does not fail; RapidJSON and the standard library behave as their contracts in rrv/lib_rj.py and rrv/lib_std.py say",
    "machine integers are modelled exactly (wrap-around for unsigned types, overflow of signed types is an obligation), floating point by z3's IEEE theory",
]

J, BI, G, JG, BG = ["json"], ["binary"], ["generator"], ["json", "generator"], ["binary", "generator"]
# the functions of the generator the properties of generated code depend on
G_COMMON = r"::(CodeGenerator|SerializationCodeGenerator)::|::addDeclaration$"
G_JSON = r"::JsonSerializationCodeGenerator::|" + G_COMMON
G_BINARY = r"::BinarySerializationCodeGenerator::|MemberTracking|RetrieveIntegerLiteral|" + G_COMMON
G_SMALL = r"CodeFactory|Consumer|Visitor|FrontendAction|Tooling|^main$"
G_ASSUME = ["accessors of clang's AST are pure functions of the node; declarations, bases and fields are enumerated in declaration order; getFullyQualifiedName names the type"]
PROPS = {
    "J01": dict(units=J, tags=["J01"], harness=["json"],
                assumptions=["a container is what inserting its elements in iteration order gives; the elements of a set and the keys of a map are distinct, equal keys of a multimap are neighbours; the library's text of a time is read back as that time; RapidJSON's reader gives back the document its writer was given",
                             "not covered by the statement, as the JSON does not tell them apart: an optional or pointer whose content is itself written as null, a valueless variant"],
                explanation="String conversions are verified against their contract; the round trip of every type constructor is a lemma over the contracts of push (J02) and pull (J04, J07, J08, J09, J11), whose own obligations are discharged by those checks; when any of them fails, a failing round trip is searched for."),
    "J02": dict(units=J, tags=["J02"], harness=["json"], explanation="Each push overload is verified to produce exactly the value of the specification function PUSH for its type and to leave the source alone."),
    "J03": dict(units=J, tags=["J03", "FPCONV", "UB"], harness=["json"], explanation="RapidJSON's preconditions (IsArray before GetArray, ...), null checks of the error collector, index bounds and defined numeric conversions are obligations at every use; each pull is verified twice, with and without error collector, against the same specification of the value."),
    "J04": dict(units=J, tags=["J04"], harness=["json"], explanation="Postcondition of every pull: on a mismatch the target is unchanged and exactly one type mismatch with the expected and actual JSON type is appended; jsonType<>() and the RapidJSON type mapping are verified as well."),
    "J05": dict(units=JG, only={"generator": G_JSON}, gtags=["G01"], tags=["J05"], harness=["json", "generator"], explanation="Ghost log of (record, member, index) next to each recorded error; postcondition: log equals the specified one and the context is restored on return; generated code names the record and restores the context (postcondition of JsonSerializationCodeGenerator::generate)."),
    "J06": dict(units=J, tags=["J06"], harness=["json"], explanation="Exceptional postcondition of every pull and of throwMaybe: thrown iff the last recorded error is of a kind flagged fatal, and equal to it; no fatal entry survives a normal return."),
    "J07": dict(units=J, tags=["J07"], harness=["json"], explanation="Postcondition of the sequence, set, map and multimap pulls: value and error log equal the specification folds over the document's elements (loop invariants)."),
    "J08": dict(units=J, tags=["J08"], harness=["json"], explanation="Postcondition of the tuple, pair, variant, optional and pointer pulls."),
    "J09": dict(units=JG, only={"generator": G_JSON}, gtags=["G01", "G04"], tags=["J09"], harness=["json", "generator"], explanation="Postcondition of the named member pulls and of the pulls of records; generated code pulls each member under its own name (postcondition of JsonSerializationCodeGenerator::generate)."),
    "J10": dict(units=J, tags=["J10"], harness=["json"], explanation="Every string handed to RapidJSON without copying must have static lifetime (obligation at each use); everything else is copied with the document's allocator."),
    "J11": dict(units=J, tags=["J11", "FPCONV"], harness=["json"], explanation="Postcondition of the arithmetic, bool and enumeration pulls for all numbers (bit-precise integers, IEEE doubles)."),
    "J12": dict(units=J, tags=["J12"], harness=["json"], explanation="Postcondition of the functions formatting error messages and of reportTypeMismatch/ArraySizeMismatch/ConversionError/...: text is a function of the recorded error's fields and the report appends exactly that entry."),
    "J13": dict(units=J, tags=["J13"], harness=["json"], explanation="Postconditions of the entry points (toJsonDocument, toJson, serializeJsonDocToString, parseJsonDocFromString, fromJson, JsonSerializable members) over the contracts of push and pull."),
    "B01": dict(units=BI, tags=["B01"], harness=["binary"], explanation="Every read overload is verified to restore the value which the reading function of the contract gives for the bytes at hand, whatever the target held before, and to consume exactly these bytes; that reading what write() produced (B02) restores the value is proved as lemmas over both contracts, by induction over the structure of types and the number of elements.",
                assumptions=["BinaryReader reads back what BinaryWriter writes; a set or map is what inserting its elements in iteration order gives; the same address is never used for shared objects of different types; ids are below 2^56; streams throw on failure"]),
    "B02": dict(units=BI, tags=["B02"], harness=["binary"], explanation="Every write overload is verified to emit exactly the chunks (big-endian numbers, variable-length counts, raw strings) which the layout function of the contract gives for its type, and to leave the written value alone."),
    "B03": dict(units=BI, tags=["B03"], harness=["binary"], explanation="The tables of written and read shared objects are ghost-tracked: postconditions of every read and write overload; lemmas show that the tables keep corresponding one-to-one, that a repeated pointer refers to the object read first and that pointers are equal after reading iff they were before.",
                assumptions=["the same address is never used for shared objects of different types within a serialization; objects stay alive while serializing"]),
    "B04": dict(units=BI, tags=["B04"], harness=["binary"], explanation="For every byte stream: each read overload returns only if the stream is readable as the type (variant index in range, shared object known and of the right type) and otherwise throws; index, null and conversion obligations at every use.",
                assumptions=["running out of memory for huge element counts is not considered"]),
    "B05": dict(units=BG, only={"generator": G_BINARY}, gtags=["G02"], tags=["B05"], harness=["binary", "generator"], explanation="Postconditions of Versioning (default, supported range, error naming versions and record), of the version parameters of the record and member overloads, and of toBinary/restoreFromBinary/fromBinary for versioned and unversioned records; version conditions, version field and version check of generated code are the postcondition of BinarySerializationCodeGenerator::generate.",
                assumptions=G_ASSUME),
    "G01": dict(units=G, only={"generator": G_JSON}, tags=["G01", "J03"], harness=["generator"], assumptions=G_ASSUME, explanation="The stream generated code is written to is interpreted: each statement of the generated program is an event of a ghost trace; postcondition of JsonSerializationCodeGenerator::generate: the trace equals the fold of the specification over the AST's classes and fields (loop invariants), for both settings of the options."),
    "G02": dict(units=G, only={"generator": G_BINARY}, tags=["G02", "J03"], harness=["generator"], assumptions=G_ASSUME, explanation="Each statement of the generated program is an event of a ghost trace carrying the version condition it is guarded by; postcondition of BinarySerializationCodeGenerator::generate: writing and reading code equal the same fold over the AST's fields and version markers (loop invariants); MemberTracking and the marker parser are verified against the specification of markers."),
    "G03": dict(units=G, only={"generator": G_JSON + "|" + G_BINARY}, tags=["G03", "J03"], harness=["generator"], assumptions=G_ASSUME, explanation="Postconditions of addDeclaration, computeRelevantClass (all three), isOnlyIncluded, inheritsFromInstantiationOf and findRelevantClasses: the relevant classes are exactly those of the specification, in order and without duplicates; generate emits code for each of them and nothing if there is none."),
    "G04": dict(units=G, only={"generator": G_JSON + "|" + G_BINARY}, tags=["G04", "J03"], harness=["generator"], assumptions=G_ASSUME, explanation="Postcondition of findRelevantBaseClasses (the relevant classes the record directly derives from, up to irrelevant classes in between, each once) and of both generate functions: calls for these bases come first, in both directions."),
    "G05": dict(units=G, only={"generator": G_SMALL}, tags=["G05", "J03"], harness=["generator"], assumptions=["clang's diagnostics engine, tool invocation and AST visitor behave as documented", "C++ Utilities' argument parser behaves as documented: arguments are told apart by their names, --help and errors are handled by it", "streams report failed operations via their state, and throw if exceptions are enabled"], explanation="Ghost log of the calls to clang and to the generators; postconditions of makeClangArgs, CodeFactory::run/addDeclaration/generate, Visitor::Visit*, Consumer::HandleTranslationUnit, DiagConsumer::* and FrontendAction::CreateASTConsumer relate log, results and state. main() against the contracts of CodeFactory::run and addGenerator: registered options, how the factory has been set up when it is run (path, input, options, output, generators) and the exit code, with every operation on the output possibly failing."),
    "H01": dict(units=["hana"], tags=["H01"], harness=["hana"], assumptions=["hana::at_key(object, key) is the member declared under that key; hana::for_each visits a sequence in order (which keys a sequence holds is part of its type, computed by clang from Hana's headers)",
                                                                             "six structs with 0, 1, 2, 3 and 5 members stand for all: the code is the same template, expanded by Hana per member"],
                explanation="Ghost trace of the (de)serialization of members; postcondition of push, pull, readCustomType and writeCustomType for structs described through Boost.Hana: exactly one event per declared member, in order, under its name, with the same value, error collector, stream and version the caller passed; errors of members are not swallowed."),
    "J14": dict(units=J, tags=["J14"], fn=r"^(const )?CppUtilities::(DateTime|TimeSpan) &$", harness=["json"], explanation="Postcondition of the push/pull specializations for DateTime and TimeSpan."),
}


def lemma_result(name, obs):
    return dict(unit="lemmas", index=0, fn=name, q=name, file="rrv/props.py", line=0, params=[], obs=obs, unsupported=None, reached=1, paths=0, inlined=[], lib=[], contracts=[],
                loops=[], time=sum(o["time"] for o in obs), unroll=0, lemma=True)


def prove(tag, name, hyps, goal, keep=False, timeout=20000):
    from .theory import Ctx
    from .sym import lit_facts
    t = time.time()
    c = Ctx(timeout=timeout)
    c.add(*hyps)
    g = z3.Not(goal)
    r = c.check(g)
    smt = None
    if keep:
        c.push()
        c.add(g, *lit_facts())
        smt = c.s.to_smt2()
    return dict(tag=tag, name=name, line=0, file="rrv/props.py", fn="lemma", res="valid" if r == z3.unsat else "invalid" if r == z3.sat else "unknown",
                time=round(time.time() - t, 4), model=str(c.model)[:3000] if r == z3.sat else None, scenario="lemma", backend="z3", smt=smt)


def vacuous(hyps, goal):
    """Whether the hypotheses contradict each other."""
    from .theory import Ctx
    c = Ctx(timeout=5000)
    c.add(*hyps)
    return c.check(goal) == z3.unsat and c.check(z3.Not(goal)) == z3.unsat


def lemmas(prop, tier, units):
    """Lemmas over the contracts; units: the extracted units of the property."""
    obs = []
    if prop in ("B01", "B03") and "binary" in units:
        from . import lemmas_binary
        obs = lemmas_binary.obligations(units["binary"], {prop}, keep=tier == "thorough")
    if prop == "J01" and "json" in units:
        from . import lemmas_json
        obs = lemmas_json.obligations(units["json"], keep=tier == "thorough")
    return lemma_result("lemmas of " + prop, obs)


NOT_APPLICABLE = {}
