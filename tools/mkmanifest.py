#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Notes per property: technique, level_note."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = "property-based testing"
REF = "Explores generated inputs only; trusts the independent reference reader in harness/rt/src/reference.rs and, for spellings the XSD text leaves to the library (listed in DESIGN.md), does not judge."
MODEL = "Explores generated schemas only; trusts the schema model and its expected definitions in harness/gen/src, and syn as the Rust reader. Schemas outside the supported subset (DESIGN.md) are not generated."
CHECKS = {
 "T01": (T + ": structured lexical generators against a reference recogniser, constructors and month/day grid enumerated", REF),
 "T02": (T + ": structured lexical generators against a reference recogniser and calendar", REF),
 "T03": (T + ": structured lexical generators against a reference recogniser; order law on pairs", REF),
 "T04": (T + ": differential of all carriers against the shared reader, all offsets enumerated", REF),
 "T05": (T + ": grammar-based generator and edits against a reference parser; exact-span arithmetic", REF),
 "T06": (T + ": digit-string arithmetic reference, integers of any length", REF),
 "T07": (T + ": digit-string arithmetic reference, exponents and lengths up to thousands of digits", REF),
 "T08": (T + " / fuzzing: structure-aware text fuzzing of every reader with panics and overflow checks on", "Explores generated texts only; release-mode wrap-around is covered by overflow checks being on."),
 "T09": (T + ": model documents written by an independent writer, read and written by the code, compared as trees", "Explores generated documents only; trusts xml-rs for tokenising and the harness's own writer."),
 "T10": (T + ": pairs of related texts compared through the reference's values, conversions there and back, order of normalised durations", REF + " Two known findings about the order of durations are recorded in known_findings.txt."),
 "M01": (T + ": wrapper and list types against the content type's own reader", REF),
 "M02": (T + ": unions against first-accepting-member reference", REF),
}
AST = T + ": schemas generated from a model; the Rust syntax tree of the generated code against the definitions the model expects, "
CHECKS.update({
 "G01": (AST + "identifier and case rules over keyword, odd and non-ASCII names", MODEL),
 "G02": (AST + "one definition per declaration, one bound field per member", MODEL),
 "G03": (AST + "cardinality of every member over all spellings of the bounds", MODEL),
 "G04": (AST + "built-in table in every reference position under varied prefixes", MODEL),
 "G05": (AST + "paths and namespace marks under varied namespace layouts", MODEL),
 "G06": (AST + "inherited members over derivation trees in any declaration order", MODEL),
 "G07": (AST + "group members over nested and shared groups in any order", MODEL),
 "G08": (AST + "variants against enumeration values", MODEL),
 "G09": (AST + "variants against choice branches", MODEL),
 "G10": (AST + "items, members and bases of simple type trees", MODEL),
 "G11": (T + ": metamorphic replacement of documentation (same tokens) and documentation words against the comments before each item", MODEL),
 "G12": (T + ": stateful histories of parse, generate and reuse operations over several schemas, compared with a first generation", MODEL),
 "G13": (T + ": metamorphic rewriting of schemas into equivalent documents, compared as code or as item sets", MODEL),
 "G17": (T + ": generators assembled from random subsets of marking and delegating parts, compared with the default generator's code", "Explores generated schemas and parts only; hooks whose result the generator inspects itself (DESIGN.md) are not marked."),
 "G18": (T + ": schemas written from a model; every public field of the parsed entities against the model", "Explores generated schemas only; trusts the harness's own writer. Derived types and content of inline complex types are left to G06 and G16."),
 "W04": (T + ": WSDL documents written from a model; every accessor of the parsed definitions against the model", "Explores generated documents only; trusts roxmltree and the harness's own writer."),
 "W01": (T + ": WSDL documents generated from a model; signatures and comments of the generated functions against the operations", MODEL),
 "W02": (T + ": differential of embedded against standalone schemas, namespace declarations moved to the document element", MODEL),
 "W03": (T + ": repeated generation in one and in several processes, and function order against document order", MODEL),
 "C01": (T + ": stateful runs of the built command over generated directory trees, older outputs and bad inputs, against a model of the file system", "Explores generated trees and schemas only; the code expected in each file is what the library generates, so it judges placement, completeness and status, not the code."),
 "C02": (T + ": stateful runs of the built command over generated directory trees, older outputs and bad inputs, against a model of the file system", "Explores generated trees and documents only; the code expected in each file is what the libraries generate, so it judges placement, order, completeness and status, not the code."),
 "G15": (T + ": generated schemas compiled with rustc, generated valid documents read and written by the compiled code and compared with the model", "Explores generated schemas and documents only; yaserde's own limits (DESIGN.md) are excluded by construction; trusts the schema model, rustc and xml-rs."),
 "G14": (T + ": wrappers of generated facets compiled with rustc, values at and around every limit validated by the compiled code and by exact arithmetic on digit strings", "Explores generated wrappers and values only; two known findings pinned by the repository's tests (byte lengths, NaN) are excluded; trusts rustc."),
 "G16": (AST + "inline definitions resolved through the module tree", MODEL),
})
CLAIMED = [p["id"] for p in props if p["id"] in CHECKS]
NA = {}
m = {
 "version": 1,
 "setup_cmd": "mkdir -p .build evidence replay",
 "checks": [],
 "not_applicable": [],
 "notes": "One entry script ./check ID builds the harness crate from /repo's working tree and runs it. ./check replay FILE replays a saved failure.",
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
