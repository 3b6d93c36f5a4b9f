#!/usr/bin/env python3
"""writes MANIFEST.json from the property list and the table below"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
VF = "value-flow abstract interpretation of the compiler's IR (exact algebraic domain, joins at merges)"
TECH = {
 "C22": "bounds, lifetime and initialisation analysis on the IR value flow of every public operation",
 "C23": "interval analysis of index operands: guard dominates access, for every class of index values",
 "C24": "effect analysis: every store, call and global access of each public operation against its allowed set",
 "C25": "typestate of the stream's format and error state over every printing operation",
 "C26": "precision-flow (type conversion) analysis of the IR of double and long double instantiations",
 "C27": "type checking of an instantiation witness for every public operation, with definedness of every referenced symbol",
 "C28": "compile-fail witnesses with compiling twins",
 "C29": "type checking of every header alone, twice, in pairs, under each configuration macro; duplicate-definition analysis across units",
 "C30": "value-flow agreement of the NDEBUG and checked IR of every public operation",
 "C31": "acquire/release analysis of allocations and files on normal and exceptional exits of every public operation",
 "C44": "value-flow analysis of the error object and its text at every signalled failure",
 "C34": "state-at-failure analysis: stores that precede a signalled failure",
}
NOTE = {
 None: "Exact in real-number semantics, for all operand values of the instantiations listed in the evidence (dimensions and element types are enumerated, not quantified over). Trusts clang's lowering, sa/models.py for the C/C++ library, and the definitions written in sa/c_*.py.",
 "C22": "All operand values of the enumerated instantiations; library internals are modelled. Range operations are checked for each relation of range length to capacity.",
 "C27": "Complete for the enumerated operations and instantiations; trusts clang's front end (C++11).",
 "C28": "Complete for the listed misuse classes; trusts clang's front end.",
 "C29": "Complete for the listed headers and macros; vector_traits/matrix_traits need boost, which this sandbox lacks.",
 "C30": "Compares what both builds require of every output cell, not run times.",
}
NA = {
 "C40": "quantifies over rounding of floating-point values; the value-flow domain is exact-real, and no sound static error bound for these data-dependent loops and quotients is in reach",
 "C42": "the digits printed and parsed belong to libstdc++'s number formatting, outside the analysed source; element order and count of text output are covered under C11/C25",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    todo = sys.argv[1:]
    checks = []
    na = []
    for p in props:
        i = p["id"]
        if i in NA or i in todo:
            na.append(dict(property=i, reason=NA.get(i, "not built yet"))); continue
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, VF), level="other", level_note=NOTE.get(i, NOTE[None])))
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the checks read /repo's headers as they are. Known and repaired findings: known_findings.json.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
