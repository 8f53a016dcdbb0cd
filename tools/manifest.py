"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
REAL = ("Symbolic execution of the compiled (clang -O0 LLVM IR) library code; bounded: component ranges and type lists are stated in the evidence. "
        "Trusts clang, the IR interpreter (each encoding is validated against the native build), the solvers, and the models of libm/complex functions.")
TECH = {
 "fp": "symbolic execution of LLVM IR, obligations over IEEE doubles decided by SMT (bit-vectors and floating point), counterexamples replayed natively",
 "real": "symbolic execution of LLVM IR with solver-decided path cases; obligations over real arithmetic decided by exact normalisation plus SMT (QF_NRA), counterexamples replayed natively",
 "io": "symbolic execution of LLVM IR against a symbolic model of the C++ stream interface; obligations decided by SMT, counterexamples replayed natively"}
KIND = {**{"C%02d" % k: "real" for k in range(1, 37)}, **{c: "fp" for c in "C01 C02 C03 C04 C06 C07 C08 C21 C22 C23 C29 C31 C35".split()}, **{c: "io" for c in "C24 C25 C26 C27".split()}}
NOTE = {
 "fp": "Decided for every bit pattern of the inputs in the stated bounds. ",
 "real": "Decided over exact real arithmetic for all inputs in the stated ranges, with a tolerance reserved for rounding. ",
 "io": "Decided for every component value, read outcome and digit count in the stated bounds; formatting and parsing of one number by libstdc++ is trusted. "}
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(H, "tools", "not_applicable.json")) else {}
m = dict(version=1, setup_cmd="./check --setup",
         checks=[], not_applicable=[])
for p in ps:
    i = p["id"]
    if os.path.exists(os.path.join(H, "props", i.lower() + ".py")) and i not in NA:
        m["checks"].append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i, evidence_file="evidence/%s.json" % i,
                                technique=TECH[KIND[i]], level="model_checking", level_note=NOTE[KIND[i]] + REAL))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "the check of this property is not built yet")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
