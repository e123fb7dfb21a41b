"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "memory contracts of every converter, dispatcher and size function, discharged on the IR of /repo (symbolic execution, loop invariants, z3)",
 "C02": "functional contracts of all RGB to YCbCr converters, discharged sample by sample by normal forms and z3; lemma for the documented formula",
 "C03": "functional contracts of all YCbCr to RGB converters, discharged by normal forms and z3; lemma for the documented formula",
 "C04": "functional contracts of the RGB repacking converters, discharged by normal forms",
 "C05": "one functional contract discharged for the three implementations of each converter",
 "C06": "frame contracts (writes clause, nothing written on failure) of every converter",
 "C07": "acceptance contracts: result <=> sufficiency predicate per converter, exact bit-vector contract of the dispatcher",
 "C08": "exact bit-vector contract of the size functions, discharged by polynomial normal forms and z3",
 "C09": "acceptance contracts composed with the size contract",
 "C10": "functional contracts plus coefficient lemmas",
 "C11": "exact bit-vector contracts of the C entry points",
 "C12": "contract of the cpu selection over symbolic cpuid/xgetbv, feature sets of every reachable converter",
 "C13": "no-panic and termination obligations of every converter, dispatcher and size function",
 "C14": "frame obligations: no mutable global state in any function a request reaches",
}
N = {}
checks = []
for k, t in T.items():
    checks.append({"property": k, "quick_cmd": f"python3-vt engine/check.py {k}", "thorough_cmd": f"VERIF_TIER=thorough VERIF_LIMIT=3000 python3-vt engine/check.py {k}",
                   "technique": "contract-based deductive verification: " + t, "level": "proof",
                   "level_note": "All obligations are regenerated from /repo's current source and discharged without bounds (x86-64 build). Trusted: rustc/LLVM front half, the obligation generator in engine/, z3, the written semantics of the SIMD intrinsics. Functions the engine cannot follow fall back to a bounded search, reported as bounded stand-ins in the evidence."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": "C15", "reason": "The property is a statement about schedules inside std::sync::Once; sequential contracts take its once-and-publish semantics as an assumption (C14 shows the crate adds no shared state of its own)."}]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
