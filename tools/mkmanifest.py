#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime trace monitor: send/receive value traces over generated bridge programs", "Explores generated signatures (every type in every position, plus random ones) with random and extreme values; the oracle is a dump of the value made without the bridge. Trusts the generated callees/callers and the C++/Rust compilers."),
 "C02": ("runtime ownership monitor: live-object registry, LeakSanitizer and AddressSanitizer over generated bridge programs", "Every tracked object of both languages is accounted for after each test, on normal, error and exception paths; untracked allocations are covered by LeakSanitizer."),
 "C03": ("AddressSanitizer + UBSan + debug assertions over generated programs and operation-sequence suites", "Detects what the sanitizers detect on executed paths; Rust-side aliasing/validity UB without a memory effect is out of reach because Miri cannot execute C++."),
}
D = os.path.join(V, "tools", "techniques.json")
if os.path.exists(D): T.update({k: tuple(v) for k, v in json.load(open(D)).items()})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "lib", "checks", p.lower() + ".py")) and p in T:
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": T[p][0],
                       "level": "exploration", "level_note": T[p][1]})
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the checks use only public interfaces, generated code and the built binaries", "source_commits": []},
     "notes": "Checks rebuild cxx, cxxbridge-macro, cxx-gen and cxxbridge-cmd from /repo's working tree into /verif/work (ignored by git)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
