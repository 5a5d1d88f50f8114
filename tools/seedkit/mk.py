#!/usr/bin/env python3
"""mk.py SPEC.py: writes seeded/<id>/ for each seed of a spec file (run on a clean /repo); not used by any check.
A spec defines SEEDS = [(id, property, needs, breaks, [(file, old, new)], kit, scenario)]"""
import os, subprocess, sys, json, shutil, runpy
K = os.path.dirname(os.path.abspath(__file__)); V = K + "/../.."
S = runpy.run_path(sys.argv[1])["SEEDS"]; only = sys.argv[2:]
for (i, prop, needs, what, edits, kit, scen) in S:
    if only and i not in only: continue
    d = f"{V}/seeded/{i}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f, a, b in edits:
        p = "/repo/" + f; t = open(p).read()
        assert t.count(a) == 1, (i, f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    for f in ("demo.sh", "Cargo.lock", "Cargo.toml.in"): shutil.copy(f"{K}/{f}", d)
    shutil.copy(V + "/harness/src/chain.rs", d); shutil.copy(f"{K}/{kit}.rs", d)
    open(d + "/main.rs", "w").write(f"#![allow(dead_code, unused)]\nmod chain;\nmod {kit};\nuse {kit}::*;\nfn main() {{\n{scen.strip(chr(10))}\n}}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    os.chmod(d + "/demo.sh", 0o755)
