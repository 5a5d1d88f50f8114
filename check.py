#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current source:
 1. extract the functions under contract from /repo (mechanical, every run) with their contracts;
 2. run the deductive verifier (Verus/Z3) on every obligation of the unit;
 3. an obligation of this property that fails is the violation; the real contracts are then driven
    on random histories to find a concrete failing input to replay;
 4. when the verifier cannot decide (unsupported construct, lost anchor, resource limit) the same
    driver runs as a bounded stand-in, labelled so in the evidence.
Exit 0, or 1 with a VIOLATION line; 2 when neither the verifier nor the driver could run."""
import fcntl, json, os, re, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.chdir(V)
CFG = json.load(open("checks.json"))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", VERIF_REPO=REPO)
T0 = time.time()


def sh(cmd, timeout, cwd=V, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "", "timeout"
    except OSError as e:
        return 127, "", str(e)


def locked(name):
    f = open(os.path.join(V, "gen", name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build(which):
    with locked(which):
        cmd = ["cargo", "build", "--offline", "-q"] + (["--release"] if which == "extract" else [])
        return sh(cmd, 600, cwd=os.path.join(V, which))


# ---------------------------------------------------------------- the verifier
class Unit:
    def __init__(self, name):
        self.name = name
        self.rs, self.js = f"gen/{name}.rs", f"gen/{name}.json"
        self.failures, self.undecided, self.summary, self.rep = [], [], {}, {}

    def extract(self, out=None, vac=None):
        env = dict(ENV)
        if vac:
            env["VERIF_VACUITY"] = vac
        rs, js = (self.rs, self.js) if out is None else (out + ".rs", out + ".json")
        return sh(["extract/target/release/extract", f"contracts/{self.name}/unit.json", rs, js], 60, env=env)

    def verus(self, rs, extra=(), timeout=500):
        rc, out, err = sh(["verus", rs, "--crate-type=lib", "--multiple-errors", "20", "--output-json", "--time-expanded", *extra, "--", "--error-format=json"], timeout,
                          env={k: v for k, v in ENV.items() if k != "RUSTUP_TOOLCHAIN"})
        try:
            j = json.loads(out)
        except ValueError:
            j = {}
        diags = []
        for l in err.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
        return j, diags, rc, err

    def run(self):
        rc, out, err = self.extract()
        if rc != 0:
            self.undecided.append("extraction: " + err.strip()[-400:])
            return
        self.rep = json.load(open(self.js))
        for k in ("unsupported", "lost", "namespace_clash"):
            for x in self.rep.get(k, []):
                self.undecided.append(f"{k}: {x}")
        for i, extra in enumerate(((), ("--rlimit", "60"))):
            j, diags, rc, err = self.verus(self.rs, extra)
            self.summary = j.get("verification-results", {})
            self.times = j.get("times-ms", {})
            hard = [d for d in diags if "rlimit" in d["message"] or "Resource limit" in d["message"]]
            if not (i == 0 and hard):
                break
        if not j or self.summary.get("encountered-vir-error") or "verified" not in self.summary:
            self.undecided.append("the verifier did not accept the extracted text: " + (diags[0]["message"] if diags else err[-300:]))
            return
        self.failures, und = self.obligations(diags)
        self.undecided += und
        if self.summary.get("errors", 0) and not self.failures and not self.undecided:
            self.undecided.append("errors without a diagnosed obligation")

    def confirm(self, prop):
        """an obligation counts as failed only if no solver seed proves it"""
        for k in (7, 23):
            if not any(prop in f["tags"] for f in self.failures):
                return
            j, diags, rc, err = self.verus(self.rs, ("--rlimit", "30", "--smt-option", f"smt.random_seed={k}"))
            if "verified" not in j.get("verification-results", {}):
                return
            again, und = self.obligations(diags)
            key = lambda f: (f["function"], f["clause"])
            now = {key(f) for f in again}
            unsure = {u.split(" in ")[-1] for u in und}
            gone = [f for f in self.failures if key(f) not in now]
            self.failures = [f for f in self.failures if key(f) in now]
            for f in gone:
                if f["function"] in unsure:
                    self.undecided.append("resource limit in " + f["function"])

    def obligations(self, diags):
        failures, undecided = [], []
        loose = {x["function"]: x["reason"] for x in self.rep.get("loose", [])}
        lines = open(self.rs).read().split("\n")
        fns = self.rep["functions"]
        for d in diags:
            if d["message"].startswith("aborting due to"):
                continue
            spans = d["spans"]
            near = [s for s in spans if s["is_primary"] or "failed" in (s.get("label") or "")] or spans
            near = [s for s in near if not (s.get("label") or "").startswith("at the end of")]
            tags, text = set(), []
            for s in near:
                seg = lines[s["line_start"] - 1:s["line_end"]]
                if len(seg) > 12:
                    continue
                for l in seg:
                    for m in re.finditer(r"/\*#([A-Z0-9,]+)\*/", l):
                        tags |= set(m.group(1).split(","))
                text += [x.strip() for x in seg[:2]]
            f = None
            for s in [x for x in spans if x["is_primary"]] + spans:
                for g in fns:
                    if g["start"] <= s["line_start"] <= g["end"] and f is None:
                        f = g
            f = f or self.lemma(lines, spans)
            if f and not tags and "precondition" in d["message"]:
                tags = set(f.get("noabort", []))  # a step that could abort, where the function must not
            item = {"message": d["message"], "function": f["path"] if f else "?", "source": f"{f['file']}:{f['line']}" if f else "?", "clause": " | ".join(text)[:600], "tags": sorted(tags), "own": sorted(set(f["tags"])) if f else []}
            if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() or "timed out" in d["message"]:
                undecided.append(f"resource limit in {item['function']}")
            elif f and f["path"].split(" [")[0] in loose:
                undecided.append(f"{item['function']}: {loose[f['path'].split(' [')[0]]}; so its failed obligation decides nothing: {item['clause'][:200]}")
            elif d.get("code") or not f:
                undecided.append("the verifier rejected: " + d["message"][:200])
            else:
                failures.append(item)
        return failures, undecided

    @staticmethod
    def lemma(lines, spans):
        n = min(s["line_start"] for s in spans)
        for i in range(n, max(0, n - 60), -1):
            m = re.search(r"proof fn (\w+)", lines[i - 1])
            if m:
                t = re.findall(r"/\*#([A-Z0-9,]+)\*/", lines[i - 1])
                return {"path": "lemma " + m.group(1), "file": "contracts", "line": i, "tags": sum((x.split(",") for x in t), [])}
        return None

    def vacuity(self):
        """every function's entry must be reachable: assert(false) has to fail there"""
        out = f"gen/{self.name}_vac"
        rc, _, _ = self.extract(out, "all")
        if rc != 0:
            return None
        j, diags, _, _ = self.verus(out + ".rs", timeout=300)
        lines = open(out + ".rs").read().split("\n")
        probes = {i + 1 for i, l in enumerate(lines) if "// VACUITY" in l}
        hit = {s["line_start"] for d in diags for s in d["spans"]} & probes
        return {"probes": len(probes), "reachable": len(hit), "unreachable": sorted(next((g["path"] for g in self.rep.get("functions", []) if g["start"] <= i <= g["end"] + 60), lines[i - 2][:80]) for i in probes - hit)} if "verified" in j.get("verification-results", {}) else None


# ---------------------------------------------------------------- the real contracts
def drive(worlds, prop, secs, seed, tag):
    """random histories of one or several contracts; the time is shared"""
    sts = []
    for w in worlds.split(","):
        st, replay = drive_one(w, prop, secs / len(worlds.split(",")), seed, tag)
        sts.append(st)
        if replay:
            break
    if len(sts) == 1:
        return sts[0], replay
    st = {k: sum(x.get(k, 0) for x in sts) for k in ("histories", "steps")}
    return {**st, "per_world": sts, **({"error": sts[-1]["error"]} if "error" in sts[-1] else {})}, replay


def drive_one(world, prop, secs, seed, tag):
    out = f"gen/replay_{prop}_{tag}.json"
    if os.path.exists(out):
        os.remove(out)
    rc, o, e = sh(["harness/target/debug/vharness", "search", "--world", world, "--props", prop, "--secs", str(secs), "--seed", str(seed), "--out", out], secs + 60)
    try:
        st = json.loads(o.strip().splitlines()[-1])
    except (ValueError, IndexError):
        st = {"histories": 0, "steps": 0, "error": (e or o)[-300:]}
    if rc == 1 and os.path.exists(out):
        return st, out
    return st, None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CFG["properties"][prop]
    for d in ("gen", "evidence"):
        os.makedirs(d, exist_ok=True)
    hb = {}
    th = threading.Thread(target=lambda: hb.update(r=build("harness")))
    th.start()
    eb = build("extract")
    units = [Unit(u) for u in c["units"]]
    for u in units:
        u.run() if eb[0] == 0 else u.undecided.append("the extractor did not build")
    vac = [u.vacuity() for u in units if eb[0] == 0 and not u.undecided and not u.failures]
    th.join()
    built = hb["r"][0] == 0

    fails = [f for u in units for f in u.failures]
    mine = [f for f in fails if prop in f["tags"]]
    amb = [f for f in fails if not f["tags"] and (prop in f["own"] or not f["own"])]
    other = [f for f in fails if f not in mine and f not in amb]
    und = [x for u in units for x in u.undecided]
    for v in vac:
        if v is None or v["reachable"] < v["probes"]:
            und.append(f"vacuity probe: {v}")
    proved = not fails and not und
    # known findings: none is suppressed here; fixed entries suppress nothing
    secs = CFG["seconds"][tier]["proved" if proved else "search"]
    st, replay = ({"histories": 0, "steps": 0, "error": "harness did not build"}, None)
    if built:
        st, replay = drive(c["world"], prop, secs, seed, tier)
    viol, words = None, ""
    if mine and not replay:
        for u in units:
            u.confirm(prop)
        fails = [f for u in units for f in u.failures]
        mine = [f for f in fails if prop in f["tags"]]
        und = [x for u in units for x in u.undecided]
        if not mine and not und:
            und = ["obligations discharged under another solver seed"]
    if replay:
        r = json.load(open(replay))
        r["failed_obligations"] = mine + amb
        r["how"] = "harness/target/debug/vharness replay <this file> runs the history below against the contracts of /repo"
        json.dump(r, open(replay, "w"), indent=1)
        viol = replay
    elif mine and not any(x.startswith(("lost", "unsupported")) for x in und):
        viol = f"gen/replay_{prop}_{tier}.json"
        json.dump({"property": prop, "failed_obligations": mine, "verifier": "verus", "searched": st, "note": "no failing input found; the obligations named here no longer follow from the source"}, open(viol, "w"), indent=1)
        words = " no-failing-input-found"
    obligations = sum(u.summary.get("verified", 0) + u.summary.get("errors", 0) for u in units)
    discharged = sum(u.summary.get("verified", 0) for u in units)
    under = [f for u in units for f in u.rep.get("functions", [])]
    whole = lambda p: p.split(" [")[0]  # a function split by message variant counts once
    prove = list(dict.fromkeys(whole(f["path"]) for f in under if prop in f["tags"]))
    trusted = sorted({whole(f["path"]) for f in under if f.get("external")} - {whole(f["path"]) for f in under if not f.get("external")}) + CFG["trusted"]
    clauses = sum(1 for u in units if os.path.exists(u.rs) for l in open(u.rs) if re.search(r"/\*#[A-Z0-9,]*\b" + prop + r"\b[A-Z0-9,]*\*/", l))
    smt = sum((u.times.get("smt", {}) or {}).get("total", 0) for u in units if hasattr(u, "times"))
    status = "proved" if proved else ("violated" if viol else "not proved on this source; bounded stand-in only")
    level = "proof" if proved else "exploration"
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(f"verus gen/{u.name}.rs --crate-type=lib --multiple-errors 20" for u in units),
        "trusted_base": trusted, "status": status,
        "functions_under_contract": len({whole(f["path"]) for f in under if not f.get("external")}),
        "functions_with_clauses_of_this_property": prove, "clauses_of_this_property": clauses,
        "functions_without_contract": sorted({x for u in units for x in u.rep.get("not_under_contract", [])}),
        "inlined_at_call_sites": sorted({str(x) for u in units for x in u.rep.get("inlined", [])}),
        "extraction_rewrites": {u.name: u.rep.get("rewrites", {}) for u in units},
        "back_end": "Verus (Z3)", "solver_ms": smt, "vacuity_probes": vac,
        "failed_obligations": mine + amb, "failed_obligations_of_other_properties": [f["function"] for f in other], "undecided": und,
        "evaluations": st.get("steps", 0), "distinct_nontrivial": st.get("histories", 0),
        "rule": "bounded validation of the assumed library contracts: random message histories (15 or 45 steps) of the real contract on an in-memory chain, the property's clauses evaluated after each step; a history counts when it ran to its end",
        "samples": [{"world": c["world"], "seed": seed, **st}],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": CFG["assumptions"] + c.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0}
    json.dump(ev, open(f"evidence/{prop}.json", "w"), indent=1)
    for k in CFG.get("known_findings", []):
        if k["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop}: {status}; {discharged}/{obligations} obligations discharged; {st.get('steps', 0)} steps of {st.get('histories', 0)} histories; {round(time.time() - T0)} s")
    for x in und[:5]:
        print("  undecided:", x)
    for f in (mine + amb)[:8]:
        print(f"  failed: {f['function']} ({f['source']}): {f['message']}: {f['clause'][:160]}")
    if not viol and not proved and not st.get("histories"):
        print("nothing was explored: " + str(st.get("error")))
        sys.exit(2)
    if viol:
        print(f"VIOLATION property={prop} replay={os.path.join(V, viol)}{words}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # an internal error of the check is no answer
        import traceback
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else "?"
        try:
            os.makedirs("evidence", exist_ok=True)
            json.dump({"property": p, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": {"explanation": "the check failed internally: " + repr(e)}, "wall_s": round(time.time() - T0, 1)}, open(f"evidence/{p}.json", "w"))
        except OSError:
            pass
        sys.exit(2)
