"""./check ID [--tier quick|thorough]: rebuilds the semantics of /repo's code and discharges the obligations of one property."""
import sys, os, json, time, subprocess, hashlib, importlib, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)
T0 = time.time()
B = os.path.join(HERE, ".build")

HELPERS = ["specs_bn", "specs_hs", "specs_fr"]
SPECS = ["specs_pair", "specs_factory", "specs_router", "specs_token"]


def source_hash():
    h = hashlib.sha256()
    for root in ("/repo", HERE + "/mirdump", HERE + "/probe", HERE + "/harness", HERE + "/tools"):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build", "node_modules"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".rs", ".toml", ".lock", ".txt", ".sh")):
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def build():
    """dump of the code's MIR and the scenario runner, both from the current source"""
    os.makedirs(B, exist_ok=True)
    import fcntl
    lock = open(B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    want = source_hash()
    stamp = B + "/stamp"
    if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(B + "/mir.json"):
        return ""
    if os.path.exists(stamp):
        os.remove(stamp)
    ps = [(n, subprocess.Popen([HERE + "/tools/" + s] + a, stdout=open(B + "/%s.log" % n, "w"), stderr=subprocess.STDOUT))
          for n, s, a in (("mir", "build_mir.sh", [B + "/mir.json"]), ("harness", "build_harness.sh", []))]
    bad = [n for n, p in ps if p.wait() != 0]
    if "mir" in bad:
        l = [x[:300] for x in open(B + "/mir.log", errors="replace") if x.startswith(("error", "mirdump:")) or "panicked" in x]
        return "the code could not be compiled: " + " | ".join(l[:4])
    if not bad:
        open(stamp, "w").write(want)
    return ""


def modules(names):
    out = []
    for n in names:
        try:
            out.append(importlib.import_module(n))
        except ModuleNotFoundError as e:
            if e.name != n:
                raise
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import verify, entry, smt, mir as M
    err = build()
    failures = []           # (obligation, status, text, model integers, scene)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "wall_s": 0, "violations": [],
          "coverage": {}, "assumptions": ASSUMPTIONS}
    cov = ev["coverage"]
    names = []
    obs = verify.Obs()
    W = None
    contracts = {}
    if err:
        failures.append(("build", "unknown", err, [], None))
    else:
        mods = modules(HELPERS)
        W = verify.World(M.Mir(B + "/mir.json"), {})
        W.budget = verify.Budget(quick=3000, nl=8000, cvc=10, paths=40000, secs=60) if tier == "quick" else verify.Budget(quick=10000, nl=60000, cvc=60, paths=200000, secs=600)
        decisive = {}
        for m in mods:
            for df in getattr(m, "DECIDES", {}).get(pid, ()):
                decisive[df] = m
        t1 = time.time()
        for m in mods:
            ags = getattr(m, "ARGGEN", {})
            for df, C in m.CONTRACTS.items():
                if tier == "quick" and time.time() - t1 > 240:
                    contracts[df] = ("skipped", None, "time")
                    continue
                try:
                    st, o, why = verify.verify_contract(W, C, arggen=ags.get(df))
                except Exception as e:
                    st, o, why = "unsupported", verify.Obs(), "%s: %s" % (type(e).__name__, e)
                contracts[df] = (st, o, why)
                if st == "verified":
                    W.ok[df] = C
        usedc0 = set()
        for df, m in decisive.items():
            st, o, why = contracts.get(df, ("absent", verify.Obs(), ""))
            usedc0.add(df)
            for k, x in o.d.items():
                y = obs.get(df + "." + k)
                y.__dict__.update(dict(x.__dict__, name=df + "." + k))
                for f in x.fails:
                    failures.append((y.name, f[0], f[1] + " [" + f[2] + "]", f[3], df))
            if st == "unsupported" or (st == "absent" and getattr(m, "REQUIRED", None) and df in m.REQUIRED):
                failures.append((df, "unknown", st + ": " + why, [], df))
            for k, c in o.cover.items():
                obs.cover[df + "." + k] = c
        cov["contracts"] = {df: s[0] for df, s in contracts.items()}
        scenes = [sc for m in modules(SPECS) for sc in m.SCENES if pid in sc.judges]
        lemmas = [l for m in modules(SPECS) + mods for l in m.__dict__.get("LEMMAS", []) if l[0] == pid and m.__name__ == l[2].__module__]
        W.used.clear()
        W.usedc.clear()
        for sc in scenes:
            o = {pid: verify.Obs()}
            t1 = time.time()
            try:
                why = entry.run_scene(W, sc, [pid], o, secs=200 if tier == "quick" else 3000)
            except Exception as e:
                why = "%s: %s" % (type(e).__name__, e)
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
            names.append({"scene": sc.name, "entry": sc.df, "paths": getattr(sc, "paths", 0), "secs": round(time.time() - t1, 1), "incomplete": why})
            obs.merge(o[pid])
            for x in o[pid].d.values():
                for f in x.fails:
                    failures.append((x.name, f[0], f[1] + " [" + f[2] + "]", f[3], sc))
            if why:
                failures.append((sc.name + ".explored", "unknown", why, [], sc))
            if not why and not o[pid].d:
                failures.append((sc.name + ".vacuous", "unknown", "no obligation was generated", [], sc))
        for (_, nm, f) in lemmas:
            f(W, obs)
        for x in obs.d.values():
            if x.fails and x.name not in [f[0] for f in failures]:
                failures.append((x.name, x.fails[0][0], x.fails[0][1], [], None))
    # concrete scenarios: a failing input for a failed obligation, and a second line of defence
    conc = {}
    found = []
    try:
        import concrete
        found, conc = concrete.search(W, pid, failures, seed, tier, remaining=max(60, (780 if tier == "quick" else 3600) - (time.time() - T0)))
    except ModuleNotFoundError as e:
        if e.name != "concrete":
            raise
    if conc.get("error"):
        print("note: the concrete search stopped on an error (it decides nothing): " + conc["error"].strip().splitlines()[-1][:200], file=sys.stderr)
    known = []
    import findings
    found, failures, known = findings.split(pid, found, failures)
    # evidence
    tot = sum(o.n for o in obs.d.values())
    good = sum(o.proved for o in obs.d.values())
    by = {}
    for o in obs.d.values():
        for k, c in o.by.items():
            by[k] = by.get(k, 0) + c
    cov.update({
        "obligations": tot, "discharged": good, "checker_cmd": "./check %s" % pid,
        "named_obligations": {o.name: {"instances": o.n, "discharged": o.proved, "status": o.status(), "by": o.by, "solver_s": round(o.secs, 2)} for o in obs.d.values()},
        "cover": obs.cover, "discharged_by": by, "solver_s": round(sum(o.secs for o in obs.d.values()), 2),
        "scenes": names, "functions_under_contract": sorted(k for k, v in contracts.items() if v[0] == "verified"),
        "entry_points_under_contract": sorted({x["entry"] + " [" + x["scene"] + "]" for x in names if not x["incomplete"]}),
        "contracts_used_at_calls": sorted(W.usedc) if W else [], "functions_executed_from_mir": sorted(x for x in (W.used if W else []) if "halo" in x or "bignumber" in x),
        "contract_obligations": sum(x.n for s in contracts.values() if s[1] for x in s[1].d.values()),
        "contract_obligations_discharged": sum(x.proved for s in contracts.values() if s[1] for x in s[1].d.values()),
        "trusted_base": TRUSTED, "bounded": sorted(W.bounded) if W else [], "concrete": conc, "known_findings": known,
        "failed": [(f[0], f[1], f[2][:1500]) for f in failures[:20]],
    })
    lines = []
    for k in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, k))
    if found or failures:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        path = HERE + "/evidence/%s.violation.json" % pid
        r = {"property": pid, "failed_obligations": [{"obligation": f[0], "status": f[1], "verifier_output": f[2]} for f in failures[:20]]}
        if found:
            r["failing_input"] = found[0]
        json.dump(r, open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"))
        for f in failures[:6]:
            print("failed obligation %s (%s): %s" % (f[0], f[1], f[2][:600]))
        for f in found[:3]:
            print("failing input: " + json.dumps(f, default=str)[:1500])
        ev["violations"] = [{"replay": path, "obligations": [f[0] for f in failures[:20]], "failing_input": bool(found)}]
    ev["wall_s"] = round(time.time() - T0, 1)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1, default=str)
    print("%s: %d obligations in %d instances, %d discharged, %.0f s" % (pid, len(obs.d), tot, good, time.time() - T0))
    for l in lines:
        print(l)
    return 1 if (found or failures) else 0


TRUSTED = [
    "rustc nightly: the MIR it produces is the code that runs (extraction: engine/mirdump, all monomorphic bodies reachable from the entry points)",
    "the engine in /verif/engine: symbolic interpreter of MIR, natives.py (standard library functions replaced by their meaning), world.py (storage, JSON, queries)",
    "z3 and cvc5",
    "models of the host: address validation/canonicalisation/humanisation as functions with canonicalise/humanise inverse to one another, storage as a map, queries as functions of the request",
    "serde_json_wasm and the derives of serde: a value is written as its JSON tree and read back as the same tree; cw_storage_plus Items and Maps as typed cells",
]
ASSUMPTIONS = [
    "the funds of a message name each denomination once",
    "one block is one deterministic call: no other contract runs between the queries of one call",
    "an abort (panic) and an error both revert the call and count as a rejection of the entry point",
    "sequences have fewer than 2^32 elements",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv))
