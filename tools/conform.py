#!/usr/bin/env python3
"""Conformance of the interpreter: random calls of every entry point are run twice, by the interpreter in /verif/engine on the
dumped MIR and by the natively compiled contracts; response, answer, rejection and storage must agree.

    python3-vt tools/conform.py SECONDS [SEED] [SCENE]     (after ./check has built .build/mir.json and the scenario runner)

It checks the trusted part of the machinery (interpreter, meanings of library functions, storage and JSON models) on samples;
no property is decided by it."""
import sys, os, json, time, base64, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/engine")
sys.setrecursionlimit(20000)
import multiprocessing as mp
import mir as M, verify, entry, concrete, world, check
from concrete import *
from run import call
from values import *


def outcome(W, sc, fn, scn):
    """what the interpreter makes of the call"""
    I = interp(W, scn["g"], scn["storage"])
    I.cfg["max_iter"] = 10000
    args = []
    for i, nm in enumerate(sc.args):
        if nm == "deps":
            args.append(fresh(W.mir, fn.locals[i + 1], nm))
        else:
            t = {"env": scn["env"], "info": scn["info"], "msg": to_python(scn["msg"], sc.name)}[nm]
            args.append(from_tree(W.mir, fn.locals[i + 1], json_tree(t)))
    o = call(I, fn, args)
    if o.kind != "ret":
        return ("panic", o.why)
    rt = fn.locals[0]
    vi = I.variant(o.value)
    if W.mir.types[rt].d["vs"][vi]["n"] != "Ok":
        return ("err", None)
    cx = entry.Cx()
    entry.response(I, cx, I.vfield(o.value, vi, 0), W.mir.types[rt].d["vs"][vi]["f"][0][1])
    w = {}
    for (k, ns, key, ty, v) in verify.final(I, I.store.log):
        w[ns if k == "item" else world.mapkey(ns, key)] = None if v is None else entry.to_json(I, ty, v)
    return ("ok", norm(cx.msgs) if cx.msgs is not None else None, cx.attrs, cx.extra, cx.data, w)


def same_tree(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a == b or (a[0] in "sn" and b[0] in "sn" and a[0] == b[0] and txt(a[1]) == txt(b[1]))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_tree(a[k], b[k]) for k in a)
    if isinstance(a, (list, VecV)) and isinstance(b, (list, VecV)):
        return len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    return a == b


def txt(x):
    return x if not isinstance(x, str) else x.encode()


def compare(scn, res, o):
    cx = entry.Cx()
    fill(cx, scn, res)
    if not cx.accept:
        if o[0] == "ok":
            return "accepted by the interpreter, natively " + cx.why
        return None if (o[0] == "panic") == bool(res.get("panic")) else "%s by the interpreter, natively %s" % (o, cx.why)
    if o[0] != "ok":
        return "%s by the interpreter, natively accepted" % (o,)
    if cx.data is not None:
        return None if same_tree(cx.data, o[4]) else "answer %s, natively %s" % (o[4], cx.data)
    for nm, a, b in (("messages", o[1], cx.msgs), ("attributes", o[2], cx.attrs), ("extra", o[3], cx.extra)):
        if not same_tree(a, b):
            return "%s %s, natively %s" % (nm, a, b)
    for k in set(cx.after) | set(scn["storage"]) | set(o[5]):
        x = cx.after.get(k)
        if k in o[5]:
            y = o[5][k]
            if (x is None) != (y is None) or (x is not None and not same_tree(json_tree(json.loads(x)), y)):
                return "storage at %s: %s, natively %s" % (k, y, x)
        elif x != scn["storage"].get(k):
            return "storage at %s unchanged, natively %s" % (k, x)
    return None


def worker(W, scenes, seed, until, q):
    R = Runner()
    st = collections.Counter()
    bad, skip = [], collections.Counter()
    n = 0
    while time.time() < until:
        for sc in scenes:
            fn = next(f for f in W.mir.by_def[sc.df] if f.blocks is not None)
            scns, outs = [], []
            for _ in range(20):
                n += 1
                scn = GENS[sc.name](G("%s/%s/%s" % (seed, sc.name, n), {}))
                try:
                    o = outcome(W, sc, fn, scn)
                except world.BadJson:
                    continue        # a message that does not parse never reaches the contract
                except (NotConcrete, Unsupported, Bound, RecursionError) as e:
                    skip["%s: %s" % (sc.name, (" <- ".join(str(x) for x in e.args) or type(e).__name__)[:200])] += 1
                    continue
                except Exception as e:
                    import traceback
                    o = ("crash", traceback.format_exc()[-700:])
                scns.append(scn)
                outs.append(o)
            # the queries of the interpreted run have fixed the answers the native run gets
            for scn, r, o in zip(scns, run_batch(R, scns), outs):
                if "badmsg" in r:
                    continue
                c = compare(scn, r, o) if o[0] != "crash" else "interpreter: " + o[1]
                st[sc.name + (" accepted" if "ok" in r else " rejected")] += 1
                if c:
                    bad.append((sc.name, c[:1500], json.dumps(line(scn))[:3000]))
                    if len(bad) > 5:
                        q.put((dict(st), dict(skip), bad))
                        return
    R.close()
    q.put((dict(st), dict(skip), bad))


def main():
    secs, seed = float(sys.argv[1]), sys.argv[2] if len(sys.argv) > 2 else "1"
    pat = sys.argv[3] if len(sys.argv) > 3 else ""
    check.modules(check.HELPERS)
    W = verify.World(M.Mir(HERE + "/.build/mir.json"), {})
    scenes = [s for m in check.modules(check.SPECS) for s in m.SCENES if s.name in GENS and pat in s.name]
    q = mp.Queue()
    until = time.time() + secs
    ps = [mp.Process(target=worker, args=(W, scenes, "%s.%d" % (seed, i), until, q)) for i in range(min(8, os.cpu_count()))]
    for p in ps:
        p.start()
    tot, skip, bad = collections.Counter(), collections.Counter(), []
    for p in ps:
        a, b, c = q.get()
        tot.update(a), skip.update(b), bad.extend(c)
    for k in sorted(tot):
        print("%-28s %d" % (k, tot[k]))
    for k, v in skip.most_common(20):
        print("skipped %d  %s" % (v, k))
    for b in bad[:6]:
        print("DISAGREE", *b)
    print("agree: %d calls, %d skipped, %d disagreements" % (sum(tot.values()) - len(bad), sum(skip.values()), len(bad)))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
