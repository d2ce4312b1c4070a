"""Search for failing inputs: calls of the real code, compiled natively, judged by the same specifications.

The proof obligations decide; this search gives a failed obligation an input on which the real code breaks the property, and
runs on the unchanged tree too, as a check of the specifications against the code that runs."""
import os, json, base64, subprocess, threading, random, re, time, sys, traceback
import multiprocessing as mp
from term import *
from values import *
from path import Path
from interp import Interp
import world, entry, smt
from world import Store, from_tree, json_tree, parse
from speclib import S, V, Out, Reject
from scenarios import GENS, KINDS, G, dump, rkey, canon_bytes, mapkey
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = HERE + "/.build/harness-target/debug/replay"


class NotConcrete(Exception):
    pass


class ConcPath(Path):
    concrete = True

    def branch(self, c):
        if isinstance(c, bool):
            return c
        raise NotConcrete("condition " + repr(c)[:200])

    def assume(self, c):
        if c is not True:
            raise NotConcrete("assumption")

    def lookup(self, c):
        return c if isinstance(c, bool) else None


class ConcApi:
    """the same host as in the scenario runner"""
    conc = True

    def canonicalize(self, I, s):
        t = s.decode("utf8", "replace")
        if not 3 <= len(s) <= 44 or " " in t:
            return None
        return t.lower().encode()[::-1]

    def humanize(self, I, c):
        try:
            t = c[::-1].decode("utf8")
        except UnicodeDecodeError:
            return None
        if not 3 <= len(c) <= 44 or " " in t or t.lower() != t:
            return None
        return t.encode()

    def validate(self, I, s):
        c = self.canonicalize(I, s)
        h = None if c is None else self.humanize(I, c)
        return h if h == s else None


class ConcQuerier:
    def __init__(self, g):
        self.g = g

    def query(self, I, req, ty):
        if not isinstance(req, bytes):
            raise NotConcrete("query")
        a = self.g.answer(request_key(req))
        return None if a is None else parse(I, ty, dump(a))


def request_key(req):
    q = json.loads(req)
    try:
        s = q["wasm"]["smart"]
        s["msg"] = json.loads(base64.b64decode(s["msg"]))
    except (KeyError, TypeError, ValueError):
        pass
    return rkey(q)


def reply_parse(I, b):
    """address in the data of an instantiation reply"""
    def part(n):
        nonlocal b
        if not b:
            return b""
        if b[0] != n * 8 + 2:
            raise ValueError
        i, ln, sh = 1, 0, 0
        while True:
            if i >= len(b) or sh > 28:
                raise ValueError
            ln |= (b[i] & 127) << sh
            sh += 7
            i += 1
            if b[i - 1] < 128:
                break
        if len(b) < i + ln:
            raise ValueError
        x, b = b[i:i + ln], b[i + ln:]
        return x
    try:
        a = part(1)
        a.decode("utf8")
        part(2)
        return a
    except ValueError:
        return None


def interp(W, g, table):
    I = Interp(W.mir, ConcPath([]), {"contracts": {}, "used": set(), "usedc": set(), "max_iter": 100})
    I.store, I.api, I.querier, I.reply_parse = Store(table), ConcApi(), ConcQuerier(g), reply_parse
    return I


class CQ:
    """collects what a judge finds wrong"""
    symbolic = False

    def __init__(self, I):
        self.I = I
        self.bad = []
        self.good = 0
        self.obs = self

    def get(self, name):
        self.fails = [1]
        return self

    def branch(self, c):
        if isinstance(c, bool):
            return c
        raise NotConcrete("judged condition")

    def cover(self, name):
        pass

    def require(self, name, goal, hyps=(), detail=""):
        if not isinstance(goal, bool):
            raise NotConcrete("goal of %s: %s" % (name, repr(goal)[:200]))
        if goal:
            self.good += 1
        else:
            self.bad.append((name, detail))
        return goal


def norm(t):
    """embedded JSON written with sorted keys, as the specifications write it"""
    if isinstance(t, dict):
        return {k: (emb(v) if k == "msg" and isinstance(v, tuple) else norm(v)) for k, v in t.items()}
    if isinstance(t, list):
        return [norm(x) for x in t]
    return t


def emb(leaf):
    if leaf[0] != "s":
        return leaf
    try:
        x = json.loads(base64.b64decode(leaf[1], validate=True))
    except ValueError:
        return leaf
    return ("s", base64.b64encode(dump(jnorm(x))))


def jnorm(x):
    if isinstance(x, dict):
        o = {}
        for k, v in x.items():
            if k == "msg" and isinstance(v, str):
                v = emb(("s", v.encode()))[1].decode()
            o[k] = jnorm(v)
        return o
    if isinstance(x, list):
        return [jnorm(y) for y in x]
    return x


def to_python(msg, name):
    """the message as the specification reads it"""
    if name.endswith(".reply") and isinstance(msg, dict) and "error" in msg.get("result", {}):
        return dict(msg, result={"err": msg["result"]["error"]})
    return msg


def setup(W, sc, fn, scn):
    """(S, args) of the specification, or None when the scene is about other calls"""
    I = interp(W, scn["g"], scn["storage"])
    S_ = S(I)
    S_.info, S_.scene = {}, sc
    av = {}
    for i, nm in enumerate(sc.args):
        if nm == "deps":
            av[nm] = None
            continue
        t = {"env": scn["env"], "info": scn["info"], "msg": to_python(scn["msg"], sc.name)}[nm]
        av[nm] = V(S_, fn.locals[i + 1], from_tree(W.mir, fn.locals[i + 1], json_tree(t)))
    if sc.setup and sc.setup(S_, av) is False:
        return None
    return S_, av


def spec(sc, S_, av):
    cx = entry.Cx()
    cx.S, cx.a, cx.I = S_, av, S_.I
    try:
        cx.out = sc.spec(S_, av)
    except Reject as e:
        cx.stage = e.stage
    return cx


def fill(cx, scn, res):
    """what the code did"""
    cx.conc = scn["storage"]
    if "ok" in res:
        cx.accept = True
        r = res["ok"]
        if isinstance(r, str):
            raw = base64.b64decode(r)
            cx.raw = raw
            cx.data = json_tree(json.loads(raw))
        else:
            t = json_tree(r)
            cx.msgs, cx.attrs = norm(t["messages"]), t["attributes"]
            cx.extra = t["events"] == [] and t["data"] is None
        after = {bytes.fromhex(k): bytes.fromhex(v) for k, v in res["storage"]}
        cx.after = after
        cx.writes = []
        for k in sorted(set(after) | set(scn["storage"])):
            if after.get(k) != scn["storage"].get(k):
                v = after.get(k)
                try:
                    v = None if v is None else json_tree(json.loads(v))
                except ValueError:
                    v = ("s", v)
                if k[:1] == b"\0" and len(k) > 2:
                    n = int.from_bytes(k[:2], "big")
                    cx.writes.append(("map", k[2:2 + n], k[2 + n:], None, v))
                else:
                    cx.writes.append(("item", k, None, None, v))
    else:
        cx.why = "abort" if res.get("panic") else "error: " + str(res.get("err"))
        cx.writes = []


def line(scn, contract=None):
    s = {k: scn[k] for k in ("contract", "entry", "env", "info", "msg")}
    if contract:
        s["contract"] = contract
    s["storage"] = [[k.hex(), v.hex()] for k, v in sorted(scn["storage"].items())]
    s["queries"] = {k: v for k, v in scn["g"].memo.items() if v is not None}
    return s


class Runner:
    def __init__(self):
        self.p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1 << 16)

    def run(self, lines):
        if not lines:
            return []
        text = "".join(json.dumps(l) + "\n" for l in lines[:-1]) + json.dumps(dict(lines[-1], flush=True)) + "\n"

        def feed():  # in a thread of its own: both pipes are smaller than a batch
            self.p.stdin.write(text)
            self.p.stdin.flush()
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        out = [json.loads(self.p.stdout.readline()) for _ in lines]
        t.join()
        return out

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def run_batch(R, scns, contract=None):
    """runs the calls; queries without an answer get one and the call is made again"""
    res = [None] * len(scns)
    todo = list(range(len(scns)))
    for _ in range(6):
        out = R.run([line(scns[i], contract) for i in todo])
        again = []
        for i, r in zip(todo, out):
            res[i] = r
            g = scns[i]["g"]
            new = [k for k in r.get("queries", []) if k not in g.memo]
            for k in new:
                g.answer(k)
            if any(g.memo[k] is not None for k in new):
                again.append(i)
        todo = again
        if not todo:
            break
    return res


def show(scn, res, bad, sc):
    return {"scenario": line(scn), "outcome": res, "specification": bad, "scene": sc.name, "replay_cmd": "the scenario, as one JSON line, on the standard input of .build/harness-target/debug/replay"}


def worker(W, pid, scenes, seed, hints, until, q, maxfound):
    st = {"calls": 0, "accepted": 0, "judged": 0, "checks": 0, "skipped": {}, "scenes": {}}
    found = []
    R = Runner()
    try:
        n = 0
        while time.time() < until and len(found) < maxfound:
            for sc in scenes:
                if time.time() > until:
                    break
                fn = next(f for f in W.mir.by_def[sc.df] if f.blocks is not None)
                gen = GENS[sc.name]
                batch, cxs = [], []
                for _ in range(40):
                    n += 1
                    h = dict(hints, kind=KINDS.get(pid))
                    scn = gen(G("%s/%s/%s" % (seed, sc.name, n), h))
                    try:
                        cx = None
                        if not getattr(sc, "pair_with", None):
                            a = setup(W, sc, fn, scn)
                            if a is None:
                                continue
                            cx = spec(sc, *a)
                    except (NotConcrete, Unsupported, world.BadJson) as e:
                        k = "%s: %s" % (sc.name, " <- ".join(str(x) for x in e.args)[:160] or type(e).__name__)
                        st["skipped"][k] = st["skipped"].get(k, 0) + 1
                        continue
                    batch.append(scn)
                    cxs.append(cx)
                res = run_batch(R, batch)
                if getattr(sc, "pair_with", None):
                    ref = run_batch(R, batch, sc.pair_with)
                    for scn, r, r2 in zip(batch, res, ref):
                        if "badmsg" in r:
                            continue
                        st["calls"] += 1
                        st["judged"] += 1
                        st["checks"] += 1
                        st["accepted"] += "ok" in r
                        r, r2 = dict(r), dict(r2)
                        r.pop("queries", 0), r2.pop("queries", 0)
                        if r != r2 and not ("ok" not in r and "ok" not in r2 and ("err" in r) == ("err" in r2) and r.get("err") == r2.get("err")):
                            found.append(show(scn, r, [("differs from " + sc.pair_with, json.dumps(r2)[:1500])], sc))
                    continue
                for scn, cx, r in zip(batch, cxs, res):
                    if "badmsg" in r:
                        k = sc.name + ": message not readable: " + r["badmsg"][:80]
                        st["skipped"][k] = st["skipped"].get(k, 0) + 1
                        continue
                    st["calls"] += 1
                    try:
                        fill(cx, scn, r)
                        st["accepted"] += cx.accept
                        x = st["scenes"].setdefault(sc.name, [0, 0])
                        x[cx.accept] += 1
                        cq = CQ(cx.I)
                        cq.scene = sc.name
                        sc.judges[pid](cq, cx)
                        st["judged"] += 1
                        st["checks"] += cq.good
                        if cq.bad:
                            found.append(show(scn, r, cq.bad, sc))
                    except (NotConcrete, Unsupported, world.BadJson) as e:
                        k = "%s (judge): %s" % (sc.name, " <- ".join(str(x) for x in e.args)[:160] or type(e).__name__)
                        st["skipped"][k] = st["skipped"].get(k, 0) + 1
                    if len(found) >= maxfound:
                        break
    except Exception:
        st["error"] = traceback.format_exc()[-1500:]
    try:
        R.close()
    except Exception:
        pass
    q.put((st, json.loads(json.dumps(found, default=str))))


# ---------------------------------------------------------------- operations of the number types
BN = {"u_cmp": "u_lt", "d_cmp": "d_lt", "d_round_trip": None, "u_round_trip": None}


def bn_num(r, hints, hi=2 ** 256 - 1):
    x = r.random()
    if hints.get("ints") and x < 0.3:
        v = r.choice(hints["ints"]) + r.choice([0, 0, 1, -1])
    elif x < 0.5:
        v = r.choice([0, 1, 2, 3, 10, 999, 1000, 10 ** 18 - 1, 10 ** 18, 10 ** 18 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 128 - 1, 2 ** 128, 2 ** 192, 2 ** 255, 2 ** 256 - 2, 2 ** 256 - 1, (2 ** 256 - 1) // 10 ** 18])
    else:
        v = r.getrandbits(r.choice([8, 32, 63, 64, 65, 100, 127, 128, 129, 192, 196, 197, 255, 256]))
        if r.random() < 0.2:
            v = v * 10 ** 18
    return min(max(v, 0), hi)


def bn_text(r, hints, dec_):
    d = lambda n: "".join(r.choice("0123456789") for _ in range(n))
    x = r.random()
    if x < 0.5:
        t = str(bn_num(r, hints) >> r.choice([0, 60, 128, 200]))
    else:
        t = d(r.choice([0, 1, 2, 5, 20]))
    if dec_ and r.random() < 0.7:
        t += "." + (d(r.choice([0, 1, 2, 9, 17, 18, 19])) if r.random() < 0.8 else "0" * r.choice([1, 5, 17]) + d(1))
    if r.random() < 0.1:
        t = r.choice(["", ".", "-1", "+1", " 1", "1 ", "1e3", "0x10", "1.2.3", "a", "00012", "1_000", t + "x", ".5", "5."])
    return t


def bn_search(W, names, mods, seed, hints, until, maxfound):
    """the public operations of the number types on boundary and random values"""
    r = random.Random("bn%s" % seed)
    R = Runner()
    st = {"calls": 0, "judged": 0, "checks": 0, "accepted": 0, "skipped": {}}
    found = []
    while time.time() < until and len(found) < maxfound:
        batch = []
        for nm in names:
            op = nm.rsplit("root_bn_", 1)[1]
            fn = next((f for f in W.mir.by_def.get(nm, []) if f.blocks is not None), None)
            hop = BN.get(op, op)
            if fn is None or hop is None:
                continue
            for _ in range(12):
                args, mv = [], []
                for i in range(fn.argc):
                    ty = fn.locals[i + 1]
                    tn = W.mir.tyname(ty)
                    if "str" in tn:
                        t = bn_text(r, hints, op.startswith("d_"))
                        args.append(t)
                        mv.append(t.encode())
                    else:
                        hi = 2 ** 128 - 1 if op in ("u_from_u128", "u_from_uint128", "d_from_decimal") else 2 ** 64 - 1 if op in ("u_from_u64", "d_percent", "d_permille") else 2 ** 256 - 1
                        v = bn_num(r, hints, hi)
                        if args and r.random() < 0.2:
                            v = min(hi, max(0, int(args[0]) + r.choice([-1, 0, 1]))) if args[0].isdigit() else v
                        args.append(str(v))
                        mv.append(world.mk_int(W.mir, ty, v))
                batch.append((nm, fn, {"contract": "bn", "op": hop, "args": args}, mv))
        res = R.run([b[2] for b in batch])
        for (nm, fn, l, mv), x in zip(batch, res):
            st["calls"] += 1
            try:
                I = interp(W, G(0, {}), {})
                C = mods[nm]
                try:
                    v = C.apply(I, fn, mv)
                    exp = bn_value(I, fn.locals[0], v)
                except Panic:
                    exp = {"panic": True}
            except (NotConcrete, Unsupported) as e:
                k = "%s: %s" % (nm, " ".join(str(y) for y in e.args)[:120])
                st["skipped"][k] = st["skipped"].get(k, 0) + 1
                continue
            st["judged"] += 1
            st["checks"] += 1
            got = {"err": True} if "err" in x else x
            if got != exp:
                found.append({"scenario": l, "outcome": x, "specification": exp, "scene": nm, "replay_cmd": "the scenario, as one JSON line, on the standard input of .build/harness-target/debug/replay"})
                if len(found) >= maxfound:
                    break
    R.close()
    return st, found


def bn_value(I, ty, v):
    t = I.mir.types[ty]
    if t.k == "adt" and t.d["name"] == "std::result::Result":
        vi = I.variant(v)
        if t.d["vs"][vi]["n"] == "Err":
            return {"err": True}
        return bn_value(I, t.d["vs"][vi]["f"][0][1], I.vfield(v, vi, 0))
    if isinstance(v, bool):
        return {"ok": v}
    if isinstance(v, bytes):
        return {"ok": v.decode()}
    x = v
    while isinstance(x, Agg):
        x = x.f[0]
    if isinstance(x, bytes):
        return {"ok": x.decode()}
    if not isinstance(x, int):
        raise NotConcrete("value")
    return {"ok": str(x)}


# ---------------------------------------------------------------- hints
def code_hints(mir):
    """integers and texts written in the code of the repository"""
    ints, strs, seen = set(), set(), set()

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "k" and isinstance(x[1], int):
                if x[1] not in seen:
                    seen.add(x[1])
                    v = mir.consts[x[1]][1]
                    if "i" in v:
                        ints.add(int(v["i"]))
                    elif "str" in v:
                        t = bytes.fromhex(v["str"]).decode("utf8", "replace")
                        if re.match(r"^[a-zA-Z0-9/_:.-]{1,60}$", t):
                            strs.add(t)
                return
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    for f in mir.fns.values():
        if f.blocks is not None and re.match(r"^<?(halo_|haloswap|bignumber)", f.df):
            walk(f.blocks)
    return {x for x in ints if x > 2}, strs


def named_hints(failures):
    """values of the solver models by the name of the field"""
    named, ints = {}, set()
    for f in failures:
        for x in f[3] or []:
            if isinstance(x, int):
                ints.add(x)
        for k, v in re.findall(r"([\w:.#$]+)(?:/[A-Z]+)? = (\d+)(?:;|\]|$)", f[2]):
            named.setdefault(re.split(r"[.:#]", k)[-1], set()).add(int(v))
        for k, body in re.findall(r"([\w:.#$]+)/[A-Z]+ = \[([^\]]*)\]", f[2]):
            for v in re.findall(r"-> (\d+)", body):
                named.setdefault(re.split(r"[.:#]", k)[-1], set()).add(int(v))
    return {k: sorted(v) for k, v in named.items()}, sorted(ints)


# ---------------------------------------------------------------- entry
def search(W, pid, failures, seed, tier, remaining):
    if W is None or not os.path.exists(BIN):
        return [], {}
    t0 = time.time()
    mods = [__import__(n) for n in ("specs_pair", "specs_factory", "specs_router", "specs_token")]
    scenes = [sc for m in mods for sc in m.SCENES if pid in sc.judges and sc.name in GENS]
    import specs_bn
    names = [d for d in specs_bn.DECIDES.get(pid, ())]
    failing = bool(failures)
    secs = (150 if tier == "quick" else 900) if failing else (8 if tier == "quick" else 300)
    until = t0 + min(secs, max(5, remaining - 20))
    named, ints = named_hints(failures)
    ci, cs = code_hints(W.mir)
    hints = {"named": named, "ints": sorted(set(ints) | {x for x in ci if x < 2 ** 128}), "strs": sorted(cs - BASE_STRS)}
    total = {"seconds": 0, "calls": 0, "accepted": 0, "judged": 0, "checks": 0, "skipped": {}, "scenes": {}}
    found = []
    nproc = 8 if failing or tier != "quick" else 4
    maxfound = 1 if failing else 2
    q = mp.Queue()
    ps = []
    if scenes:
        for k in range(nproc):
            ps.append(mp.Process(target=worker, args=(W, pid, scenes, "%s.%d" % (seed, k), hints, until, q, maxfound), daemon=True))
    if names:
        cm = {d: specs_bn.CONTRACTS[d] for d in names}

        def bnw(k):
            try:
                q.put(bn_search(W, names, cm, "%s.%d" % (seed, k), hints, until, maxfound))
            except Exception:
                q.put(({"calls": 0, "accepted": 0, "judged": 0, "checks": 0, "skipped": {}, "error": traceback.format_exc()[-1500:]}, []))
        for k in range(nproc):
            ps.append(mp.Process(target=bnw, args=(k,), daemon=True))
    for p in ps:
        p.start()
    left = len(ps)
    while left:
        try:
            st, fd = q.get(timeout=max(1, until + 30 - time.time()))
        except Exception:
            break
        left -= 1
        for k in ("calls", "accepted", "judged", "checks"):
            total[k] += st[k]
        for k, v in st["skipped"].items():
            total["skipped"][k] = total["skipped"].get(k, 0) + v
        for k, v in st.get("scenes", {}).items():
            x = total["scenes"].setdefault(k, [0, 0])
            x[0] += v[0]
            x[1] += v[1]
        if st.get("error"):
            total["error"] = st["error"]
        found += fd
        if found and failing:
            break
    for p in ps:
        if p.is_alive():
            p.terminate()
    for p in ps:
        p.join(5)
    for m in mods:
        for f in getattr(m, "FINDINGS", []):
            if f[0] == pid:
                x = f[1](W)
                if x:
                    found.append(x)
    total["seconds"] = round(time.time() - t0, 1)
    total["rejected_accepted_per_scene"] = total.pop("scenes")
    return found, total


BASE_STRS = set()
