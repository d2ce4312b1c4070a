"""Verification of contracts and entry specifications, path by path."""
import time, copy
from term import *
import term as tm
import smt
from values import *
from path import Path, explore
from interp import Interp
from natives import mk_variant, veq_deep, out_ty, ok_ty, err_ty, expand_dectext
from run import new_interp, call, Outcome
import world


class SpecErr(Exception):
    """the specification says: returns an error"""


class Contract:
    """functional specification of one function: spec(I, fn, args) returns the value, or raises SpecErr / Panic"""

    def __init__(self, df, spec, deps=(), text=""):
        self.df = df
        self.spec = spec
        self.text = text or (spec.__doc__ or "").strip()

    def apply(self, I, fn, args):
        try:
            return self.spec(I, fn, args)
        except SpecErr:
            return mk_variant(I, out_ty(I, fn), "Err", Opaque("error"))


class Ob:
    """a named obligation, aggregated over paths"""

    def __init__(self, name):
        self.name = name
        self.n = 0
        self.proved = 0
        self.by = {}
        self.secs = 0.0
        self.fails = []        # (status, detail, model hints)

    def status(self):
        if not self.fails:
            return "discharged" if self.n else "vacuous"
        if any(f[0] == "refuted" for f in self.fails):
            return "refuted"
        return "unknown"

    def pack(self):
        return dict(name=self.name, n=self.n, proved=self.proved, by=self.by, secs=round(self.secs, 3), status=self.status(), fails=self.fails[:6], nfails=len(self.fails))


class Obs:
    def __init__(self):
        self.d = {}
        self.cover = {}

    def failed(self):
        return sum(len(o.fails) for o in self.d.values())

    def merge(self, other):
        for k, o in other.d.items():
            m = self.get(k)
            m.n += o.n
            m.proved += o.proved
            m.secs += o.secs
            m.fails += o.fails
            for b, c in o.by.items():
                m.by[b] = m.by.get(b, 0) + c
        for k, c in other.cover.items():
            self.cover[k] = self.cover.get(k, 0) + c

    def get(self, name):
        if name not in self.d:
            self.d[name] = Ob(name)
        return self.d[name]


def model_ints(model):
    out = set()
    if model is None:
        return []
    try:
        for d in model.decls():
            v = model[d]
            try:
                out.add(v.as_long())
            except Exception:
                pass
    except Exception:
        pass
    return sorted(x for x in out if x >= 0)[:60]


def model_text(model):
    if model is None:
        return ""
    try:
        o = []
        for d in model.decls():
            n = d.name()
            if n.startswith(("lit_", "$", "m_")):
                continue
            o.append("%s = %s" % (n, str(model[d]).replace("\n", " ")[:120]))
        return "; ".join(sorted(o))[:3000]
    except Exception:
        return ""


class Budget:
    def __init__(self, quick=3000, nl=8000, cvc=10, paths=6000, secs=None):
        self.quick, self.nl, self.cvc, self.paths, self.secs = quick, nl, cvc, paths, secs


class PathCtx:
    """what an entry specification sees: the path, the interpreter, and the obligations"""

    def __init__(self, I, obs, budget):
        self.I = I
        self.p = I.p
        self.obs = obs
        self.budget = budget

    def branch(self, c):
        return self.p.branch(c)

    def cover(self, name):
        self.obs.cover[name] = self.obs.cover.get(name, 0) + 1

    def require(self, name, goal, hyps=(), detail=""):
        ob = self.obs.get(name)
        ob.n += 1
        if goal is True or (isinstance(goal, T) and self.p.lookup(goal) is True):
            ob.proved += 1
            ob.by["simplifier"] = ob.by.get("simplifier", 0) + 1
            return True
        st, by, model, secs = smt.decide(list(self.p.pc) + [h for h in hyps if h is not True], goal, self.budget.quick, self.budget.nl, self.budget.cvc)
        ob.secs += secs
        ob.by[by] = ob.by.get(by, 0) + 1
        if st == "proved":
            ob.proved += 1
            return True
        ob.fails.append((st, (detail + " goal: " + tm.show(goal))[:700], model_text(model), model_ints(model)))
        return False


# ---------------------------------------------------------------- equality of results
def same(I, a, b):
    """term: the two values are equal (error payloads are not compared)"""
    a, b = I.deep(a), I.deep(b)
    if a is b:
        return True
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what == b.what:
            if a.what == "fmt":
                return same(I, a.data, b.data)
            if a.data == b.data:
                return True
        raise Unsupported("comparison of %s and %s" % (short(a), short(b)))
    if isinstance(a, Dyn) and isinstance(b, Dyn):
        return True
    if isinstance(a, (int, bytes, T)) or isinstance(b, (int, bytes, T)):
        a, b = unnew(I, a), unnew(I, b)
        if isinstance(a, VecV):
            a = I.sval(a)
        if isinstance(b, VecV):
            b = I.sval(b)
        if sort_of(a) == "S":
            if isinstance(a, T) and a.op == "dectext" and not (isinstance(b, T) and b.op == "dectext"):
                a = expand_dectext(I, a)
            if isinstance(b, T) and b.op == "dectext" and not (isinstance(a, T) and a.op == "dectext"):
                b = expand_dectext(I, b)
        return veq(a, b)
    if isinstance(a, VecV) and isinstance(b, VecV):
        if len(a.e) != len(b.e):
            return False
        return and_(*[same(I, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, SeqV) or isinstance(b, SeqV):
        return same_seq(I, a, b)
    va, vb = I.variant(a), I.variant(b)
    if va != vb:
        return False
    tid = a.tid if a.tid is not None else b.tid
    t = I.mir.types[tid] if tid is not None else None
    if t is not None and t.k == "adt" and t.d["name"] == "std::result::Result" and t.d["vs"][va]["n"] == "Err":
        return True
    n = len(a.f) if type(a) is Agg else len(b.f) if type(b) is Agg else len(t.d["vs"][va]["f"])
    r = True
    for i in range(n):
        r = and_(r, same(I, I.vfield(a, va, i), I.vfield(b, va, i)))
        if r is False:
            return False
    return r


def same_seq(I, a, b):
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        if a.base == b.base and a.args == b.args and a.fn is None and b.fn is None:
            return ieq(a.len, b.len)
        i = app("idx#%d" % I.p.fresh_id(), (), "I", 0, 2 ** 32)
        ln = ieq(a.len, b.len)
        if not I.p.branch(and_(lt(i, a.len), lt(i, b.len))):
            return ln
        return and_(ln, same(I, a.elem(i), b.elem(i)))
    if isinstance(b, SeqV):
        a, b = b, a
    if not isinstance(b, VecV):
        raise Unsupported("sequence comparison")
    if not I.p.branch(ieq(a.len, len(b.e))):
        return False
    return and_(*[same(I, a.elem(i), y) for i, y in enumerate(b.e)])


def unnew(I, x):
    x = I.deep(x)
    while type(x) is Agg and len(x.f) == 1:
        x = I.deep(x.f[0])
    return x


def same_logs(I, la, lb):
    """storage effects: the same locations end with the same values"""
    fa, fb = final(I, la), final(I, lb)
    if fa is None or fb is None:
        raise Unsupported("storage effects")
    if len(fa) != len(fb):
        return False
    r = True
    for (k, ns, key, ty, v) in fa:
        hit = False
        if k == "each":
            l = [e for e in fb if e[:2] == (k, ns)]
            if len(l) != 1 or not I.p.branch(ieq(key, l[0][2])):
                return False
            i = app("idx#%d" % I.p.fresh_id(), (), "I", 0, 2 ** 32)
            if I.p.branch(lt(i, key)):
                r = and_(r, same_logs(I, v(i), l[0][4](i)))
            continue
        for (k2, ns2, key2, ty2, v2) in fb:
            if k == k2 and ns == ns2 and (key is None or I.p.branch(seq(key, key2))):
                if (v is None) != (v2 is None):
                    return False
                r = and_(r, True if v is None else same(I, v, v2))
                hit = True
                break
        if not hit:
            return False
    return r


def final(I, log):
    """last write per location"""
    out = []
    if any(e[0] == "each" for e in log):
        log = [e for e in log if e[0] != "each" or not I.p.branch(ieq(e[2], 0))]
        for i, e in enumerate(log):
            if e[0] == "each" and any(o[1] == e[1] for o in log[:i] + log[i + 1:]):
                raise Unsupported("writes of a loop among other writes to the same map")
    for e in log:
        if e[0] == "each":
            out.append(e)
            continue
        n = []
        for o in out:
            if o[0] == e[0] and ((e[0] != "raw" and o[1] == e[1] and (e[2] is None or I.p.branch(seq(o[2], e[2])))) or (e[0] == "raw" and I.p.branch(seq(o[1], e[1])))):
                continue
            n.append(o)
        out = n + [e]
    return [(a, b if a != "raw" else "raw", c if a != "raw" else b, d, v) for a, b, c, d, v in out]


# ---------------------------------------------------------------- contracts
class World:
    """all verified contracts and settings shared by the runs"""

    def __init__(self, mir, contracts, budget=None):
        self.mir = mir
        self.all = contracts          # df -> Contract
        self.ok = {}                  # verified ones
        self.status = {}
        self.budget = budget or Budget()
        self.used = set()
        self.usedc = set()
        self.bounded = set()
        self.max_iter = 4

    def cfg(self, verify=None):
        return {"contracts": self.ok, "verify": verify, "used": self.used, "usedc": self.usedc, "max_iter": self.max_iter}


def snapshot_args(args):
    """private copies of what references reach, so that both sides see the same initial state"""
    memo = {}

    def go(v):
        if type(v) is Ref:
            c = memo.get(id(v.cell))
            if c is None:
                c = Cell(None)
                memo[id(v.cell)] = c
                c.v = go(v.cell.v)
            return Ref(c, v.path)
        if type(v) is Agg:
            return Agg(v.tid, v.v, tuple(go(x) for x in v.f))
        if type(v) is VecV:
            return VecV([go(x) for x in v.e])
        if type(v) is IterV:
            return IterV(v.by, go(v.src), v.lo, v.hi, v.extra)
        return v
    return [go(a) for a in args]


def verify_contract(W, C, instances=None, arggen=None, pre=None):
    """prove the contract for every instance of its function; returns (status, obligations)"""
    obs = Obs()
    t0 = time.time()
    l = [f for f in W.mir.by_def.get(C.df, []) if f.blocks is not None]
    if not l:
        return "absent", obs, "no such function"
    why = ""
    for fn in l:
        def go(p):
            I = new_interp(W.mir, p, W.cfg(C.df))
            args = arggen(I, fn) if arggen else [fresh(W.mir, fn.locals[i + 1], "a%d" % i) for i in range(fn.argc)]
            a2 = snapshot_args(args)
            o = call(I, fn, args)
            q = PathCtx(I, obs, W.budget)
            I2 = Interp(W.mir, p, W.cfg(C.df))
            I2.store, I2.api, I2.querier, I2.reply_parse = world.Store(), I.api, I.querier, I.reply_parse
            try:
                v = C.apply(I2, fn, a2)
                if o.kind == "panic":
                    q.require("returns", False, detail="aborts: " + str(o.why))
                    return True
                q.cover("returns")
                q.require("result", same(I, o.value, v))
                for x, y in zip(args, a2):
                    if type(x) is Ref and writable(W.mir, fn, args, x):
                        q.require("arguments", same(I, x, y))
                q.require("effects", same_logs(I, I.store.log, I2.store.log) if I.store.log or I2.store.log else True)
            except Panic:
                q.cover("aborts")
                q.require("aborts", o.kind == "panic", detail="returns %s" % short(o.value) if o.kind == "ret" else "")
            return True
        try:
            for _ in explore(go, max_paths=W.budget.paths, deadline=t0 + (W.budget.secs or 120)):
                if any(o.fails for o in obs.d.values()):
                    break
        except (Unsupported, Bound) as e:
            return "unsupported", obs, " <- ".join(str(x) for x in e.args)
        bad = [o for o in obs.d.values() if o.fails]
        if bad:
            return bad[0].status(), obs, bad[0].name + ": " + bad[0].fails[0][1]
    return "verified", obs, ""


def writable(mir, fn, args, ref):
    i = next(k for k, a in enumerate(args) if a is ref)
    t = mir.types[fn.locals[i + 1]]
    return t.k == "ref" and t.d.get("m") is not False
