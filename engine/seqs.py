"""Search in sequences of symbolic length, without a bound.

For a predicate P over positions, `search` introduces the Skolem constants found / first of P and keeps the universally
quantified fact (no earlier position / no position satisfies P), which is instantiated at every position mentioned later."""
from term import *
import term as tm
from values import *
from path import Path

J = app("pos$", (), "I", 0, 2 ** 32)


def subst(t, m, memo=None):
    """replace atoms by terms, rebuilding with the simplifying constructors"""
    if not isinstance(t, T):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r[0]
    if t in m:
        r = m[t]
    else:
        r = _sub(t, m, memo)
    memo[t.id] = (r,)
    return r


def _sub(t, m, memo):
    o = t.op
    g = lambda x: subst(x, m, memo)
    if o == "poly":
        r = t.a[0]
        for mono, k in t.a[1]:
            e = k
            for a in mono:
                e = mul(e, g(a))
            r = add(r, e)
        return r
    a = tuple(g(x) for x in t.a)
    if all(x is y or (not isinstance(x, T) and x == y) for x, y in zip(a, t.a)):
        return t
    if o == "app":
        if t.sort == "I":
            return app(a[0].split("@")[0], a[1:], "I", t.lo, t.hi)
        return app(a[0], a[1:], t.sort)
    f = {"le0": le0, "eq0": lambda x: ieq(x, 0), "not": not_, "and": and_, "or": or_, "ite": ite, "seq": seq, "div": fdiv, "isqrt": isqrt, "pow": ipow,
         "dec": dec, "dectext": dectext, "b64": b64, "unb64": lambda x: tm._mk("unb64", (x,), "S"), "num": num, "cat": cat}.get(o)
    if f:
        return f(*a)
    if o == "ser":
        return ser(a[0], a[1:])
    raise Unsupported("substitution in " + o)


class Forall:
    """for all positions k with 0 <= k < hi: not P(k)"""

    def __init__(self, body, hi, var=None):
        self.body = body
        self.hi = hi
        self.var = J if var is None else var
        self.done = set()

    def inst(self, p, k):
        kid = k.id if isinstance(k, T) else ("c", k)
        if kid in self.done:
            return
        self.done.add(kid)
        p.assume(implies(and_(ge(k, 0), lt(k, self.hi)), not_(subst(self.body, {self.var: k}))))


def register(p, fa):
    p.__dict__.setdefault("foralls", []).append(fa)
    for k in list(p.__dict__.get("positions", [])):
        fa.inst(p, k)


def position(p, k):
    l = p.__dict__.setdefault("positions", [])
    if k in l:
        return
    l.append(k)
    for fa in p.__dict__.get("foralls", []):
        fa.inst(p, k)


def search(I, ln, pred):
    """first position with pred, or None"""
    p = I.p
    bound = getattr(p, "bound", ())
    jv = app("pos$%d" % len(bound), (), "I", 0, 2 ** 32) if bound else J
    body = predicate(I, lambda: pred(jv), jv)
    if body is False:
        return None
    done = p.__dict__.setdefault("searches", {})
    key = (body if isinstance(body, bool) else body.id, ln if isinstance(ln, int) else ln.id)
    if key in done:
        return done[key]
    nm = "%s_%s" % key
    if p.branch(app("found#" + nm, bound, "B")):
        k = app("first#" + nm, bound, "I", 0, 2 ** 32)
        p.assume(lt(k, ln))
        p.assume(subst(body, {jv: k}))
        register(p, Forall(body, k, jv))
        position(p, k)
        done[key] = k
        return k
    register(p, Forall(body, ln, jv))
    done[key] = None
    return None


class ChildPath(Path):
    """local exploration of a side computation: conditions unknown to the parent path are forked locally"""

    def __init__(self, parent, prefix, var=None):
        Path.__init__(self, prefix)
        self.bound = getattr(parent, "bound", ()) + ((var,) if var is not None else ())
        self.loopn = getattr(parent, "loopn", 0)
        self.parent = parent
        self.known = dict(parent.known)
        self.local = []
        self.n = parent.n

    def feasible(self, c):
        return True

    def branch(self, c):
        v = self.lookup(c)
        if v is not None:
            return v
        r = Path.branch(self, c)
        return r

    def assume(self, c):
        if c is False:
            raise Infeasible()
        if c is True:
            return
        self.local.append(c)
        self.learn(c)


def branches(I, thunk, max_paths=64, var=None):
    """all local outcomes of a side-effect free computation: [(conditions, result | Panic)]"""
    out = []
    parent = I.p
    keep = (I.frozen, len(I.store.log) if I.store else 0, len(I.queries), I.stack[:])
    work = [[]]
    while work:
        prefix = work.pop()
        c = ChildPath(parent, prefix, var)
        I.p = c
        I.frozen = Cell.count
        try:
            try:
                r = thunk()
            except Panic as e:
                r = e
            out.append((c.local, r))
        except Infeasible:
            pass
        finally:
            I.p = parent
            I.frozen = keep[0]
            del I.stack[len(keep[3]):]
        if (len(I.store.log) if I.store else 0) != keep[1]:
            raise Unsupported("a predicate with side effects")
        del I.queries[keep[2]:]
        work.extend(c.pending)
        if len(out) > max_paths:
            raise Unsupported("predicate with too many cases")
    return out


def predicate(I, thunk, var=None):
    """the boolean outcome of a side-effect free computation, as one term"""
    o = []
    for conds, r in branches(I, thunk, 64, var):
        if isinstance(r, Panic):
            raise Unsupported("a predicate that may abort")
        o.append(and_(*(conds + [r])))
    return or_(*o)
