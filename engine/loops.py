"""Loops over sequences of symbolic length, without a bound.

At the head of such a loop (the call of the iterator's `next`) the rule
 1. runs the body once, from a generalised state at a symbolic iteration number J, to find what an iteration changes:
    counters (change by a constant), vectors that get one element per iteration, sets/maps, and other scalars;
 2. takes the state at iteration J to be: counters c0 + d*J, vectors v0 ++ [item(0) .. item(J-1)] with item(i) computed by
    running the body at iteration i, and uninterpreted functions of J (folds) for the rest, with their one-step equations;
 3. introduces the number k of completed iterations with the fact that every iteration before k completed, and continues
    with the real code from the state at iteration k, where the loop must end.
Nothing is guessed: what the body changes is found by running it, and a change of another form is refused (Unsupported)."""
import re
from term import *
import term as tm
from values import *
from path import Path
import seqs

NEXT = re.compile(r"Iterator>?::next(_back)?$")


# ---------------------------------------------------------------- control flow
def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


def region(fn, bb):
    """blocks of the innermost natural loop around bb (None when it is in no loop)"""
    c = getattr(fn, "loops", None)
    if not isinstance(c, dict):
        c = fn.loops = {}
    if bb in c:
        return c[bb]
    n = len(fn.blocks)
    sc = [[s for s in succs(b[1]) if s is not None] for b in fn.blocks]
    pred = [[] for _ in range(n)]
    for i, l in enumerate(sc):
        for s in l:
            pred[s].append(i)
    # dominators
    seen, order, st = set(), [], [(0, iter(sc[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(sc[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    dom = {b: set(order) for b in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in pred[b] if p in dom]
            d = set.intersection(*ps) | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in order:
        for s in sc[b]:
            if s in dom[b]:        # back edge b -> s
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w += [p for p in pred[x] if p in dom]
    fn.loops["heads"] = loops
    best = None
    for h, body in loops.items():
        if bb in body and (best is None or len(body) < len(best)):
            best = body
    c[bb] = frozenset(best) if best else None
    return c[bb]


def plain_heads(fn):
    """heads of the loops of fn that are not driven by an iterator (no call of `next` in the loop itself)"""
    r = getattr(fn, "plainheads", None)
    if r is None:
        r = fn.plainheads = set()
        for h, body in loop_table(fn).items():
            for b in body:
                t = fn.blocks[b][1]
                if t[0] == "call" and t[1][0] == "d" and NEXT.search(t[1][2]) and region(fn, b) == frozenset(body):
                    break
            else:
                r.add(h)
    return r


def loop_table(fn):
    if not fn.blocks:
        return {}
    region(fn, 0)
    return fn.loops["heads"]


def place_uses(pl, out):
    out.add(pl[0])
    for e in pl[1]:
        if e != "*" and e != "o" and e[0] == "i":
            out.add(e[1])


def op_uses(o, out):
    if o[0] in ("c", "m"):
        place_uses(o[1], out)


def rv_uses(r, out):
    k = r[0]
    if k in ("use", "rep"):
        op_uses(r[1], out)
    elif k in ("ref", "discr", "len"):
        place_uses(r[1], out)
    elif k in ("bin", "cbin"):
        op_uses(r[2], out)
        op_uses(r[3], out)
    elif k == "un":
        op_uses(r[2], out)
    elif k == "cast":
        op_uses(r[2], out)
    elif k == "agg":
        for o in r[2]:
            op_uses(o, out)


def live_at(fn, bb, head=False):
    """locals whose value may be read from the terminator (with head: from the start) of bb on"""
    c = getattr(fn, "loops", None)
    key = ("live", bb, head)
    if key in c:
        return c[key]
    n = len(fn.blocks)
    sc = [[s for s in succs(b[1]) if s is not None] for b in fn.blocks]
    ins = [set() for _ in range(n)]

    def term(b, out):
        t = fn.blocks[b][1]
        l = set(out)
        if t[0] == "call":
            if not t[3][1]:
                l.discard(t[3][0])
            else:
                place_uses(t[3], l)
            for o in t[2]:
                op_uses(o, l)
            if t[1][0] == "p":
                op_uses(t[1][1], l)
        elif t[0] == "switch" or t[0] == "assert":
            op_uses(t[1], l)
        elif t[0] == "ret":
            l.add(0)
        return l

    def block(b, l):
        for s in reversed(fn.blocks[b][0]):
            if s[0] == "=":
                if not s[1][1]:
                    l.discard(s[1][0])
                else:
                    place_uses(s[1], l)
                rv_uses(s[2], l)
            elif s[0] == "sd":
                place_uses(s[1], l)
        return l
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            out = set().union(*[ins[s] for s in sc[b]]) if sc[b] else set()
            l = block(b, term(b, out))
            if l != ins[b]:
                ins[b] = l
                ch = True
    out = set().union(*[ins[s] for s in sc[bb]]) if sc[bb] else set()
    c[key] = ins[bb] if head else term(bb, out)
    return c[key]


# ---------------------------------------------------------------- is the iterator symbolic?
def symbolic(I, v, depth=0):
    if depth > 12:
        return False
    t = type(v)
    if t is Ref:
        return symbolic(I, I.deep(v), depth + 1)
    if t is IterV:
        if not is_c(sub(v.hi, v.lo)):
            return True
        return type(v.src) in (Agg,) and symbolic(I, v.src, depth + 1)
    if t is Agg:
        if v.tid is not None and I.mir.types[v.tid].d.get("name", "").startswith(("std::ops::Range", "core::ops::Range")) and len(v.f) == 2:
            x, y = v.f
            return isinstance(x, (int, T)) and isinstance(y, (int, T)) and not is_c(sub(y, x))
        return any(symbolic(I, x, depth + 1) for x in v.f)
    if t is Dyn and v.kind == "obj":
        return symbolic(I, v.val[0], depth + 1)
    return False


# ---------------------------------------------------------------- state
def reach(I):
    """all cells reachable from the stack: {cell: type or None}, in a deterministic order"""
    out = {}
    work = []

    def val(v, d=0):
        t = type(v)
        if t is Ref:
            if v.cell not in out:
                out[v.cell] = None
                work.append(v.cell)
        elif t is Agg:
            for x in v.f:
                val(x)
        elif t is VecV:
            for x in v.e:
                val(x)
        elif t is IterV:
            val(v.src)
            val(v.extra)
        elif t is Opaque or t is Dyn:
            val(v.data if t is Opaque else v.val)
        elif t is tuple:
            for x in v:
                val(x)
        elif t is SeqV:
            if v.up:
                val(v.up[0])
                val(v.up[1])
            if v.root is not v:
                val(v.root)
    for fr in I.stack:
        for l, c in enumerate(fr.loc):
            if c is not None:
                if c not in out:
                    work.append(c)
                out[c] = fr.fn.locals[l]
    while work:
        val(work.pop().v)
    return out


class State:
    """a copy of the mutable state, to come back to"""

    def __init__(self, I, cells=None):
        self.cells = [(c, c.v) for c in reach(I)]
        if cells is not None:
            have = {c for c, _ in self.cells}
            self.cells += [(c, c.v) for c in cells if c not in have]
        self.stack = I.stack[:]
        self.locs = [(fr, fr.loc[:], fr.bb, dict(fr.done)) for fr in I.stack]
        self.frozen = I.frozen
        self.nq = len(I.queries)
        self.store = I.store and (dict(I.store.items), {n: list(l) for n, l in I.store.maps.items()}, list(I.store.raw), list(I.store.log), I.store.ext)

    def restore(self, I):
        for c, v in self.cells:
            c.v = v
        I.stack[:] = self.stack
        for fr, loc, bb, done in self.locs:
            fr.loc[:] = loc
            fr.bb = bb
            fr.done = dict(done)
        I.frozen = self.frozen
        del I.queries[self.nq:]
        if I.store:
            it, mp, raw, log, I.store.ext = self.store
            I.store.items, I.store.raw, I.store.log = dict(it), list(raw), list(log)
            I.store.maps = {n: list(l) for n, l in mp.items()}


class LoopPath(Path):
    """exploration of one iteration under what is known on the parent path"""

    asked = None

    def __init__(self, parent, prefix, facts, var):
        Path.__init__(self, prefix)
        self.bound = getattr(parent, "bound", ()) + (var,)     # what a Skolem constant introduced here depends on
        self.parent = parent
        self.known = dict(parent.known)
        self.pc = list(parent.pc)
        self.local = []
        self.n = parent.n
        for k in ("foralls", "positions", "searches", "seqcache"):
            if k in parent.__dict__:
                v = parent.__dict__[k]
                self.__dict__[k] = dict(v) if isinstance(v, dict) else list(v)
        self.loopn = getattr(parent, "loopn", 0)
        self.folds = list(getattr(parent, "folds", ()))
        self.setup = True
        for f in facts:
            Path.assume(self, f)
        self.setup = False

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if self.lookup(c) is True:
            return
        self.pc.append(c)
        self.learn(c)
        self.local.append(c)

    def branch(self, c):
        if self.asked is not None and isinstance(c, T):
            self.asked.append(c)
        return Path.branch(self, c)


class Rec:
    """a summarised loop"""
    pass


def leaf_range(I, ty):
    if ty is None:
        return None
    t = I.mir.types[ty]
    if t.k == "uint":
        return 0, 2 ** t.d["w"] - 1
    if t.k == "int":
        return -2 ** (t.d["w"] - 1), 2 ** (t.d["w"] - 1) - 1
    if t.k == "adt" and I.mir.is_u256(ty):
        return 0, 2 ** 256 - 1
    return None


class Diff:
    def __init__(self, I):
        self.I = I
        self.out = []      # (path, old, new, ty, kind)

    def go(self, a, b, path, ty):
        I = self.I
        if a is b:
            return
        ta, tb = type(a), type(b)
        if isinstance(a, (int, bytes, T)) and isinstance(b, (int, bytes, T)):
            if sort_of(a) != sort_of(b):
                raise Unsupported("loop changes the form of a value")
            if ta is tb and not isinstance(a, T) and a == b:
                return
            self.out.append((path, a, b, ty, "leaf"))
            return
        if ta is Agg and tb is Agg and a.v == b.v and len(a.f) == len(b.f):
            fs = [None] * len(a.f)
            tid = a.tid if a.tid is not None else b.tid
            if tid is not None:
                t = I.mir.types[tid]
                if t.k == "tuple":
                    fs = t.d["ts"]
                elif t.k == "adt" and "vs" in t.d and a.v < len(t.d["vs"]) and len(t.d["vs"][a.v]["f"]) == len(a.f):
                    fs = [f[1] for f in t.d["vs"][a.v]["f"]]
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self.go(x, y, path + (i,), fs[i])
            return
        if ta is VecV and tb is VecV:
            if len(a.e) == len(b.e):
                for i, (x, y) in enumerate(zip(a.e, b.e)):
                    self.go(x, y, path + (("i", i),), None)
                return
            if len(b.e) == len(a.e) + 1 and all(x is y for x, y in zip(a.e, b.e)):
                self.out.append((path, a, b, ty, "push"))
                return
        if tb is SeqV and b.up is not None and b.up[0] is a:
            self.out.append((path, a, b, ty, "push"))
            return
        if ta is SeqV and tb is SeqV and a.root is b.root:
            self.go(a.off, b.off, path + ("off",), None)
            self.go(a.len, b.len, path + ("len",), None)
            return
        if ta is IterV and tb is IterV and a.by == b.by:
            self.go(a.src, b.src, path + ("src",), None)
            self.go(a.lo, b.lo, path + ("lo",), None)
            self.go(a.hi, b.hi, path + ("hi",), None)
            return
        if ta is Ref and tb is Ref and a.cell is b.cell and len(a.path) == len(b.path):
            for i, (x, y) in enumerate(zip(a.path, b.path)):
                if x == y or x[:1] == y[:1] == ("i",) and x[1] is y[1]:
                    continue
                if type(x) is tuple and type(y) is tuple and x[0] == y[0] == "i":
                    self.go(x[1], y[1], path + (("r", i),), None)
                else:
                    raise Unsupported("loop changes %s to %s" % (short(a), short(b)))
            return
        if ta is Ref and tb is Ref:
            x, y = I.load(a), I.load(b)
            if type(x) is SeqV and type(y) is SeqV and x.root is y.root:        # &rest[1..]
                self.go(x, y, path + ("*",), None)
                return
        if ta is Opaque and tb is Opaque and a.what == b.what == "map":
            if a.data is not b.data and a.data != b.data:
                self.out.append((path, a, b, ty, "map"))
            return
        if ta is Dyn and tb is Dyn and a.kind == b.kind and a.val is b.val:
            return
        if ta is FnV and tb is FnV and a.key == b.key:
            return
        if ta is Opaque and tb is Opaque and a.what == b.what and a.data is b.data:
            return
        raise Unsupported("loop changes %s to %s" % (short(a), short(b)))


def put_in(I, v, path, x):
    """tree with the leaf at path replaced (paths of Diff)"""
    if not path:
        return x
    p = path[0]
    if p in ("off", "len"):
        return v.view(sub(x, v.off), v.len) if p == "off" else v.view(0, x)
    if p == "*":
        return Ref(Cell(put_in(I, I.load(v), path[1:], x)))
    if type(p) is tuple and p[0] == "r":
        return Ref(v.cell, v.path[:p[1]] + (("i", x),) + v.path[p[1] + 1:])
    if p in ("src", "lo", "hi"):
        f = {"src": v.src, "lo": v.lo, "hi": v.hi}
        f[p] = put_in(I, f[p], path[1:], x)
        return IterV(v.by, f["src"], f["lo"], f["hi"], v.extra)
    if type(p) is int:
        f = list(v.f)
        f[p] = put_in(I, f[p], path[1:], x)
        return Agg(v.tid, v.v, tuple(f))
    e = list(v.e)
    e[p[1]] = put_in(I, e[p[1]], path[1:], x)
    return VecV(e)


def get_in(v, path, I):
    for p in path:
        if p in ("off", "len"):
            v = getattr(v, p)
        elif p == "*":
            v = I.load(v)
        elif type(p) is tuple and p[0] == "r":
            v = v.path[p[1]][1]
        elif p in ("src", "lo", "hi"):
            v = getattr(v, p)
        elif type(p) is int:
            v = v.f[p]
        else:
            v = v.e[p[1]]
    return v


# symbolic maps: ("sym", term); membership and size are uninterpreted, insertion and removal are terms
def map_term(d):
    if d and d[0] == "sym":
        return d[1]
    m = app("mapempty", (), "S")
    for k, v in d:
        m = app("mapins", (m, k), "S")
    return m


def map_has(m, x):
    """membership, with insertions and removals unfolded"""
    if m.op == "app" and m.a[0].split("@")[0] == "mapins":
        return or_(seq(m.a[2], x), map_has(m.a[1], x))
    if m.op == "app" and m.a[0].split("@")[0] == "maprem":
        return and_(not_(seq(m.a[2], x)), map_has(m.a[1], x))
    if m.op == "app" and m.a[0].split("@")[0] == "mapempty":
        return False
    if m.op == "ite":
        return or_(and_(m.a[0], map_has(m.a[1], x)), and_(not_(m.a[0]), map_has(m.a[2], x)))
    return app("maphas", (m, x), "B")


def mentions_length(t, seen=None):
    """does the term depend on the length of a sequence or text?"""
    if not isinstance(t, T):
        return False
    seen = set() if seen is None else seen
    if t.id in seen:
        return False
    seen.add(t.id)
    if t.op == "app":
        n = t.a[0].split("@")[0]
        if n.endswith("#len") or n in ("len", "declen", "maplen", "char.count") or n.endswith("#count"):
            return True

    def sub_(x):
        return mentions_length(x, seen) if isinstance(x, T) else any(sub_(y) for y in x) if isinstance(x, tuple) else False
    return any(sub_(x) for x in t.a)


def direction(key, x, steps):
    """1 (-1) when no iteration lowers (raises) this value by more than nothing; None when that cannot be seen at once"""
    up = down = True
    for conds, upd, after in steps:
        new = upd.get(key, x)
        if sort_of(x) == "I":
            dl = sub(new, x)
            if not is_c(dl):
                return None
            up, down = up and dl >= 0, down and dl <= 0
        else:
            for v in (True, False):
                c = and_(*[seqs.subst(y, {x: v}) for y in conds])
                n = seqs.subst(new, {x: v})
                if c is False or n is v:
                    continue
                if v:
                    up = False
                else:
                    down = False
    return 1 if up else -1 if down else None


def wrapped(dl, r):
    """the small change that is the same as dl in the machine type with this range"""
    if r is None:
        return dl
    m = r[1] - r[0] + 1
    return (dl + m // 2) % m - m // 2


def inner(t):
    """the terms directly inside a term"""
    for x in t.a:
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, T):
                yield y
            elif isinstance(y, tuple):
                st.extend(y)


def mentions(t, v, seen):
    if t is v:
        return True
    if t.id in seen:
        return False
    seen.add(t.id)
    return any(mentions(x, v, seen) for x in inner(t))


def roots(t, v):
    """values of v that make an equation of the formula hold, for the equations that are linear in v"""
    out, seen, work = [], set(), [t] if isinstance(t, T) else []
    while work:
        x = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "eq0":
            q = x.a[0]
            k = dict(q.a[1]).get((v,), 0) if q.op == "poly" else 1 if q is v else 0
            if k in (1, -1):
                z = sub(v, q) if k == 1 else add(v, q)
                if (not isinstance(z, T) or not mentions(z, v, set())) and not any(z is y or (is_c(z) and is_c(y) and z == y) for y in out):
                    out.append(z)
                continue
        work.extend(inner(x))
    return out


def counter_loop(I, fr, bb):
    """a loop that is not driven by an iterator: summarise it when how often it runs depends on a symbolic length"""
    if not hasattr(I.p, "pc") or getattr(I.p, "concrete", False) or I.store is not None and I.store.conc is not None:
        return
    fn = fr.fn
    reg = frozenset(loop_table(fn)[bb])
    p = I.p
    base = State(I)
    work, n, cont, dep = [[]], 0, False, False
    while work and n < 16:
        n += 1
        c = LoopPath(p, work.pop(), [], app("it#trial", (), "I", 0, 2 ** 32))
        c.asked = []
        I.p = c
        base.restore(I)
        try:
            try:
                cont = I.loop(fr, bb, False, bb, reg, True)[0] == "cont" or cont
            except Panic:
                pass
            dep = dep or any(mentions_length(x) for x in c.asked)
        except Infeasible:
            pass
        except Unsupported:
            return
        finally:
            I.p = p
            base.restore(I)
        work.extend(c.pending)
    if cont and dep:
        apply(I, fr, bb, reg)


def apply(I, fr, bb, head_reg=None):
    """replace the loop whose head is the terminator of bb (with head_reg: the start of bb) in frame fr; leaves the state
    at its last arrival there"""
    p = I.p
    fn = fr.fn
    head = head_reg is not None
    reg = head_reg if head else region(fn, bb)
    p.loopn = getattr(p, "loopn", 0) + 1
    lid = "%s%d" % ("c" * len([1 for x in iter_parents(p)]), p.loopn)
    bound = getattr(p, "bound", ())
    live = live_at(fn, bb, head)
    for l in range(len(fr.loc)):
        if l not in live and l > fn.argc:
            fr.loc[l] = None
    cells = reach(I)
    wc = Cell(VecV(()))          # the writes to storage, one list per iteration
    cells[wc] = None
    order = list(cells)
    init = {c: c.v for c in order}
    base = State(I)
    jv = app("it#" + lid, (), "I", 0, 2 ** 32)
    rec = Rec()
    rec.lid, rec.jv, rec.base, rec.fr, rec.bb, rec.reg = lid, jv, base, fr, bb, reg
    gen = {}

    def at(t):
        """cell values at the arrival number t"""
        vals = {}
        for (ci, path), g in gen.items():
            c = order[ci]
            v0 = get_in(init[c], path, I)
            if g[0] == "aff":
                x = add(v0, mul(g[1], t))
            elif g[0] == "fold":
                x = app("fold#%s.%d.%s" % (lid, ci, path_name(path)), bound + (t,), g[1], *(g[2] or (None, None)))
            elif g[0] == "map":
                x = Opaque("map", ("sym", app("fold#%s.%d.%s" % (lid, ci, path_name(path)), bound + (t,), "S")))
            else:
                x = acc_at(ci, path, v0, t)
            vals[c] = put_in(I, vals.get(c, c_init(c)), path, x)
        return vals

    def c_init(c):
        return init[c]

    accs = {}

    def enter(vals):
        for c, v in vals.items():
            c.v = v
        if isinstance(wc.v, SeqV):
            written(I, wns, wc.v)

    def leave(n0):
        """the writes of the iteration just run"""
        new = I.store.log[n0:] if I.store else []
        for e in new:
            if e[0] != "map":
                raise Unsupported("a loop that writes storage other than entries of maps")
            wns.add(e[1])
        if wns:
            v = wc.v
            wc.v = VecV(v.e + (new,)) if isinstance(v, VecV) else SeqV(I.mir, None, add(v.len, 1), "writes", (), None, (v, new))

    wns = set()

    def acc_at(ci, path, v0, t):
        n0 = len(v0.e) if isinstance(v0, VecV) else v0.len

        def elem(i):
            q = I.p
            if not is_c(n0) or n0:
                if q.branch(lt(i, n0)):
                    if isinstance(v0, VecV):
                        for k in range(len(v0.e)):
                            if q.branch(ieq(i, k)):
                                return v0.e[k]
                        raise Infeasible()
                    return v0.elem(i)
            return item(ci, path, sub(i, n0))
        k = (ci, path, t if not isinstance(t, T) else t.id)
        if k not in accs:
            accs[k] = SeqV(I.mir, None, add(n0, t), "acc#%s.%d" % (lid, ci), (), elem)
        return accs[k]

    def item(ci, path, i):
        """the element pushed in iteration i"""
        q = I.p
        cache = q.__dict__.setdefault("seqcache", {})
        ck = (lid, ci, path, i if not isinstance(i, T) else i.id)
        if ck in cache:
            return cache[ck]
        if rec.stop is not None:
            if not q.branch(and_(ge(i, 0), lt(i, rec.stop))):
                raise Unsupported("element beyond the end of a sequence")
            seqs.position(q, i)
        keep = State(I, order)
        base.restore(I)
        I.frozen = 0
        try:
            vals = at(i)
            enter(vals)
            n0 = len(I.store.log) if I.store else 0
            r = I.loop(fr, bb, not head, bb, reg, head)
            if r[0] != "cont":
                raise Infeasible()
            leave(n0)
            if rec.phases is not None and not formed(I, {c: vals.get(c, init[c]) for c in order}, order):
                raise Infeasible()
            v = get_in(order[ci].v, path, I)
            if not (isinstance(v, SeqV) and v.up):
                raise Unsupported("loop does not add an element in every iteration")
            x = v.up[1]
        finally:
            keep.restore(I)
        cache[ck] = x
        return x
    rec.stop = None
    rec.phases = None
    rec.at = at

    def outcomes(facts):
        outs = []
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            n += 1
            if n > 64:
                raise Unsupported("loop body with too many cases")
            c = LoopPath(p, prefix, facts, jv)
            I.p = c
            base.restore(I)
            I.frozen = 0
            vals = at(jv)
            enter(vals)
            n0 = len(I.store.log) if I.store else 0
            try:
                try:
                    r = I.loop(fr, bb, not head, bb, reg, head)
                except Panic as e:
                    r = ("panic",)
                if r[0] == "cont":
                    leave(n0)
                outs.append((c.local, r[0], {cc: cc.v for cc in order}))
            except Infeasible:
                pass
            finally:
                I.p = p
                base.restore(I)
            work.extend(c.pending)
        return outs

    ranges = {}
    for rnd in range(12):
        rec.phases = None
        facts = [ge(jv, 0)] + [r for r in range_facts(I, gen, ranges, at, order, jv)]
        w0 = len(wns)
        outs = outcomes(facts)
        if len(wns) != w0:
            gen[(order.index(wc), ())] = ("acc",)
            continue
        start = at(jv)
        start = {c: start.get(c, init[c]) for c in order}
        changed = False
        steps = []
        for conds, kind, after in outs:
            if kind != "cont":
                continue
            upd = {}
            bad = None
            diffs = []
            for ci, c in enumerate(order):
                d = Diff(I)
                try:
                    d.go(start[c], after[c], (), cells[c]) if start[c] is not None else None
                except Unsupported as e:
                    bad = e
                    break
                diffs.append((ci, d.out))
                for path, old, new, ty, k in d.out:
                    dl = sub(new, old) if k == "leaf" and sort_of(old) == "I" else None
                    if dl is not None and is_c(dl) and dl != wrapped(dl, leaf_range(I, ty)):
                        bad = Unsupported("a counter that wraps around")
            if bad is not None:
                rec.phases = bad           # such an iteration ends the summarised part of the loop
                continue
            for ci, dout in diffs:
                for path, old, new, ty, k in dout:
                    key = (ci, path)
                    g = gen.get(key)
                    upd[key] = new
                    if k == "push":
                        if g is None:
                            gen[key] = ("acc",)
                            changed = True
                        elif g[0] != "acc":
                            raise Unsupported("loop result of two forms")
                    elif k == "map":
                        if g is None:
                            gen[key] = ("map",)
                            changed = True
                    else:
                        so = sort_of(old)
                        dl = sub(new, old) if so == "I" else None
                        if g is None:
                            gen[key] = ("aff", dl) if is_c(dl) and dl is not None and not isinstance(dl, bool) else ("fold", so, leaf_range(I, ty))
                            ranges[key] = leaf_range(I, ty)
                            changed = True
                        elif g[0] == "aff" and not (is_c(dl) and dl == g[1]):
                            gen[key] = ("fold", so, leaf_range(I, ty))
                            changed = True
                        elif g[0] == "acc":
                            raise Unsupported("loop result of two forms")
            steps.append((conds, upd, after))
        if not changed:
            # a counter or vector that some iteration leaves alone
            for conds, upd, after in steps:
                for key, g in list(gen.items()):
                    if key not in upd and g[0] in ("aff", "acc"):
                        if g[0] == "acc":
                            raise Unsupported("loop does not add an element in every iteration")
                        gen[key] = ("fold", "I", ranges.get(key))
                        changed = True
        if not changed:
            break
    else:
        raise Unsupported("loop without a fixed form")
    cont = or_(*[and_(*conds) for conds, upd, after in steps])
    rec.cont, rec.steps, rec.gen, rec.order, rec.init = cont, steps, gen, order, init
    k = app("stop#" + lid, bound, "I", 0, 2 ** 32)
    rec.stop = k
    fa = seqs.Forall(not_(cont), k, jv)
    seqs.register(p, fa)
    for z in roots(cont, jv):          # iterations at which a counter has the value it is compared with
        fa.inst(p, z)
    rf = range_facts(I, gen, ranges, at, order, jv)
    if rf:
        seqs.register(p, seqs.Forall(not_(and_(*rf)), add(k, 1), jv))
    for key, g in gen.items():
        if g[0] in ("fold", "map"):
            v0 = get_in(init[order[key[0]]], key[1], I)
            z = get_in(at(0)[order[key[0]]], key[1], I)
            if g[0] == "map":
                p.assume(seq(z.data[1], map_term(v0.data)))
            else:
                p.assume(veq(z, v0))
    leaf = lambda key, t: get_in(at(t)[order[key[0]]], key[1], I)
    for key, g in gen.items():         # counts and flags: once raised, they stay raised
        if g[0] == "fold" and g[1] in ("I", "B"):
            d = direction(key, leaf(key, jv), steps)
            if d is None:
                continue
            x, y, z = leaf(key, jv), leaf(key, add(jv, 1)), leaf(key, k)
            if g[1] == "I":
                upto = lambda v: le(v, z) if d > 0 else le(z, v)
            else:
                upto = lambda v: implies(v, z) if d > 0 else implies(z, v)
            one = or_(*[and_(*(conds + [veq(y, upd.get(key, x))])) for conds, upd, after in steps])
            seqs.register(p, seqs.Forall(not_(and_(one, upto(y))), k, jv))
            seqs.register(p, seqs.Forall(not_(upto(x)), add(k, 1), jv))
            # if it has changed, then first at some iteration
            w = app("change#%s.%d.%s" % (lid, key[0], path_name(key[1])), bound, "I", 0, 2 ** 32)
            z0 = get_in(init[order[key[0]]], key[1], I)
            p.assume(or_(veq(z, z0), and_(lt(w, k), veq(leaf(key, w), z0), not_(veq(leaf(key, add(w, 1)), z0)))))
            seqs.position(p, w)
    seqs.position(p, 0)
    seqs.position(p, sub(k, 1))
    seqs.position(p, k)
    base.restore(I)
    enter(at(k))
    if any(g[0] in ("fold", "map") for g in gen.values()):
        p.__dict__.setdefault("folds", []).append(rec)
    fr.done[("h", bb) if head else bb] = Done(reg, rec)


def written(I, wns, seqv):
    """the writes of the iterations so far, seqv: one list of writes per iteration"""
    for ns in sorted(wns):
        f = lambda i, ns=ns: [e for e in seqv.elem(i) if e[1] == ns]
        I.store.map_each(ns, seqv.len, f)


class Done(frozenset):
    """blocks of a loop that was summarised (rec)"""

    def __new__(cls, reg, rec):
        x = frozenset.__new__(cls, reg)
        x.rec = rec
        return x


def formed(I, before, order):
    """is this iteration one of the summarised form?"""
    try:
        for c in order:
            if before[c] is not None:
                Diff(I).go(before[c], c.v, (), None)
    except Unsupported:
        return False
    return True


def again(I, fr, key):
    """the head of a summarised loop is reached again: the summary covers all leading iterations of its form, so the one just
    run is of another form (the second part of a chain, a first element found, ..); the loop goes on from here"""
    rec = fr.done[key].rec
    if rec.phases is None:
        raise Infeasible()
    if I.p.branch(seqs.subst(rec.cont, {rec.jv: rec.stop})):
        raise Infeasible()
    reg = frozenset(fr.done[key])
    del fr.done[key]
    n = 1
    while ("again", key, n) in fr.done:
        n += 1
    if n > 3:
        raise rec.phases
    fr.done[("again", key, n)] = reg


def iter_parents(p):
    while getattr(p, "parent", None) is not None:
        p = p.parent
        yield p


def path_name(path):
    return "_".join(str(x if not isinstance(x, tuple) else x[1]) for x in path)


def range_facts(I, gen, ranges, at, order, t):
    out = []
    if not gen:
        return out
    vals = at(t)
    for (ci, path), g in gen.items():
        r = ranges.get((ci, path))
        if g[0] == "aff" and r:
            x = get_in(vals[order[ci]], path, I)
            out += [ge(x, r[0]), le(x, r[1])]
    return [x for x in out if x is not True]
