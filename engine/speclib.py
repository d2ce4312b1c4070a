"""The language of the entry specifications.

A specification is a Python function over a context S and typed values V. It runs both on symbolic values
(during verification, following the path of the verified code) and on plain values (when a scenario is replayed on
the real code). It returns an Out, or raises Reject with the reason."""
from term import *
import term as tm
from values import *
import world
from world import to_json, flatten, tree_text, parse, flat_int


natives_out = world.out_ty


class Reject(Exception):
    """the specification rejects the call; stage names the reason"""

    def __init__(self, stage, abort=False):
        self.stage = stage
        self.abort = abort      # by aborting, not by an error (matters for contracts of helpers only)


class Out:
    """an accepted call: response tree parts and storage effects"""

    def __init__(self, messages=(), attrs=None, writes=(), data=None, may_reject=False, info=None):
        self.messages = messages if isinstance(messages, Seq) else list(messages)
        self.attrs = attrs or {}
        self.writes = list(writes)       # (kind, ns, key, tyname, value V | None)
        self.data = data                 # tree of a query answer
        self.may_reject = may_reject
        self.info = info or {}


class V:
    """a typed value"""
    __slots__ = ("S", "ty", "v")

    def __init__(self, S, ty, v):
        t = S.I.mir.types[ty]
        while t.k in ("ref", "ptr") or (t.k == "adt" and t.d["name"] == "std::boxed::Box"):
            if type(v) is Ref:
                v = S.I.load(v)
            ty = t.d["t"] if t.k in ("ref", "ptr") else t.d["args"][0]
            t = S.I.mir.types[ty]
        self.S, self.ty, self.v = S, ty, v

    def t(self):
        return self.S.I.mir.types[self.ty]

    def kind(self):
        """variant name"""
        return self.t().d["vs"][self.S.I.variant(self.v)]["n"]

    def __getattr__(self, name):
        return self.f(name)

    def f(self, name):
        I = self.S.I
        t = self.t()
        vi = I.variant(self.v) if t.d.get("ak") == "enum" else 0
        for i, (n, ty) in enumerate(t.d["vs"][vi]["f"]):
            if n == name:
                return V(self.S, ty, I.vfield(self.v, vi, i) if t.d["ak"] == "enum" else self.v.f[i])
        raise KeyError("%s of %s" % (name, I.mir.tyname(self.ty)))

    def __getitem__(self, i):
        t = self.t()
        if t.k == "tuple":
            return V(self.S, t.d["ts"][i], self.v.f[i])
        ety = t.d["t"] if t.k in ("array", "slice") else t.d["args"][0]
        v = self.v
        if isinstance(v, Agg):
            v = self.S.I.deep(v)
        return V(self.S, ety, v.e[i] if isinstance(v, VecV) else v.elem(i))

    def len(self):
        return self.S.I.vlen(self.v)

    def concrete_len(self):
        return isinstance(self.v, VecV)

    def num(self):
        x = flat_int(self.S.I, self.v)
        if x is None:
            raise Unsupported("number")
        return x

    def txt(self):
        return self.S.I.sval(self.v)

    def opt(self):
        """None or the content"""
        I = self.S.I
        if I.variant(self.v) == I.mir.variant_index(self.ty, "None"):
            return None
        return V(self.S, self.t().d["vs"][1]["f"][0][1], I.vfield(self.v, 1, 0))

    def tree(self):
        return to_json(self.S.I, self.ty, self.v)


def byte_at(x, i):
    return x[i] if isinstance(x, bytes) else app("byte", (x, i), "I", 0, 255)


def s(x):
    return ("s", x)


def n(x):
    return ("n", x)


def u(x):
    """integer serialised as text"""
    return ("s", dec(x))


def d18(x):
    return ("s", dectext(x, 18))


def opt(x, f=s):
    return None if x is None else f(x)


def ser_tree(tree):
    skel, leaves = flatten(tree)
    if all(is_c(x) for x in leaves):
        return tree_text(tree)
    return ser(skel, leaves)


def jbin(tree):
    """a Binary holding JSON"""
    return ("s", b64(ser_tree(tree)))


class S:
    def __init__(self, I):
        self.I = I
        self.p = I.p

    def ty(self, name):
        l = self.I.mir.adts(name)
        if len(l) != 1:
            raise Unsupported("type %s (%d)" % (name, len(l)))
        return l[0]

    def br(self, c):
        return self.p.branch(c)

    def need(self, c, stage, abort=False):
        if not self.p.branch(c):
            raise Reject(stage, abort)

    # --- state
    def item(self, ns, tyname, stage="record"):
        ty = self.ty(tyname)
        v = world.Store.item0(self.I.store, self.I, ns, ty)
        if v is None:
            raise Reject(stage)
        return V(self, ty, v)

    def map(self, ns, key, tyname):
        ty = self.ty(tyname) if isinstance(tyname, str) else tyname
        v = self.I.store.map0(self.I, ns, key, ty)
        return None if v is None else V(self, ty, v)

    # --- host
    def validate(self, x, stage="addr"):
        r = self.I.api.validate(self.I, x)
        if r is None:
            raise Reject(stage)
        return r

    def canon(self, x, stage="addr"):
        r = self.I.api.canonicalize(self.I, x)
        if r is None:
            raise Reject(stage)
        return r

    def human(self, x, stage="record"):
        r = self.I.api.humanize(self.I, x)
        if r is None:
            raise Reject(stage)
        return r

    def query(self, tree, tyname, stage="query"):
        ty = self.ty(tyname)
        v = self.I.querier.query(self.I, ser_tree(tree), ty)
        if v is None:
            raise Reject(stage)
        return V(self, ty, v)

    def smart(self, addr, msg, tyname, stage="query"):
        return self.query({"wasm": {"smart": {"contract_addr": s(addr), "msg": jbin(msg)}}}, tyname, stage)

    def parse(self, text, tyname, stage="hook"):
        ty = self.ty(tyname)
        v = parse(self.I, ty, text)
        if v is None:
            raise Reject(stage)
        return V(self, ty, v)

    def reply_addr(self, b):
        return self.I.reply_parse(self.I, b)

    # --- typed values from Python values
    def build(self, tyname, **kw):
        """struct value; fields given as V, terms, or nested machine values"""
        ty = self.ty(tyname) if isinstance(tyname, str) else tyname
        fs = self.I.mir.types[ty].d["vs"][0]["f"]
        if set(kw) != {f[0] for f in fs}:
            raise Unsupported("fields of %s" % tyname)
        return V(self, ty, Agg(ty, 0, tuple(self.conv(f[1], kw[f[0]]) for f in fs)))

    def conv(self, ty, x):
        I = self.I
        t = I.mir.types[ty]
        if isinstance(x, V):
            if I.mir.is_option(ty) and not I.mir.is_option(x.ty):
                return Agg(ty, 1, (x.v,))
            return x.v
        if isinstance(x, (Agg, SymEnum, VecV, SeqV)):
            return x
        if t.k == "ref":
            return x if sort_of(x) == "S" else Ref(Cell(self.conv(t.d["t"], x)))
        if t.k == "array":
            return VecV([self.conv(t.d["t"], y) for y in x])
        if t.k == "tuple":
            return Agg(ty, 0, tuple(self.conv(a, b) for a, b in zip(t.d["ts"], x)))
        if I.mir.is_option(ty):
            return Agg(ty, 0, ()) if x is None else Agg(ty, 1, (self.conv(t.d["vs"][1]["f"][0][1], x),))
        if isinstance(x, tuple) and t.k == "adt" and t.d["ak"] == "enum":
            # (variant name, field...)
            i = I.mir.variant_index(ty, x[0])
            return Agg(ty, i, tuple(self.conv(f[1], y) for f, y in zip(t.d["vs"][i]["f"], x[1:])))
        if t.k == "adt" and t.d["name"] == "std::vec::Vec" and isinstance(x, (list, tuple)):
            return VecV([self.conv(t.d["args"][0], y) for y in x])
        so = sort_of(x)
        if so == "S":
            return world.mk_str(I.mir, ty, x)
        if so == "I" and t.k == "adt":
            return world.mk_int(I.mir, ty, x)
        return x

    # --- sequences
    def find(self, seqv, pred):
        """index of the first element satisfying pred (a term of the element V), or None"""
        if seqv.concrete_len():
            for i in range(seqv.len()):
                if self.p.branch(pred(seqv[i])):
                    return i
            return None
        from seqs import search
        return search(self.I, seqv.len(), lambda j: pred(seqv[j]))

    def exists(self, ln, pred):
        """some position below ln satisfies pred"""
        if isinstance(ln, int):
            return or_(*[pred(i) for i in range(ln)])
        from seqs import search
        return search(self.I, ln, pred) is not None

    def range(self, ns, tyname, after):
        """the entries of a map in ascending key order, strictly after the key `after` (or all): (count, i -> record)"""
        ty = self.ty(tyname)
        st = self.I.store
        if st.conc is not None:
            ks = [k for k in st.conc_keys(ns) if after is None or k > after]
            return len(ks), lambda i: V(self, ty, parse(self.I, ty, st.conc[world.mapkey(ns, ks[i])]))
        r = world.MapRange(ns, ty, ("none", None) if after is None else ("excl", after), ("none", None), "asc")
        return r.length(), lambda i: V(self, ty, fresh(self.I.mir, ty, "st:" + ns.decode(), (r.key(i),)))

    def collect(self, ln, fn, stage):
        """the list of fn(i) for i < ln; rejects when one of them does"""
        if is_c(ln):
            return [fn(i) for i in range(ln)]

        def bad(i):
            try:
                fn(i)
                return False
            except Reject:
                return True
        from seqs import search
        if search(self.I, ln, bad) is not None:
            raise Reject(stage)
        return Seq(ln, fn)

    def distinct(self, ln, f):
        """the texts f(i), i < ln, are pairwise different (a condition; or Reject)"""
        if is_c(ln):
            l = [f(i) for i in range(ln)]
            return len(set(l)) == len(l)
        for n_, g, d in self.p.__dict__.get("distincts", ()):
            if self.p.branch(ieq(n_, ln)):
                i = app("idx#%d" % self.p.fresh_id(), (), "I", 0, 2 ** 32)
                if not self.p.branch(lt(i, ln)) or self.p.branch(seq(f(i), g(i))):
                    return ieq(d, ln)
        if any(g[0] == "map" for rec in self.p.__dict__.get("folds", ()) for g in rec.gen.values()):
            from loops import map_has

            def step(i, seen):
                self.need(not_(map_has(seen, f(i))), "accounts")
                return self.names_add(seen, f(i))
            self.fold(ln, self.names(), step)
            return True
        return not_(self.exists(ln, lambda j: self.exists(j, lambda i: seq(f(i), f(j)))))

    def fold(self, ln, init, step):
        """the state after x = step(i, x) for i < ln, starting from init; a step may reject. The state is a number or a
        set of texts (see names)."""
        if is_c(ln):
            x = init
            for i in range(ln):
                x = step(i, x)
            return x
        p = self.p
        kind = "I" if sort_of(init) == "I" else "S"
        from seqs import search, subst
        for rec in getattr(p, "folds", ()):
            r = self.match_fold(rec, ln, init, step, kind)
            if r is None:
                continue
            at, good = r
            k = rec.stop
            if good is None:                      # the loop goes on exactly as long as no step rejects
                if p.branch(ieq(k, ln)):
                    return at(k)
                p.assume(lt(k, ln))
                step(k, at(k))                    # this is the step that rejects
                raise Infeasible()
            # the loop takes these steps, but may stop for other reasons, or go on
            last = k if p.branch(ge(k, ln)) else add(k, 1)
            i = search(self.I, last if last is not k else ln, lambda i: subst(not_(good), {rec.jv: i}))
            if i is not None:
                step(i, at(i))
                raise Infeasible()
            if last is k:
                return at(ln)
            break
        # no loop of the code computes this: an unknown number of steps of an unknown function
        n_ = p.__dict__["sfolds"] = p.__dict__.get("sfolds", 0) + 1
        k = app("sstop#%d" % n_, (), "I", 0, 2 ** 32)
        f = lambda i: app("sfold#%d" % n_, (i,), kind, *((0, 2 ** 128 - 1) if kind == "I" else (None, None)))
        p.assume(le(k, ln))
        p.assume(veq(f(0), init))
        if p.branch(ieq(k, ln)):
            return f(k)
        p.assume(lt(k, ln))
        step(k, f(k))
        raise Infeasible()

    def match_fold(self, rec, ln, init, step, kind):
        """a part of the state of the loop rec that takes these steps: (its value at an iteration, None), or (.., the condition
        under which the step of iteration rec.jv does not reject) when the loop may stop where no step rejects or go on
        where one does"""
        import loops, smt
        p, I = self.p, self.I
        hyps = p.pc
        valid = lambda extra, goal: goal is True or smt.decide(hyps + extra, goal)[0] == "proved"
        weak = None
        for key, g in rec.gen.items():
            if g[0] not in ("fold", "map"):
                continue
            c = rec.order[key[0]]
            leaf = lambda v, key=key: loops.get_in(v, key[1], I)
            term_ = lambda v: loops.map_term(v.data) if isinstance(v, Opaque) else v
            i0 = term_(leaf(rec.init[c]))
            if (g[0] == "map") != (kind == "S") or sort_of(i0) != kind:
                continue
            if not valid([], seq(i0, init) if kind == "S" else ieq(i0, init)):
                continue
            at = lambda t, c=c, leaf=leaf: term_(leaf(rec.at(t)[c]))
            X = at(rec.jv)
            outs = []
            work = [[]]
            while work:
                prefix = work.pop()
                q = loops.LoopPath(p, prefix, [ge(rec.jv, 0), lt(rec.jv, ln)], rec.jv)
                self.p = I.p = q
                try:
                    try:
                        outs.append((q.local, step(rec.jv, X)))
                    except Reject:
                        outs.append((q.local, None))
                except Infeasible:
                    pass
                finally:
                    self.p = I.p = p
                work.extend(q.pending)
                if len(outs) > 64:
                    raise Unsupported("step with too many cases")
            inr = and_(ge(rec.jv, 0), lt(rec.jv, ln))
            cond = or_(*[and_(*cs) for cs, x in outs if x is not None])
            good = and_(inr, cond)
            base = [ge(rec.jv, 0)]
            exact = valid(base + [rec.cont], good) and valid(base + [good], rec.cont)
            if not exact and weak is not None:
                continue
            fine = True
            for cs, x in outs:
                if x is None:
                    continue
                for cc, upd, after in rec.steps:
                    y = term_(leaf(after[c]))
                    if kind == "S":
                        w = app("any#text", (), "S")
                        a_, b_ = loops.map_has(x, w), loops.map_has(y, w)
                        goal = and_(implies(a_, b_), implies(b_, a_))
                    else:
                        goal = ieq(x, y)
                    if not valid(base + [inr] + list(cs) + list(cc), goal):
                        fine = False
                        break
                if not fine:
                    break
            if fine:
                if exact:
                    return at, None
                weak = at, cond
        return weak

    # sets of texts
    def names(self):
        return frozenset() if self.I.store.conc is not None else app("mapempty", (), "S")

    def names_add(self, m, x):
        return m | {x} if isinstance(m, frozenset) else app("mapins", (m, x), "S")

    def names_del(self, m, x):
        return m - {x} if isinstance(m, frozenset) else app("maprem", (m, x), "S")

    def names_count(self, m):
        return len(m) if isinstance(m, frozenset) else app("maplen", (m,), "I", 0, 2 ** 32)

    def prim(self, name):
        for i, t in enumerate(self.I.mir.types):
            if t.k == "uint" and "u%d" % t.d["w"] == name:
                return i
        raise Unsupported("type " + name)

    def assume(self, c):
        self.p.assume(c)


# ---------------------------------------------------------------- comparing trees
def tree_eq(I, a, b):
    """term: the two trees are equal"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, Seq) or isinstance(b, Seq):
        return seq_eq(I, a, b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[0] != b[0]:
            return False
        x, y = a[1], b[1]
        if sort_of(x) == "S" and sort_of(y) == "S":
            x, y = expand(I, x, y)
        return veq(x, y)
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return and_(*[tree_eq(I, x, y) for x, y in zip(a, b)])
    if set(a) != set(b):
        return False
    return and_(*[tree_eq(I, a[k], b[k]) for k in a])


def expand(I, x, y):
    return x, y


def seq_eq(I, a, b):
    if isinstance(a, list):
        a, b = b, a
    if isinstance(b, list):
        r = ieq(a.len, len(b))
        if not I.p.branch(r):
            return False
        return and_(*[tree_eq(I, a.fn(i), x) for i, x in enumerate(b)])
    if not isinstance(a, Seq) or not isinstance(b, Seq):
        return False
    r = ieq(a.len, b.len)
    j = app("idx#%d" % I.p.fresh_id(), (), "I", 0, 2 ** 32)
    if not I.p.branch(and_(lt(j, a.len), lt(j, b.len))):
        return r
    return and_(r, tree_eq(I, a.fn(j), b.fn(j)))


def get(tree, *path):
    for k in path:
        if isinstance(tree, dict):
            if k not in tree:
                return None
            tree = tree[k]
        elif isinstance(tree, list) and isinstance(k, int) and k < len(tree):
            tree = tree[k]
        else:
            return None
    return tree


def inner(leaf):
    """the JSON tree inside a Binary leaf, or None"""
    import json, base64
    if not isinstance(leaf, tuple) or leaf[0] != "s":
        return None
    x = leaf[1]
    if isinstance(x, bytes):
        try:
            return world.json_tree(json.loads(base64.b64decode(x, validate=True)))
        except Exception:
            return None
    if x.op == "b64":
        y = x.a[0]
        if isinstance(y, bytes):
            try:
                return world.json_tree(json.loads(y))
            except Exception:
                return None
        if isinstance(y, T) and y.op == "ser":
            return world.unflatten(y.a[0], y.a[1:])
    return None


def text_num(leaf):
    """the integer whose decimal text the leaf is"""
    if not isinstance(leaf, tuple) or leaf[0] != "s":
        return None
    x = leaf[1]
    if isinstance(x, bytes):
        return int(x) if x.isdigit() else None
    return x.a[0] if x.op == "dec" else None


def payment(msg):
    """(kind, asset name, recipient, amount) of a token or native transfer message; None when it is something else"""
    e = get(msg, "wasm", "execute")
    if e is not None and set(msg) == {"wasm"} and set(msg["wasm"]) == {"execute"}:
        b = inner(e["msg"])
        if e["funds"] == [] and isinstance(b, dict) and set(b) == {"transfer"} and set(b["transfer"]) == {"recipient", "amount"}:
            a = text_num(b["transfer"]["amount"])
            if a is not None:
                return ("token", e["contract_addr"][1], b["transfer"]["recipient"][1], a)
        return None
    e = get(msg, "bank", "send")
    if e is not None and isinstance(e["amount"], list) and len(e["amount"]) == 1:
        a = text_num(e["amount"][0]["amount"])
        if a is not None:
            return ("native", e["amount"][0]["denom"][1], e["to_address"][1], a)
    return None


def plain(m):
    """an ordinary message, without reply"""
    return {"id": n(0), "msg": m, "gas_limit": None, "reply_on": s(b"never")}


def wexec(addr, msg, funds=()):
    return {"wasm": {"execute": {"contract_addr": s(addr), "msg": jbin(msg), "funds": list(funds)}}}


def coin(denom, amount):
    return {"denom": s(denom), "amount": u(amount)}
