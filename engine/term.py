"""Hash-consed terms. Integers are mathematical (machine ranges are explicit facts); strings are an
uninterpreted sort with literals, injective constructors (decimal text, JSON text) and concatenation.
Python ints / bools / bytes are the constants, so every operation also runs on plain values."""

INF = None


class T:
    __slots__ = ("op", "a", "sort", "id", "lo", "hi", "_h")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic term used as bool: %r" % self)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.id


_tab = {}
_ct = [0]


def _mk(op, a, sort, lo=None, hi=None):
    k = (op, a, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.sort = sort
        t.lo = lo
        t.hi = hi
        _ct[0] += 1
        t.id = _ct[0]
        _tab[k] = t
    return t


def is_c(x):
    return not isinstance(x, T)


def sort_of(x):
    if isinstance(x, T):
        return x.sort
    if isinstance(x, bool):
        return "B"
    if isinstance(x, int):
        return "I"
    if isinstance(x, bytes):
        return "S"
    raise TypeError(repr(x))


_appb = {}


def app(name, args, sort, lo=None, hi=None):
    if sort == "I":
        # a symbol has one range: another range means another symbol
        b = _appb.setdefault(name, (lo, hi))
        if b != (lo, hi):
            name = "%s@%s..%s" % (name, lo, hi)
    return _mk("app", (name,) + tuple(args), sort, lo, hi)


def var(name, sort, lo=None, hi=None):
    return app(name, (), sort, lo, hi)


# ---------------------------------------------------------------- integers
def lo(x):
    return x if isinstance(x, int) else x.lo


def hi(x):
    return x if isinstance(x, int) else x.hi


def _poly(x):
    """-> (const, {mono: coef})"""
    if isinstance(x, int):
        return x, {}
    if x.op == "poly":
        return x.a[0], dict(x.a[1])
    return 0, {(x,): 1}


def mono_bounds(m):
    l, h = 1, 1
    for a in m:
        al, ah = a.lo, a.hi
        if al is None or al < 0:
            return (None, None) if len(m) > 1 else (al, ah)
        l = l * al
        h = None if (h is None or ah is None) else h * ah
    return l, h


def _mkpoly(c, d):
    d = {m: k for m, k in d.items() if k}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mk: tuple(a.id for a in mk[0])))
    l, h = c, c
    for m, k in items:
        ml, mh = mono_bounds(m)
        if k < 0:
            ml, mh = mh, ml
        l = None if (l is None or ml is None) else l + k * ml
        h = None if (h is None or mh is None) else h + k * mh
    return _mk("poly", (c, items), "I", l, h)


def add(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x + y
    c1, d1 = _poly(x)
    c2, d2 = _poly(y)
    for m, k in d2.items():
        d1[m] = d1.get(m, 0) + k
    return _mkpoly(c1 + c2, d1)


def scale(x, k):
    if isinstance(x, int):
        return x * k
    c, d = _poly(x)
    return _mkpoly(c * k, {m: v * k for m, v in d.items()})


def sub(x, y):
    return add(x, scale(y, -1))


def mul(x, y):
    if isinstance(x, int):
        return scale(y, x)
    if isinstance(y, int):
        return scale(x, y)
    c1, d1 = _poly(x)
    c2, d2 = _poly(y)
    d = {}
    for m1, k1 in list(d1.items()) + ([((), c1)] if c1 else []):
        for m2, k2 in list(d2.items()) + ([((), c2)] if c2 else []):
            m = tuple(sorted(m1 + m2, key=lambda a: a.id))
            d[m] = d.get(m, 0) + k1 * k2
    c = d.pop((), 0)
    return _mkpoly(c, d)


def fdiv(n, d):
    """floor(n/d); meaningful for n >= 0, d > 0"""
    if isinstance(n, int) and isinstance(d, int) and d != 0:
        return n // d
    if isinstance(d, int) and d == 1:
        return n
    if isinstance(n, int) and n == 0:
        return 0
    if isinstance(d, int) and d > 1:
        # split off multiples of d; cancel common factors
        c, dd = _poly(n)
        from math import gcd
        g = d
        for k in dd.values():
            g = gcd(g, k)
        g = gcd(g, c)
        if g > 1:
            return fdiv(_mkpoly(c // g, {m: k // g for m, k in dd.items()}), d // g)
        if all(k >= 0 for k in dd.values()) and c >= 0:
            whole = {m: k // d for m, k in dd.items() if k >= d}
            cw = c // d
            if whole or cw:
                w = _mkpoly(cw, whole)
                r = _mkpoly(c % d, {m: k % d for m, k in dd.items()})
                return add(w, fdiv(r, d))
        else:
            # common divisor of all the coefficients and d: floor((g*p + c)/(g*d')) = floor((p + floor(c/g))/d')
            g = d
            for k in dd.values():
                g = gcd(g, k)
            if g > 1:
                return fdiv(_mkpoly(c // g, {m: k // g for m, k in dd.items()}), d // g)
    if isinstance(n, T) and n.op == "div":
        return fdiv(n.a[0], mul(n.a[1], d))
    if isinstance(n, T) and isinstance(d, T) and n is d:
        return 1
    l, h = 0, None
    nl, nh, dl, dh = lo(n), hi(n), lo(d), hi(d)
    if nl is not None and nl >= 0:
        if dh is not None and dh > 0:
            l = nl // dh
        if nh is not None:
            h = nh // max(dl or 1, 1)
    else:
        l = None
    if l is not None and h is not None and l == h:
        return l
    return _mk("div", (n, d), "I", l, h)


def cdiv(n, d):
    if isinstance(n, int) and isinstance(d, int):
        return -((-n) // d)
    return fdiv(add(n, sub(d, 1)), d)


def mod(n, d):
    if isinstance(n, int) and isinstance(d, int):
        return n % d
    return sub(n, mul(fdiv(n, d), d))


def isqrt(n):
    if isinstance(n, int):
        from math import isqrt as q
        return q(n)
    from math import isqrt as q
    return _mk("isqrt", (n,), "I", q(n.lo) if n.lo and n.lo > 0 else 0, q(n.hi) if n.hi is not None and n.hi >= 0 else None)


def ipow(b, e):
    if isinstance(e, int) and isinstance(b, int):
        return b ** e
    if isinstance(b, int) and b >= 1:
        l = b ** max(e.lo or 0, 0)
        h = b ** e.hi if e.hi is not None and e.hi < 200 else None
        return _mk("pow", (b, e), "I", l, h)
    raise TypeError("pow")


# ---------------------------------------------------------------- booleans
def le0(p):
    if isinstance(p, int):
        return p <= 0
    if p.hi is not None and p.hi <= 0:
        return True
    if p.lo is not None and p.lo > 0:
        return False
    c, d = _poly(p)
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        # g*q + c <= 0  <=>  q <= floor(-c/g)
        p = _mkpoly(-((-c) // g), {m: k // g for m, k in d.items()})
        return le0(p)
    return _mk("le0", (p,), "B")


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return le0(add(sub(x, y), 1))


def ge(x, y):
    return le(y, x)


def gt(x, y):
    return lt(y, x)


def ieq(x, y):
    if isinstance(x, T) and x.op == "ite" and is_c(y):
        return _ieq_ite(x, y)
    if isinstance(y, T) and y.op == "ite" and is_c(x):
        return _ieq_ite(y, x)
    p = sub(x, y)
    if isinstance(p, int):
        return p == 0
    if (p.lo is not None and p.lo > 0) or (p.hi is not None and p.hi < 0):
        return False
    c, d = _poly(p)
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        if c % g:
            return False
        p = _mkpoly(c // g, {m: k // g for m, k in d.items()})
        c, d = _poly(p)
    lead = min(d.items(), key=lambda mk: tuple(a.id for a in mk[0]))
    if lead[1] < 0:
        p = scale(p, -1)
    return _mk("eq0", (p,), "B")


def _ieq_ite(x, k):
    c, a, b = x.a
    ta, tb = ieq(a, k), ieq(b, k)
    if isinstance(ta, bool) or isinstance(tb, bool):
        return or_(and_(c, ta), and_(not_(c), tb))
    return _mk("eq0", (sub(x, k),), "B")


def not_(x):
    if isinstance(x, bool):
        return not x
    if x.op == "not":
        return x.a[0]
    if x.op == "le0":
        return le0(sub(1, x.a[0]))
    if x.op == "and":
        return or_(*[not_(y) for y in x.a])
    if x.op == "or":
        return and_(*[not_(y) for y in x.a])
    return _mk("not", (x,), "B")


def and_(*xs):
    o = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if isinstance(x, T) and x.op == "and":
            for y in x.a:
                if y not in o:
                    o.append(y)
        elif x not in o:
            o.append(x)
    if not o:
        return True
    if len(o) == 1:
        return o[0]
    return _mk("and", tuple(o), "B")


def or_(*xs):
    o = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if isinstance(x, T) and x.op == "or":
            for y in x.a:
                if y not in o:
                    o.append(y)
        elif x not in o:
            o.append(x)
    if not o:
        return False
    if len(o) == 1:
        return o[0]
    return _mk("or", tuple(o), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if isinstance(a, bool):
        return b if a else not_(b)
    if isinstance(b, bool):
        return a if b else not_(a)
    if a is b:
        return True
    return and_(implies(a, b), implies(b, a))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if (a is b) or (is_c(a) and is_c(b) and type(a) is type(b) and a == b):
        return a
    s = sort_of(a)
    if s == "B":
        return and_(implies(c, a), implies(not_(c), b))
    l = h = None
    if s == "I":
        la, lb, ha, hb = lo(a), lo(b), hi(a), hi(b)
        l = min(la, lb) if la is not None and lb is not None else None
        h = max(ha, hb) if ha is not None and hb is not None else None
    return _mk("ite", (c, a, b), s, l, h)


def imin(x, y):
    if is_c(x) and is_c(y):
        return min(x, y)
    return ite(le(x, y), x, y)


# ---------------------------------------------------------------- strings
def dec(i):
    """decimal text of a natural number"""
    if isinstance(i, int):
        return str(i).encode()
    return _mk("dec", (i,), "S")


def declen(n):
    if isinstance(n, int):
        return len(str(n))
    return app("declen", (n,), "I", 1, 80)


def num(v, L):
    """digit string with exactly L digits and value v"""
    if isinstance(v, int) and isinstance(L, int):
        return str(v).rjust(L, "0").encode() if L else b""
    return _mk("num", (v, L), "S")


def as_num(s):
    """(value, length) of a digit string term, or None"""
    if isinstance(s, bytes):
        return (int(s), len(s)) if s.isdigit() else (0, 0) if s == b"" else None
    if s.op == "dec":
        return s.a[0], declen(s.a[0])
    if s.op == "num":
        return s.a
    return None


def dectext(n, places=18):
    """text of the decimal number n / 10^places, without trailing zeros (cosmwasm Decimal style)"""
    if isinstance(n, int):
        w, f = divmod(n, 10 ** places)
        if f == 0:
            return str(w).encode()
        return ("%d.%s" % (w, str(f).rjust(places, "0").rstrip("0"))).encode()
    return _mk("dectext", (n, places), "S")


def cat(*parts):
    o = []
    for p in parts:
        if isinstance(p, T) and p.op == "cat":
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, bytes):
                if not q:
                    continue
                if o and isinstance(o[-1], bytes):
                    o[-1] = o[-1] + q
                    continue
            elif o and isinstance(o[-1], T) and o[-1].op == "num" and o[-1].a[0] == 0 and q.op in ("num", "dec"):
                v, L = as_num(q)
                o[-1] = num(v, add(o[-1].a[1], L))
                continue
            o.append(q)
    if not o:
        return b""
    if len(o) == 1:
        return o[0]
    return _mk("cat", tuple(o), "S")


def ser(skel, leaves):
    return _mk("ser", (skel,) + tuple(leaves), "S")


def b64(s):
    if isinstance(s, bytes):
        import base64
        return base64.b64encode(s)
    if s.op == "unb64":
        return s.a[0]
    return _mk("b64", (s,), "S")


def slen(s):
    if isinstance(s, bytes):
        return len(s)
    if s.op == "cat":
        r = 0
        for p in s.a:
            r = add(r, slen(p))
        return r
    if s.op == "dec":
        return app("declen", (s.a[0],), "I", 1, 80)
    if s.op == "num":
        return s.a[1]
    return app("len", (s,), "I", 0, 2 ** 32)


def seq(a, b):
    """string equality"""
    if a is b:
        return True
    ca, cb = isinstance(a, bytes), isinstance(b, bytes)
    if ca and cb:
        return a == b
    if ca:
        a, b, ca, cb = b, a, cb, ca
    if a.op == "num" and cb:
        if not b.isdigit():
            return ieq(a.a[1], 0) if b == b"" else False
        return and_(ieq(a.a[1], len(b)), ieq(a.a[0], int(b)))
    if not cb and a.op == "num" and b.op == "num":
        return and_(ieq(a.a[0], b.a[0]), ieq(a.a[1], b.a[1]))
    if a.op in ("dectext", "dec") and cb and b == b"":
        return False
    if a.op in ("dec", "dectext", "ser", "b64"):
        if not cb and b.op == a.op:
            if a.op == "dec":
                return ieq(a.a[0], b.a[0])
            if a.op == "dectext":
                return ieq(a.a[0], b.a[0]) if a.a[1] == b.a[1] else _seqatom(a, b)
            if a.op == "b64":
                return seq(a.a[0], b.a[0])
            if a.op == "ser":
                if a.a[0] != b.a[0]:
                    return False
                return and_(*[veq(x, y) for x, y in zip(a.a[1:], b.a[1:])])
        if cb:
            if a.op == "dec":
                try:
                    n = int(b)
                except ValueError:
                    return False
                return ieq(a.a[0], n) if str(n).encode() == b and n >= 0 else False
            if a.op == "ser" and b[:1] not in (b"{", b"[", b'"') and not b[:1].isdigit() and b not in (b"null", b"true", b"false"):
                return False
            if a.op == "b64":
                import base64
                try:
                    return seq(a.a[0], base64.b64decode(b, validate=True))
                except Exception:
                    return False
    if not cb and a.op == "cat" and b.op == "cat":
        pa, pb = list(a.a), list(b.a)
        # strip the common ends
        while pa and pb and pa[0] is pb[0]:
            pa.pop(0)
            pb.pop(0)
        while pa and pb and pa[-1] is pb[-1]:
            pa.pop()
            pb.pop()
        if len(pa) < len(a.a):
            return seq(cat(*pa), cat(*pb))
        if isinstance(pa[0], bytes) and isinstance(pb[0], bytes):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return False
    if cb and b == b"" and a.op == "cat":
        return and_(*[seq(p, b"") for p in a.a])
    if cb and a.op == "app":
        return _seqatom(a, b)
    return _seqatom(a, b)


def _seqatom(a, b):
    if not isinstance(b, bytes) and a.id > b.id:
        a, b = b, a
    return _mk("seq", (a, b), "B")


def sle(a, b):
    """byte-wise lexicographic <="""
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a <= b
    if a is b:
        return True
    return app("sle", (a, b), "B")


def veq(x, y):
    s = sort_of(x)
    if s != sort_of(y):
        return False
    return ieq(x, y) if s == "I" else seq(x, y) if s == "S" else iff(x, y)


# ---------------------------------------------------------------- printing
def show(x, d=0):
    if not isinstance(x, T):
        return repr(x)
    if d > 12:
        return "..."
    if x.op == "app":
        return x.a[0] + ("(%s)" % ",".join(show(y, d + 1) for y in x.a[1:]) if len(x.a) > 1 else "")
    if x.op == "poly":
        c, ms = x.a
        o = []
        for m, k in ms:
            o.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + "*".join(show(a, d + 1) for a in m))
        if c:
            o.append(str(c))
        return "(" + " + ".join(o) + ")"
    if x.op == "ser":
        return "ser<%s>(%s)" % (x.a[0], ",".join(show(y, d + 1) for y in x.a[1:]))
    return "%s(%s)" % (x.op, ", ".join(show(y, d + 1) for y in x.a))


def atoms(xs):
    """all subterms reachable from the given terms"""
    seen = {}
    st = [x for x in xs if isinstance(x, T)]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        if x.op == "poly":
            for m, _ in x.a[1]:
                st.extend(m)
        else:
            for y in x.a:
                if isinstance(y, T):
                    st.append(y)
    return list(seen.values())
