"""Terms -> z3, and the staged decision of verification conditions."""
import time, subprocess, tempfile, os
import z3
from term import *
import term as tm

S = z3.DeclareSort("Str")
_consts = {}
_fn = {}
_cache = {}
_lits = {}


def lit(b):
    if b not in _lits:
        _lits[b] = z3.Const("lit_%d_%s" % (len(_lits), "".join(c if c.isalnum() else "_" for c in b.decode("latin1"))[:24]), S)
    return _lits[b]


def zs(s):
    return {"I": z3.IntSort(), "B": z3.BoolSort(), "S": S}[s]


def fn(name, sig, rs):
    k = (name, sig, rs)
    if k not in _fn:
        nm = name + ("" if not sig else "/" + "".join(sig))
        _fn[k] = z3.Function(nm, *[zs(x) for x in sig], zs(rs)) if sig else z3.Const(nm, zs(rs))
    return _fn[k]


def mono_name(m):
    return "m_" + "_".join(str(a.id) for a in m)


def z(x, nl=False):
    """z3 expression; nl=False abstracts nonlinear monomials by fresh constants"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, bytes):
        return lit(x)
    k = (x.id, nl)
    r = _cache.get(k)
    if r is None:
        r = _z(x, nl)
        _cache[k] = r
    return r


def _z(x, nl):
    o = x.op
    if o == "app":
        args = x.a[1:]
        f = fn(x.a[0], tuple(sort_of(a) for a in args), x.sort)
        return f(*[z(a, nl) for a in args]) if args else f
    if o == "poly":
        c, ms = x.a
        ps = []
        for m, k in ms:
            if len(m) == 1:
                e = z(m[0], nl)
            elif nl:
                e = z(m[0], nl)
                for a in m[1:]:
                    e = e * z(a, nl)
            else:
                e = z3.Int(mono_name(m))
            ps.append(e if k == 1 else z3.IntVal(k) * e)
        if c:
            ps.append(z3.IntVal(c))
        return z3.Sum(ps) if len(ps) > 1 else ps[0]
    if o == "le0":
        return z(x.a[0], nl) <= 0
    if o == "eq0":
        return z(x.a[0], nl) == 0
    if o == "not":
        return z3.Not(z(x.a[0], nl))
    if o == "and":
        return z3.And([z(y, nl) for y in x.a])
    if o == "or":
        return z3.Or([z(y, nl) for y in x.a])
    if o == "ite":
        return z3.If(z(x.a[0], nl), z(x.a[1], nl), z(x.a[2], nl))
    if o == "seq":
        return z(x.a[0], nl) == z(x.a[1], nl)
    if o in ("div", "isqrt", "pow"):
        # a function of its (term) arguments: congruence is kept
        f = fn("$" + o, tuple("I" for a in x.a), "I")
        return f(*[z(a, nl) for a in x.a])
    if o in ("dec", "dectext", "b64", "unb64"):
        f = fn("$" + o + (str(x.a[1]) if o == "dectext" else ""), (sort_of(x.a[0]),), "S")
        return f(z(x.a[0], nl))
    if o == "num":
        return fn("$num", ("I", "I"), "S")(z(x.a[0], nl), z(x.a[1], nl))
    if o == "cat":
        f = fn("$cat%d" % len(x.a), tuple("S" for a in x.a), "S")
        return f(*[z(a, nl) for a in x.a])
    if o == "ser":
        f = fn("$ser:" + x.a[0], tuple(sort_of(a) for a in x.a[1:]), "S")
        return f(*[z(a, nl) for a in x.a[1:]]) if len(x.a) > 1 else z3.Const("$ser:" + x.a[0], S)
    raise ValueError(o)


# ---------------------------------------------------------------- definitional facts
def defs(ts):
    """definitional facts (as terms) for all atoms in ts, to a fixpoint"""
    out = []
    seen = set()
    work = list(ts)
    while True:
        al = [a for a in atoms(work) if a.id not in seen]
        if not al:
            return out
        new = []
        for a in al:
            seen.add(a.id)
            if a.op == "div":
                n, d = a.a
                f = and_(le(mul(a, d), n), lt(n, mul(add(a, 1), d)))
                new.append(implies(gt(d, 0), f))
                if lo(n) is not None and lo(n) >= 0:
                    new.append(implies(gt(d, 0), ge_raw(a, 0)))
            elif a.op == "app" and a.a[0] == "declen":
                for k in range(1, 21):
                    new.append(iff(lt(a.a[1], 10 ** k), le(a, k)))
            elif a.op == "isqrt":
                n = a.a[0]
                new.append(implies(ge(n, 0), and_(ge_raw(a, 0), le(mul(a, a), n), lt(n, mul(add(a, 1), add(a, 1))))))
            elif a.op == "pow":
                b, e = a.a
                if isinstance(b, int) and isinstance(e, T) and e.hi is not None and e.hi <= 40:
                    new.append(implies(ge(e, 0), or_(*[and_(ieq(e, i), ieq(a, b ** i)) for i in range(max(e.lo or 0, 0), e.hi + 1)])))
                elif isinstance(b, int) and b > 1 and isinstance(e, T):
                    new.append(implies(ieq(e, 0), ieq(a, 1)))
                    for w in (1 << 64, 1 << 128, 1 << 256):
                        i = 0
                        while b ** (i + 1) < w:
                            i += 1
                        new.append(and_(implies(and_(ge(e, 0), le(e, i)), le(a, b ** i)), implies(gt(e, i), ge(a, b ** (i + 1)))))
        new = [f for f in new if f is not True]
        out += new
        work = new


def ge_raw(x, y):
    """x >= y without using the interval of x"""
    p = sub(y, x)
    return tm._mk("le0", (p,), "B") if isinstance(p, T) else p <= 0


def ranges(ts, nl):
    """z3 range facts for atoms and (linear mode) monomials"""
    out = []
    seen = set()
    for a in atoms(ts):
        if a.sort != "I":
            continue
        if a.op == "poly":
            if not nl:
                for m, _ in a.a[1]:
                    if len(m) > 1 and m not in seen:
                        seen.add(m)
                        l, h = tm.mono_bounds(m)
                        v = z3.Int(mono_name(m))
                        if l is not None:
                            out.append(v >= l)
                        if h is not None:
                            out.append(v <= h)
            continue
        if a.op in ("le0", "eq0"):
            continue
        e = z(a, nl)
        if a.lo is not None:
            out.append(e >= a.lo)
        if a.hi is not None:
            out.append(e <= a.hi)
    return out


def strfacts(ts):
    """literals are distinct; decimal / JSON / base64 texts are injective and differ from other literals"""
    out = []
    al = atoms(ts)
    lits = set()
    for a in al:
        xs = a.a if a.op != "poly" else ()
        for y in xs:
            if isinstance(y, bytes):
                lits.add(y)
    if len(lits) > 1:
        out.append(z3.Distinct([lit(b) for b in sorted(lits)]))
    inj = {}
    for a in al:
        if a.op in ("dec", "dectext", "b64", "ser"):
            inj.setdefault((a.op, a.a[0] if a.op == "ser" else None), []).append(a)
    for (op, sk), l in inj.items():
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                x, y = l[i], l[j]
                if op == "ser":
                    e = z3.And([z(p) == z(q) for p, q in zip(x.a[1:], y.a[1:])] or [z3.BoolVal(True)])
                else:
                    e = z(x.a[0]) == z(y.a[0])
                out.append(z3.Implies(z(x) == z(y), e))
    # texts of different JSON shapes differ
    sers = [a for a in al if a.op == "ser"]
    for i in range(len(sers)):
        for j in range(i + 1, len(sers)):
            if sers[i].a[0] != sers[j].a[0]:
                out.append(z(sers[i]) != z(sers[j]))
        for b in lits:
            if seq(sers[i], b) is False:
                out.append(z(sers[i]) != lit(b))
    for a in al:
        if a.op == "dec":
            for b in lits:
                q = seq(a, b)
                if q is False:
                    out.append(z(a) != lit(b))
                else:
                    out.append(z3.Implies(z(a) == lit(b), z(q)))
    # string lengths of literals
    for a in al:
        if a.op == "app" and a.a[0] == "len":
            for b in lits:
                out.append(z3.Implies(z(a.a[1]) == lit(b), z(a) == len(b)))
    # byte order: total order
    les = [a for a in al if a.op == "app" and a.a[0] == "sle"]
    for a in les:
        x, y = a.a[1], a.a[2]
        b = app("sle", (y, x), "B")
        out.append(z3.Or(z(a), z(b)))
        out.append(z3.Implies(z3.And(z(a), z(b)), z(x) == z(y)))
        for c in les:
            if c.a[1] is y and c is not a:
                t = app("sle", (x, c.a[2]), "B")
                out.append(z3.Implies(z3.And(z(a), z(c)), z(t)))
    return out


stats = {"calls": 0, "time": 0.0, "by": {}}


def _solve(cons, timeout_ms, kind):
    t0 = time.time()
    if kind == "nl":
        s = z3.SolverFor("QF_UFNIA") if False else z3.Solver()
        s.set("timeout", timeout_ms)
    else:
        s = z3.Solver()
        s.set("timeout", timeout_ms)
    for c in cons:
        s.add(c)
    r = s.check()
    dt = time.time() - t0
    stats["calls"] += 1
    stats["time"] += dt
    return r, s


def run_cvc5(cons, timeout_s):
    s = z3.Solver()
    for c in cons:
        s.add(c)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout_s * 1000), "--nl-ext-tplanes", f.name], capture_output=True, text=True, timeout=timeout_s + 10)
        o = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except subprocess.TimeoutExpired:
        o = "unknown"
    finally:
        os.unlink(f.name)
    stats["calls"] += 1
    stats["time"] += time.time() - t0
    return o


def decide(hyps, goal, quick_ms=3000, nl_ms=8000, cvc_s=10, lemmas=()):
    """-> (status, backend, model, seconds).  status: 'proved' | 'refuted' (model of the full theory) | 'unknown'"""
    t0 = time.time()
    neg = not_(goal)
    if neg is False:
        return "proved", "simplifier", None, 0.0
    allt = [h for h in hyps if isinstance(h, T)]
    if any(h is False for h in hyps):
        return "proved", "simplifier", None, 0.0
    if neg is not True:
        allt.append(neg)
    ds = defs(allt)
    # stage 1: linear abstraction with definitional facts over monomials
    full = allt + ds
    cons = [z(t) for t in full] + ranges(full, False) + strfacts(full)
    r, s = _solve(cons, quick_ms, "lin")
    if r == z3.unsat:
        return "proved", "z3-linear", None, time.time() - t0
    nonlinear = any(a.op in ("div", "isqrt") or (a.op == "poly" and any(len(m) > 1 for m, _ in a.a[1])) for a in atoms(full))
    if r == z3.sat and not nonlinear:
        return "refuted", "z3-linear", s.model(), time.time() - t0
    consn = [z(t, True) for t in full] + ranges(full, True) + strfacts(full)
    r2, s2 = _solve(consn, nl_ms, "nl")
    if r2 == z3.unsat:
        return "proved", "z3-nonlinear", None, time.time() - t0
    if r2 == z3.sat:
        return "refuted", "z3-nonlinear", s2.model(), time.time() - t0
    if cvc_s:
        o = run_cvc5(consn, cvc_s)
        if o == "unsat":
            return "proved", "cvc5", None, time.time() - t0
        if o == "sat":
            return "refuted", "cvc5", None, time.time() - t0
    return "unknown", "none", (s.model() if r == z3.sat else None), time.time() - t0
