"""Symbolic execution of exported MIR."""
import sys
from term import *
import term as tm
from values import *
import loops

sys.setrecursionlimit(20000)
NATIVE = {}          # def path -> python function(I, fn, args, callee) -> value
NATIVE_RX = []       # (regex, function)


def native(*names):
    def d(f):
        for n in names:
            NATIVE[n] = f
        return f
    return d


def norm_df(s):
    """definition path without lifetimes"""
    import re
    s = re.sub(r"(::)?<'[a-z_0-9]+>", "", s)
    s = re.sub(r"'[a-z_0-9]+, ", "", s)
    s = re.sub(r"&'[a-z_0-9]+ ", "&", s)
    s = s.replace("::<>", "")
    return s


class Frame:
    __slots__ = ("fn", "loc", "bb", "done")

    def __init__(self, fn):
        self.fn = fn
        self.loc = [None] * len(fn.locals)
        self.done = {}           # heads of summarised loops -> their blocks


class Interp:
    def __init__(self, mir, path, cfg=None):
        self.mir = mir
        self.p = path
        self.stack = []
        self.cfg = cfg or {}
        self.steps = 0
        self.max_steps = self.cfg.get("max_steps", 2000000)
        self.contracts = self.cfg.get("contracts", {})
        self.skip_contract = self.cfg.get("verify")       # the function under verification is not replaced
        self.used = self.cfg.setdefault("used", set())     # functions whose body was executed
        self.usedc = self.cfg.setdefault("usedc", set())   # contracts applied
        self.frozen = 0          # cells created up to this count are read-only
        self.store = None
        self.api = None
        self.querier = None
        self.reply_parse = None
        self.queries = []
        self.itcount = {}
        self.max_iter = self.cfg.get("max_iter", 4)
        self._consts = mir.__dict__.setdefault("_constcache", {})

    # ------------------------------------------------------------ reading and writing trees
    def get(self, v, path):
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        if type(p) is int:
            if type(v) is Agg:
                try:
                    return v.f[p]
                except IndexError:
                    raise Unsupported("field %d of %s" % (p, short(v)))
            if type(v) is tuple:      # (SymEnum, variant)
                return v[0].field(v[1], p)
            if type(v) is Ref:
                return v              # Box internals
            if v is None or v is UNINIT:
                raise Unsupported("read of uninitialised field")
            if isinstance(v, (int, T, bytes)) and p == 0:
                return v              # transparent integer/string wrappers
            raise Unsupported("field %d of %s" % (p, short(v)))
        k = p[0]
        if k == "d":
            if type(v) is SymEnum:
                return (v, p[1])
            return v
        if k == "i":
            if type(v) is VecV:
                i = p[1]
                if isinstance(i, T):
                    raise Unsupported("symbolic index")
                if not 0 <= i < len(v.e):
                    raise Unsupported("index out of range %d" % i)
                return v.e[i]
            if type(v) is SeqV:
                return v.elem(p[1])
            if isinstance(v, bytes) and isinstance(p[1], int):
                return v[p[1]]
            if isinstance(p[1], int) and sort_of(v) == "I":      # limb of a 256-bit integer
                return mod(fdiv(v, 1 << (64 * p[1])), 1 << 64)
            if isinstance(v, (bytes, T)):
                return app("byte", (v, p[1]), "I", 0, 255)
            raise Unsupported("index of %s" % short(v))
        if k == "s":
            if type(v) is VecV:
                return VecV(v.e[p[1]:p[1] + p[2]])
            raise Unsupported("subslice of %s" % short(v))
        raise Unsupported("projection %s" % (p,))

    def put(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if type(p) is int:
            if type(v) is Agg:
                f = list(v.f)
                f[p] = self.put(f[p], path[1:], x)
                return Agg(v.tid, v.v, tuple(f))
            if isinstance(v, (int, T, bytes)) and p == 0:
                return self.put(v, path[1:], x)
            raise Unsupported("write field %d of %s" % (p, short(v)))
        if p[0] == "d":
            if type(v) is SymEnum:
                var = self.mir.types[v.tid].d["vs"][p[1]]
                v = Agg(v.tid, p[1], tuple(v.field(p[1], i) for i in range(len(var["f"]))))
            return self.put(v, path[1:], x)
        if p[0] == "i" and type(v) is VecV and isinstance(p[1], int):
            e = list(v.e)
            e[p[1]] = self.put(e[p[1]], path[1:], x)
            return VecV(e)
        if p[0] == "i" and type(v) is SeqV:
            k, y = p[1], self.put(v.elem(p[1]), path[1:], x)
            return SeqV(self.mir, v.ety, v.len, v.base + "[:=]", v.args, lambda i: y if self.p.branch(ieq(i, k)) else v.elem(i))
        if p[0] == "s" and type(v) is VecV:
            sub_ = VecV(v.e[p[1]:p[1] + p[2]])
            n = self.put(sub_, path[1:], x)
            return VecV(v.e[:p[1]] + n.e + v.e[p[1] + p[2]:])
        raise Unsupported("write %s of %s" % (p, short(v)))

    def load(self, r):
        """the value behind a reference (or the value itself for string slices)"""
        if type(r) is Ref:
            return self.get(r.cell.v, r.path)
        return r

    def store_ref(self, r, x):
        if type(r) is not Ref:
            raise Unsupported("write through %s" % short(r))
        if r.cell.n <= self.frozen:
            raise Unsupported("a predicate with side effects")
        r.cell.v = self.put(r.cell.v, r.path, x)

    def deep(self, r):
        """follow references to a non-reference value"""
        while type(r) is Ref:
            r = self.get(r.cell.v, r.path)
        return r

    def sval(self, x):
        """string / byte-string value of &str, String, &String, &[u8], Vec<u8>, arrays of bytes, newtypes of those"""
        x = self.deep(x)
        while type(x) is Agg and len(x.f) == 1:
            x = self.deep(x.f[0])
        if type(x) is VecV:
            if all(isinstance(b, int) for b in x.e):
                return bytes(x.e)
            raise Unsupported("symbolic byte array as text")
        if isinstance(x, bytes) or (isinstance(x, T) and x.sort == "S"):
            return x
        raise Unsupported("string value of %s" % short(x))

    def ival(self, x):
        """integer inside newtypes"""
        x = self.deep(x)
        while type(x) is Agg and len(x.f) == 1:
            x = self.deep(x.f[0])
        if isinstance(x, (int, T)):
            return x
        raise Unsupported("integer value of %s" % short(x))

    # ------------------------------------------------------------ places
    def place(self, fr, pl):
        l, proj = pl
        c = fr.loc[l]
        if c is None:
            c = fr.loc[l] = Cell(None)
        path = ()
        for e in proj:
            if e == "*":
                v = self.get(c.v, path)
                if type(v) is Ref:
                    c, path = v.cell, v.path
                elif type(v) is Agg and len(v.f) >= 1 and type(v.f[0]) is Ref:
                    c, path = v.f[0].cell, v.f[0].path
                elif v is None:
                    raise Unsupported("deref of uninitialised")
                else:
                    c, path = Cell(v), ()
            elif e == "o":
                pass
            elif e[0] == "f":
                path = path + (e[1],)
            elif e[0] == "d":
                path = path + (("d", e[1]),)
            elif e[0] == "i":
                i = fr.loc[e[1]].v
                path = path + (("i", self.conc_index(i, lambda: self.get(c.v, path))),)
            elif e[0] == "ci":
                off, fe = e[1], e[3]
                if fe:
                    n = self.vlen(self.get(c.v, path))
                    path = path + (("i", sub(n, off)),)
                else:
                    path = path + (("i", off),)
            elif e[0] == "ss":
                fr_, to, fe = e[1], e[2], e[3]
                n = self.vlen(self.get(c.v, path))
                if not isinstance(n, int):
                    raise Unsupported("subslice pattern")
                end = n - to if fe else to
                path = path + (("s", fr_, end - fr_),)
            else:
                raise Unsupported("projection %s" % (e,))
        return c, path

    def conc_index(self, i, getv):
        if isinstance(i, T):
            v = getv()
            if type(v) is VecV:
                for k in range(len(v.e)):
                    if self.p.branch(ieq(i, k)):
                        return k
                raise Infeasible()
        return i

    def read(self, fr, pl):
        l, proj = pl
        if not proj:
            c = fr.loc[l]
            if c is None:
                raise Unsupported("read of unset local _%d in %s" % (l, fr.fn.name))
            return c.v
        c, path = self.place(fr, pl)
        v = self.get(c.v, path)
        if type(v) is tuple:
            raise Unsupported("whole variant read")
        return v

    def write(self, fr, pl, v):
        l, proj = pl
        if not proj:
            c = fr.loc[l]
            if c is None:
                fr.loc[l] = Cell(v)
            else:
                c.v = v
            return
        c, path = self.place(fr, pl)
        if c.n <= self.frozen:
            raise Unsupported("a predicate with side effects")
        if path:
            if c.v is None:
                # field-wise initialisation of a local
                c.v = self.skeleton(fr.fn.locals[l])
            c.v = self.put(c.v, path, v)
        else:
            c.v = v

    def skeleton(self, ty):
        t = self.mir.types[ty]
        if t.k == "tuple":
            return Agg(ty, 0, tuple(self.skeleton(x) for x in t.d["ts"]))
        if t.k == "adt" and t.d["ak"] == "struct":
            return Agg(ty, 0, tuple(UNINIT for _ in t.d["vs"][0]["f"]))
        return UNINIT

    # ------------------------------------------------------------ constants
    def const(self, cid):
        v = self._consts.get(cid)
        if v is None:
            ty, val = self.mir.consts[cid]
            v = self.cval(ty, val)
            self._consts[cid] = v
        return v

    def cval(self, ty, val):
        k, = [x for x in val if x in ("i", "b", "str", "bslice", "bytes", "tup", "arr", "slice", "adt", "ref", "fn", "zst", "addr", "opaque")][:1]
        if k == "i":
            return int(val["i"])
        if k == "b":
            return bool(val["b"])
        if k in ("str", "bslice"):
            return bytes.fromhex(val[k])
        t = self.mir.types[ty]
        if k == "bytes":
            return VecV(list(bytes.fromhex(val[k])))
        if k == "tup":
            return Agg(ty, 0, tuple(self.cval(x, y) for x, y in zip(t.d["ts"], val[k])))
        if k == "arr":
            return VecV([self.cval(t.d["t"], y) for y in val[k]])
        if k == "slice":
            inner = self.mir.types[t.d["t"]]
            return Ref(Cell(VecV([self.cval(inner.d["t"], y) for y in val[k]])))
        if k == "adt":
            ty = val["adt"]
            t = self.mir.types[ty]
            nm = t.d["name"]
            fs = tuple(self.cval(f[1], y) for f, y in zip(t.d["vs"][val["v"]]["f"], val["f"]))
            if self.mir.is_u256(ty):
                return self.limbs(fs[0])
            return Agg(ty, val["v"], fs)
        if k == "ref":
            return Ref(Cell(self.cval(t.d["t"], val[k])))
        if k == "fn":
            return FnV(val[k])
        if k == "zst":
            return self.zst(val["zst"])
        if k == "opaque":
            nm = t.d.get("name", "")
            if nm == "std::vec::Vec":
                return b"" if is_u8(self.mir, t.d["args"][0]) else VecV(())
            return Opaque("const:" + val[k][:80])
        raise Unsupported("constant %s" % k)

    def zst(self, ty):
        t = self.mir.types[ty]
        if t.k == "fndef":
            return FnV(t.d["f"], ty)
        if t.k == "closure":
            return Agg(ty, 0, ())
        if t.k == "tuple":
            return Agg(ty, 0, tuple(self.zst(x) for x in t.d["ts"]))
        if t.k == "adt" and t.d["ak"] == "struct":
            return Agg(ty, 0, tuple(self.zst(x[1]) for x in t.d["vs"][0]["f"]))
        if t.k == "array":
            return VecV([])
        return Agg(ty, 0, ())

    def limbs(self, v):
        if all(isinstance(x, int) for x in v.e):
            return sum(x << (64 * i) for i, x in enumerate(v.e))
        r = 0
        for i, x in enumerate(v.e):
            r = add(r, mul(x, 1 << (64 * i)))
        return r

    # ------------------------------------------------------------ rvalues
    def operand(self, fr, o):
        k = o[0]
        if k == "k":
            return self.const(o[1])
        if k == "rc":
            return False
        return self.read(fr, o[1])

    def op_ty(self, fr, o):
        if o[0] == "k":
            return self.mir.consts[o[1]][0]
        return self.place_ty(fr.fn, o[1])

    def place_ty(self, fn, pl):
        l, proj = pl
        ty = fn.locals[l]
        for e in proj:
            t = self.mir.types[ty]
            if e == "*":
                ty = t.d.get("t") if t.k in ("ref", "ptr") else (t.d["args"][0] if t.k == "adt" else None)
            elif e != "o" and e[0] == "f":
                ty = e[2]
            elif e != "o" and e[0] in ("i", "ci"):
                ty = t.d.get("t")
            if ty is None:
                return None
        return ty

    def wrap(self, ty, v):
        """value of an integer type after wrapping"""
        t = self.mir.types[ty] if ty is not None else None
        if t is None or t.k not in ("uint", "int"):
            return v
        w = t.d["w"]
        if isinstance(v, int) and not isinstance(v, bool):
            if t.k == "uint":
                return v % (1 << w)
            v %= 1 << w
            return v - (1 << w) if v >= 1 << (w - 1) else v
        if t.k == "uint":
            if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi < 1 << w:
                return v
            return mod(v, 1 << w)
        return v

    def binop(self, fr, op, a, b, dty, aty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, (int, T)) and isinstance(b, (int, T)):
                if sort_of(a) == "B" or sort_of(b) == "B":
                    if op == "Eq":
                        return iff(a, b)
                    if op == "Ne":
                        return not_(iff(a, b))
                    raise Unsupported("bool order")
                if sort_of(a) == "I" and sort_of(b) == "I":
                    return {"Eq": ieq, "Ne": lambda x, y: not_(ieq(x, y)), "Lt": lt, "Le": le, "Gt": gt, "Ge": ge}[op](a, b)
            raise Unsupported("compare %s %s" % (short(a), short(b)))
        if op == "Cmp":
            return self.ordering(dty, a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if sort_of(a) == "B":
                return {"BitAnd": and_, "BitOr": or_, "BitXor": lambda x, y: not_(iff(x, y))}[op](a, b)
            if is_c(a) and is_c(b):
                return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
            if op == "BitAnd" and is_c(b) and b & (b + 1) == 0:
                return mod(a, b + 1)
            if op == "BitAnd" and is_c(a) and a & (a + 1) == 0:
                return mod(b, a + 1)
            raise Unsupported("bit operation on symbolic integers")
        if not (isinstance(a, (int, T)) and isinstance(b, (int, T))):
            raise Unsupported("arithmetic on %s %s" % (short(a), short(b)))
        if op in ("Add", "AddUnchecked"):
            r = add(a, b)
        elif op in ("Sub", "SubUnchecked"):
            r = sub(a, b)
        elif op in ("Mul", "MulUnchecked"):
            r = mul(a, b)
        elif op in ("Div", "Rem"):
            if self.mir.types[dty].k == "int":
                # signed division truncates towards zero
                na, nb = self.p.branch(lt(a, 0)), self.p.branch(lt(b, 0))
                q = fdiv(sub(0, a) if na else a, sub(0, b) if nb else b)
                q = sub(0, q) if na != nb else q
                return q if op == "Div" else sub(a, mul(q, b))
            return fdiv(a, b) if op == "Div" else mod(a, b)
        elif op in ("Shl", "ShlUnchecked"):
            if not is_c(b):
                raise Unsupported("symbolic shift")
            r = mul(a, 1 << b)
        elif op in ("Shr", "ShrUnchecked"):
            if not is_c(b):
                raise Unsupported("symbolic shift")
            return fdiv(a, 1 << b)
        else:
            raise Unsupported("binop " + op)
        return r if op.endswith("Unchecked") else self.wrap_fork(aty, r)

    def wrap_fork(self, ty, r):
        t = self.mir.types[ty] if ty is not None else None
        if t is None or t.k != "uint" or isinstance(r, int):
            return self.wrap(ty, r)
        m = 1 << t.d["w"]
        if r.lo is not None and r.lo >= 0 and r.hi is not None and r.hi < m:
            return r
        if self.p.branch(and_(ge(r, 0), lt(r, m))):
            return r
        if (r.hi is not None and r.hi < 2 * m) and self.p.branch(ge(r, m)):
            return sub(r, m)
        if (r.lo is not None and r.lo >= -m) and self.p.branch(lt(r, 0)):
            return add(r, m)
        return mod(r, m)

    def ordering(self, ty, a, b):
        d = ite(lt(a, b), 0, ite(ieq(a, b), 1, 2))
        if isinstance(d, int):
            return Agg(ty, d, ())
        return SymEnum(self.mir, ty, d, "ordering", ())

    def unop(self, op, a, ty):
        if op == "Not":
            if sort_of(a) == "B":
                return not_(a)
            t = self.mir.types[ty]
            return sub((1 << t.d["w"]) - 1, a) if t.k == "uint" else sub(-1, a)
        if op == "Neg":
            return sub(0, a)
        if op == "PtrMetadata":
            return self.vlen(self.load(a))
        raise Unsupported("unop " + op)

    def vlen(self, v):
        if type(v) is Ref:
            v = self.load(v)
        if type(v) is VecV:
            return len(v.e)
        if type(v) is SeqV:
            return v.len
        if isinstance(v, (bytes, T)):
            return slen(v)
        raise Unsupported("length of %s" % short(v))

    def discr(self, v):
        if type(v) is SymEnum:
            ds = [int(x["d"]) for x in self.mir.types[v.tid].d["vs"]]
            if ds == list(range(len(ds))):
                return v.discr
            for i, d in enumerate(ds):
                if self.p.branch(ieq(v.discr, i)):
                    return d
            raise Infeasible()
        if type(v) is Agg:
            t = self.mir.types[v.tid]
            if t.k == "adt" and t.d["ak"] == "enum":
                return int(t.d["vs"][v.v]["d"])
            return 0
        raise Unsupported("discriminant of %s" % short(v))

    def variant(self, v):
        """concrete variant index (forks)"""
        if type(v) is Agg:
            return v.v
        if type(v) is SymEnum:
            n = len(self.mir.types[v.tid].d["vs"])
            for i in range(n - 1):
                if self.p.branch(ieq(v.discr, i)):
                    return i
            self.p.assume(ieq(v.discr, n - 1))
            return n - 1
        raise Unsupported("variant of %s" % short(v))

    def vfield(self, v, var, i):
        return v.field(var, i) if type(v) is SymEnum else v.f[i]

    def rvalue(self, fr, r, dpl):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "ref":
            c, path = self.place(fr, r[1])
            # a reborrow of a string slice or of a dyn object is the value itself
            if not path and not isinstance(c.v, (Agg, SymEnum, VecV, SeqV)) and r[1][1] and r[1][1][-1] == "*":
                v = c.v
                if isinstance(v, (bytes, Dyn)) or (isinstance(v, T) and v.sort == "S" and not r[2]):
                    if isinstance(v, Dyn) or self.is_strref(fr, r[1]):
                        return v
            return Ref(c, path)
        if k == "bin":
            a = self.operand(fr, r[2])
            b = self.operand(fr, r[3])
            if a is UNINIT or b is UNINIT:
                return UNINIT
            return self.binop(fr, r[1], a, b, self.place_ty(fr.fn, dpl), self.op_ty(fr, r[2]))
        if k == "cbin":
            a = self.operand(fr, r[2])
            b = self.operand(fr, r[3])
            aty = self.op_ty(fr, r[2])
            return self.checked(r[1], a, b, aty, self.place_ty(fr.fn, dpl))
        if k == "un":
            return self.unop(r[1], self.operand(fr, r[2]), self.op_ty(fr, r[2]))
        if k == "discr":
            c, path = self.place(fr, r[1])
            v = self.get(c.v, path) if c.v is not None else None
            if v is None or v is UNINIT:
                return UNINIT       # a dead store (its value may only reach an `assume`)
            v = self.discr(v)
            if isinstance(v, int):
                t = self.mir.types[self.place_ty(fr.fn, dpl)]
                if t.k == "int" and v >= 1 << (t.d["w"] - 1):
                    v -= 1 << t.d["w"]
            return v
        if k == "len":
            return self.vlen(self.read(fr, r[1]))
        if k == "cast":
            return self.cast(fr, r[1], r[2], r[3])
        if k == "rep":
            v = self.operand(fr, r[1])
            return VecV([v] * r[2])
        if k == "agg":
            vals = tuple(self.operand(fr, o) for o in r[2])
            a = r[1]
            if a[0] == "array":
                return VecV(vals)
            if a[0] == "tuple":
                return Agg(self.place_ty(fr.fn, dpl), 0, vals)
            if a[0] == "adt":
                if self.mir.is_u256(a[1]):
                    return self.limbs(vals[0])
                if a[3] is not None:      # union
                    t = self.mir.types[a[1]]
                    f = [UNINIT] * len(t.d["vs"][0]["f"])
                    f[a[3]] = vals[0]
                    return Agg(a[1], 0, tuple(f))
                return Agg(a[1], a[2], vals)
            if a[0] == "closure":
                return Agg(a[1], 0, vals)
            raise Unsupported("aggregate " + a[0])
        raise Unsupported("rvalue " + k)

    def is_strref(self, fr, pl):
        ty = self.place_ty(fr.fn, pl)
        if ty is None:
            return False
        t = self.mir.types[ty]
        return t.k == "str" or (t.k == "slice" and is_u8(self.mir, t.d["t"]))

    def checked(self, op, a, b, aty, dty):
        t = self.mir.types[aty]
        w = t.d["w"]
        l, h = (0, (1 << w) - 1) if t.k == "uint" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        r = {"Add": add, "Sub": sub, "Mul": mul}.get(op, lambda x, y: None)(a, b)
        if r is None:
            if op in ("Shl", "Shr"):
                return Agg(dty, 0, (self.binop(None, op, a, b, aty, aty), not_(lt(b, w))))
            raise Unsupported("checked " + op)
        o = or_(lt(r, l), gt(r, h))
        if self.p.branch(o):
            return Agg(dty, 0, (self.wrap(aty, r), True))
        return Agg(dty, 0, (r, False))

    def cast(self, fr, kind, o, ty):
        v = self.operand(fr, o)
        t = self.mir.types[ty]
        if kind in ("IntToInt",):
            if isinstance(v, T) and v.sort == "B" or isinstance(v, bool):
                return ite(v, 1, 0)
            if t.k == "char":
                return v
            if isinstance(v, (int, T)):
                return self.wrap_fork(ty, v)
            raise Unsupported("int cast of %s" % short(v))
        if kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "UnsafeFnPointer" in kind or "MutToConst" in kind:
                return v
            if "Unsize" in kind:
                it = self.mir.types[t.d["t"]] if t.k in ("ref", "ptr") else None
                if it is not None and it.k == "dyn" and not isinstance(v, Dyn):
                    d = self.deep(v)
                    if isinstance(d, Dyn):
                        return d
                    return Dyn("obj", (v, self.op_ty(fr, o)))
                return v
            return v
        if kind == "Transmute" or kind == "BoxDerefTransmute" or kind in ("PtrToPtr", "Subtype"):
            if isinstance(v, Agg) and t.k in ("uint", "int") and not isinstance(v.f, int):
                raise Unsupported("transmute of %s" % short(v))
            if t.k == "adt" and t.d["name"] == "std::boxed::Box" and isinstance(v, Ref):
                return v
            if isinstance(v, (Ref, FnV, bytes, Dyn)) or (isinstance(v, T) and v.sort == "S"):
                return v
            if isinstance(v, (int, T)) and t.k in ("uint", "int"):
                return v
            if isinstance(v, (int, T)) and t.k == "adt" and t.d["ak"] == "struct" and len(t.d["vs"][0]["f"]) == 1:
                return Agg(ty, 0, (v,))
            raise Unsupported("%s of %s to %s" % (kind, short(v), self.mir.tyname(ty)))
        raise Unsupported("cast " + kind)

    def iter_step(self, r, it):
        """one step of an iterator over a sequence of symbolic length (loops are summarised by loops.py)"""

    # ------------------------------------------------------------ calls
    def call_value(self, f, args):
        """call of a closure / function value with separate arguments"""
        raise Unsupported("call_value")

    def invoke(self, key, args, untuple=False):
        fn = self.mir.fns.get(key)
        if fn is None:
            raise Unsupported("unknown function %s" % key)
        return self.call_fn(fn, args, fn.df)

    def call_fn(self, fn, args, callee):
        c = self.contracts.get(fn.df)
        if c is not None and fn.df != self.skip_contract:
            self.usedc.add(fn.df)
            return c.apply(self, fn, args)
        h = self.mir.native_of(fn)
        if h is not None:
            return h(self, fn, args, callee)
        if callee.startswith("std::ops::Fn") and fn.closure and fn.blocks is not None and len(args) == 2:
            args = [args[0]] + list(args[1].f if isinstance(args[1], Agg) else [])
        if fn.blocks is None:
            r = self.ctor(fn, args)
            if r is not None:
                return r
            raise Unsupported("no body: %s" % fn.name)
        return self.run(fn, args)

    def ctor(self, fn, args):
        """tuple-struct / tuple-variant constructor used as a function"""
        if not fn.sig:
            return None
        t = self.mir.types[fn.sig["out"]]
        if t.k != "adt":
            return None
        last = fn.df.rsplit("::", 1)[-1]
        for i, v in enumerate(t.d["vs"]):
            if v["n"] == last and len(v["f"]) == len(args) and [f[1] for f in v["f"]] == fn.sig["in"]:
                if self.mir.is_u256(t.id):
                    return self.limbs(args[0])
                return Agg(t.id, i, tuple(args))
        return None

    def run(self, fn, args):
        if len(self.stack) > 120:
            raise Unsupported("call depth")
        if fn.file and fn.file.startswith("/repo"):
            self.used.add(fn.df)
        fr = Frame(fn)
        if fn.closure and len(args) == 2 and fn.argc != 2 and isinstance(args[1], Agg):
            args = [args[0]] + list(args[1].f)
        if fn.spread is not None and len(args) > fn.argc:
            args = list(args[:fn.spread - 1]) + [Agg(None, 0, tuple(args[fn.spread - 1:]))]
        if len(args) != fn.argc:
            raise Unsupported("arity of %s: %d args for %d" % (fn.name, len(args), fn.argc))
        for i, a in enumerate(args):
            fr.loc[i + 1] = Cell(a)
        self.stack.append(fr)
        try:
            return self.loop(fr)
        except Unsupported as e:
            if len(e.args) == 1:
                e.args = (e.args[0], " <- ".join(f.fn.df.rsplit("::", 2)[-1] for f in self.stack[::-1][:6]))
            raise
        finally:
            self.stack.pop()

    def loop(self, fr, bb=0, at_term=False, stop=None, within=None, head=False):
        """runs the frame from block bb (from its terminator when at_term). With stop/within: one iteration of a loop,
        until the terminator of block stop (with head: its start) is reached again ("cont",) or control leaves the blocks
        `within` ("exit", bb)"""
        fn = fr.fn
        blocks = fn.blocks
        mir = self.mir
        heads = loops.plain_heads(fn)
        head_first = True
        while True:
            fr.bb = bb
            stm, t = blocks[bb]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            if within is not None and bb not in within:
                return ("exit", bb)
            if head and bb == stop:
                if not head_first:
                    return ("cont",)
                head_first = False
            elif bb in heads:
                if ("h", bb) in fr.done:
                    loops.again(self, fr, ("h", bb))         # the summarised loop ends here
                loops.counter_loop(self, fr, bb)
            if fr.done:
                for h in [h for h, r in fr.done.items() if bb not in r]:
                    del fr.done[h]
            first = at_term
            if at_term:
                stm = ()
                at_term = False
            for s in stm:
                k = s[0]
                if k == "=":
                    self.write(fr, s[1], self.rvalue(fr, s[2], s[1]))
                elif k == "sd":
                    c, path = self.place(fr, s[1])
                    v = self.get(c.v, path) if c.v is not None else None
                    if isinstance(v, Agg):
                        c.v = self.put(c.v, path, Agg(v.tid, s[2], v.f))
                    else:
                        raise Unsupported("set discriminant")
                elif k == "assume":
                    pass
                else:
                    raise Unsupported("statement " + k)
            k = t[0]
            if k == "goto":
                bb = t[1]
            elif k == "switch":
                v = self.operand(fr, t[1])
                bb = self.switch(v, t)
            elif k == "ret":
                c = fr.loc[0]
                return c.v if c is not None and c.v is not None else UNIT
            elif k == "assert":
                v = self.operand(fr, t[1])
                if t[3] == "ub":
                    bb = t[4]
                elif self.p.branch(v if t[2] else not_(v)):
                    bb = t[4]
                else:
                    raise Panic("assert: " + t[3])
            elif k == "call":
                c = t[1]
                if bb == stop and not first and not head:
                    return ("cont",)
                args = [self.operand(fr, o) for o in t[2]]
                if len(args) == 1 and c[0] == "d" and not (first and bb == stop) and loops.NEXT.search(c[2]) and loops.region(fn, bb):
                    if bb in fr.done:
                        loops.again(self, fr, bb)         # the summarised loop ends here
                    # (a further `next` inside the iterations of a summarised loop is part of them)
                    rg = loops.region(fn, bb)
                    if rg != within and rg not in fr.done.values() and loops.symbolic(self, args[0]):
                        loops.apply(self, fr, bb)
                if c[0] == "d":
                    if c[1] == "noop":
                        r = UNIT
                    else:
                        f = mir.fns.get(c[1])
                        if f is None:
                            raise Unsupported("call of unknown %s" % c[2])
                        r = self.call_fn(f, args, c[2])
                elif c[0] == "p":
                    f = self.operand(fr, c[1])
                    r = self.call_ptr(f, args)
                else:
                    raise Unsupported("unresolved call %s" % c[1])
                if t[4] is None:
                    raise Unsupported("return from a diverging call")
                self.write(fr, t[3], r)
                bb = t[4]
            elif k == "unreachable":
                raise Infeasible()
            elif k in ("resume", "abort"):
                raise Panic(k)
            else:
                raise Unsupported("terminator " + k)

    def call_ptr(self, f, args):
        f = self.deep(f)
        if isinstance(f, FnV):
            fn = self.mir.fns.get(f.key)
            return self.call_fn(fn, args, fn.df)
        raise Unsupported("call of %s" % short(f))

    def switch(self, v, t):
        tgt, other = t[2], t[3]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            ty = self.mir.types[t[4]] if t[4] is not None else None
            for val, b in tgt:
                x = int(val)
                if ty is not None and ty.k == "int" and x >= 1 << (ty.d["w"] - 1):
                    x -= 1 << ty.d["w"]
                if x == v:
                    return b
            return other
        if not isinstance(v, T):
            raise Unsupported("switch on %s" % short(v))
        if v.sort == "B":
            m = {int(a): b for a, b in tgt}
            if self.p.branch(v):
                return m.get(1, other)
            return m.get(0, other)
        n = len(tgt)
        for i, (val, b) in enumerate(tgt):
            x = int(val)
            if i == n - 1 and v.lo is not None and v.hi is not None and v.hi - v.lo + 1 == n and all(v.lo <= int(q) <= v.hi for q, _ in tgt):
                self.p.assume(ieq(v, x))
                return b
            if self.p.branch(ieq(v, x)):
                return b
        return other
