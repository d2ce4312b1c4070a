"""Values of the symbolic machine. Values are immutable trees; only Cells are mutable."""
from term import *
import term as tm


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Pruned(Exception):
    """this path is covered by a loop summary"""


class Bound(Exception):
    """a loop or recursion bound was hit: the path is dropped and the run is labelled bounded"""


class Cell:
    __slots__ = ("v", "n")
    count = 0

    def __init__(self, v=None):
        self.v = v
        Cell.count += 1
        self.n = Cell.count     # creation order


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return "&%s%s" % (short(self.cell.v), list(self.path) or "")


class Agg:
    __slots__ = ("tid", "v", "f")

    def __init__(self, tid, v, f):
        self.tid = tid
        self.v = v
        self.f = f

    def __repr__(self):
        return "%s@%s{%s}" % (self.tid, self.v, ", ".join(short(x) for x in self.f))


class SymEnum:
    """an enum whose variant is symbolic; fields exist per variant"""
    __slots__ = ("tid", "discr", "base", "args", "mir", "_c")

    def __init__(self, mir, tid, discr, base, args):
        self.mir = mir
        self.tid = tid
        self.discr = discr
        self.base = base
        self.args = args
        self._c = {}

    def field(self, v, i):
        k = (v, i)
        if k not in self._c:
            var = self.mir.types[self.tid].d["vs"][v]
            n, ty = var["f"][i]
            nm = self.base + "." + var["n"] + "." + n
            if self.mir.is_option(self.tid):
                nm = self.base      # Option<T>: the field keeps the name (JSON path) of the option itself
            self._c[k] = fresh(self.mir, ty, nm, self.args)
        return self._c[k]

    def __repr__(self):
        return "Sym(%s)" % self.base


class VecV:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return "[%s]" % ", ".join(short(x) for x in self.e)


class SeqV:
    """sequence of symbolic length; element i is produced on demand"""
    __slots__ = ("mir", "ety", "len", "base", "args", "fn", "up", "root", "off", "of")

    def __init__(self, mir, ety, length, base, args, fn=None, up=None, root=None, off=0):
        self.of = None        # what this is the sorted form of
        self.up = up          # (sequence, element) when this is the sequence with the element added
        self.root = self if root is None else root      # the sequence this is a part of, and where the part starts
        self.off = off
        self.mir = mir
        self.ety = ety
        self.len = length
        self.base = base
        self.args = args
        self.fn = fn

    def elem(self, i):
        if self.fn:
            return self.fn(i)
        return fresh(self.mir, self.ety, self.base + "[]", self.args + (i,))

    def view(self, off, length):
        """the part [off .. off + length)"""
        r, o = self.root, add(self.off, off)
        return SeqV(self.mir, self.ety, length, self.base, self.args, lambda i: r.elem(add(o, i)), None, r, o)

    def __repr__(self):
        return "Seq(%s)" % self.base


class Seq:
    """a JSON list of symbolic length; item i is fn(i)"""

    def __init__(self, ln, fn):
        self.len = ln
        self.fn = fn


class FnV:
    __slots__ = ("key", "tid")

    def __init__(self, key, tid=None):
        self.key = key
        self.tid = tid

    def __repr__(self):
        return "fn:%s" % (self.key,)


class Dyn:
    __slots__ = ("kind", "val")

    def __init__(self, kind, val=None):
        self.kind = kind
        self.val = val

    def __repr__(self):
        return "dyn:" + self.kind


class IterV:
    """iterator over a sequence value. by: 'ref' (yields Ref into cell/path), 'val' (yields elements)"""
    __slots__ = ("by", "src", "lo", "hi", "extra")

    def __init__(self, by, src, lo, hi, extra=None):
        self.by = by
        self.src = src
        self.lo = lo
        self.hi = hi
        self.extra = extra

    def __repr__(self):
        return "iter<%s,%s..%s>" % (self.by, self.lo, self.hi)


class Opaque:
    __slots__ = ("what", "data")

    def __init__(self, what, data=None):
        self.what = what
        self.data = data

    def __repr__(self):
        return "opaque<%s>" % self.what


UNIT = Agg(None, 0, ())
UNINIT = Opaque("uninit")


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


# ---------------------------------------------------------------- types
STRINGY = {"std::string::String"}


def bv_range(w):
    return 0, 2 ** w - 1


def is_u8(mir, ty):
    t = mir.types[ty]
    return t.k == "uint" and t.d["w"] == 8


def is_bytes_vec(mir, ty):
    t = mir.types[ty]
    return t.k == "adt" and t.d["name"] == "std::vec::Vec" and is_u8(mir, t.d["args"][0])


def fresh(mir, ty, base, args=()):
    """the symbolic value of a type; leaves are applications base.path(args)"""
    t = mir.types[ty]
    k = t.k
    if k == "uint":
        return app(base, args, "I", 0, 2 ** t.d["w"] - 1)
    if k == "int":
        return app(base, args, "I", -2 ** (t.d["w"] - 1), 2 ** (t.d["w"] - 1) - 1)
    if k == "bool":
        return app(base, args, "B")
    if k == "char":
        return app(base, args, "I", 0, 0x10ffff)
    if k == "str":
        return app(base, args, "S")
    if k == "tuple":
        return Agg(ty, 0, tuple(fresh(mir, x, "%s.%d" % (base, i), args) for i, x in enumerate(t.d["ts"])))
    if k == "array":
        if t.d["n"] > 64:
            raise Unsupported("array")
        return VecV([fresh(mir, t.d["t"], "%s.%d" % (base, i), args) for i in range(t.d["n"])])
    if k in ("ref", "ptr"):
        it = mir.types[t.d["t"]]
        if it.k == "str" or (it.k == "slice" and is_u8(mir, it.d["t"])):
            return app(base, args, "S")
        if it.k == "dyn":
            return Dyn(it.d["d"])
        return Ref(Cell(fresh(mir, t.d["t"], base, args)))
    if k == "slice":
        return SeqV(mir, t.d["t"], app(base + "#len", args, "I", 0, 2 ** 32), base, args)
    if k == "adt":
        n = t.d["name"]
        if n in STRINGY or is_bytes_vec(mir, ty):
            return app(base, args, "S")
        if n == "std::vec::Vec":
            return SeqV(mir, t.d["args"][0], app(base + "#len", args, "I", 0, 2 ** 32), base, args)
        if n == "std::boxed::Box":
            return Ref(Cell(fresh(mir, t.d["args"][0], base, args)))
        if n.endswith("bigint::U256") or n == "bigint::U256":
            return app(base, args, "I", 0, 2 ** 256 - 1)
        if t.d["ak"] == "enum":
            vs = t.d["vs"]
            if len(vs) == 1:
                return Agg(ty, 0, tuple(fresh(mir, fty, base + "." + vs[0]["n"] + "." + fn, args) for fn, fty in vs[0]["f"]))
            return SymEnum(mir, ty, app(base + "#v", args, "I", 0, len(vs) - 1), base, args)
        if t.d["ak"] == "struct":
            fs = t.d["vs"][0]["f"]
            if len(fs) == 1 and fs[0][0] == "0" or n in mir.transparent:
                return Agg(ty, 0, tuple(fresh(mir, fty, base, args) for fn, fty in fs))
            return Agg(ty, 0, tuple(fresh(mir, fty, base + "." + fn, args) for fn, fty in fs))
    raise Unsupported("fresh value of type %s" % mir.tyname(ty))
