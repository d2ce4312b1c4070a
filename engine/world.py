"""The host interface seen by a contract (storage, API, querier, JSON), symbolically or concretely."""
import re, json, base64
from term import *
import term as tm
from values import *
from interp import native
from natives import rx, out_ty, some, none, ok, mk_variant, std_err, ok_ty, err_ty, flat_int, iter_next, seqval, deep_ref, sort_of_s

NUMSTR = {"cosmwasm_std::Uint128", "cosmwasm_std::Uint64", "cosmwasm_std::Uint256", "cosmwasm_std::Uint512", "bignumber::Uint256"}
DECSTR = {"cosmwasm_std::Decimal", "cosmwasm_std::Decimal256", "bignumber::Decimal256"}
UNITENUM = {"cosmwasm_std::ReplyOn", "cosmwasm_std::VoteOption"}


def snake(n):
    o = ""
    for i, ch in enumerate(n):
        if ch.isupper() and i:
            o += "_"
        o += ch.lower()
    return o


def to_json(I, ty, v):
    """JSON tree: dict / list / None / ('s', S) / ('n', int) / ('b', bool)"""
    if ty is None:
        return v
    t = I.mir.types[ty]
    k = t.k
    if k in ("ref", "ptr"):
        if isinstance(v, Ref):
            v = I.load(v)
        return to_json(I, t.d["t"], v)
    if isinstance(v, Ref) and not (k == "adt" and t.d["name"] == "std::boxed::Box"):
        v = I.deep(v)
    if k in ("uint", "int"):
        return ("n", v) if not (k == "uint" and t.d["w"] == 128) else ("n", v)
    if k == "bool":
        return ("b", v)
    if k == "str":
        return ("s", I.sval(v))
    if k == "tuple":
        return [to_json(I, x, y) for x, y in zip(t.d["ts"], v.f)]
    if k in ("array", "slice"):
        e = v
        if isinstance(e, (bytes, T)):
            raise Unsupported("json of byte array")
        return [to_json(I, t.d["t"], x) for x in e.e]
    if k == "adt":
        n = t.d["name"]
        if n == "std::string::String":
            return ("s", I.sval(v))
        if n == "cosmwasm_std::Binary":
            return ("s", b64(I.sval(v)))
        if n in NUMSTR:
            return ("s", dec(flat_int(I, v)))
        if n in DECSTR:
            return ("s", dectext(flat_int(I, v), 18))
        if n == "std::boxed::Box":
            return to_json(I, t.d["args"][0], I.load(v))
        if n == "std::vec::Vec":
            if sort_of_s(v):
                if isinstance(v, bytes):
                    return [("n", b) for b in v]
                return ("raw", app("bytesjson", (v,), "S"))
            if isinstance(v, SeqV):
                if v.fn is not None:
                    ety = t.d["args"][0]
                    return Seq(v.len, lambda i: to_json(I, ety, v.elem(i)))
                return ("raw", app("seqjson:" + v.base, v.args + (v.len,), "S"))
            return [to_json(I, t.d["args"][0], x) for x in v.e]
        if n == "std::option::Option":
            if I.variant(v) == I.mir.variant_index(ty, "None"):
                return None
            return to_json(I, t.d["args"][0], I.vfield(v, 1, 0))
        if t.d["ak"] == "enum":
            i = I.variant(v)
            var = t.d["vs"][i]
            tag = snake(var["n"])
            if not var["f"]:
                return ("s", tag.encode()) if n in UNITENUM else {tag: {}}
            if var["f"][0][0] == "0":
                if len(var["f"]) == 1:
                    return {tag: to_json(I, var["f"][0][1], I.vfield(v, i, 0))}
                return {tag: [to_json(I, f[1], I.vfield(v, i, j)) for j, f in enumerate(var["f"])]}
            return {tag: {jkey(n, f[0]): to_json(I, f[1], I.vfield(v, i, j)) for j, f in enumerate(var["f"])}}
        fs = t.d["vs"][0]["f"]
        if len(fs) == 1 and fs[0][0] == "0":
            return to_json(I, fs[0][1], v.f[0] if isinstance(v, Agg) else v)
        return {jkey(n, f[0]): to_json(I, f[1], v.f[j]) for j, f in enumerate(fs)}
    raise Unsupported("json of %s" % I.mir.tyname(ty))


def jkey(tyname, f):
    if tyname == "cosmwasm_std::Event" and f == "ty":
        return "type"
    return f


SEQS = {}       # leaf standing for a list of symbolic length -> Seq


def flatten(tree):
    leaves = []

    def go(t):
        if t is None:
            return "null"
        if isinstance(t, tuple):
            leaves.append(t[1])
            return "$" + t[0]
        if isinstance(t, Seq):
            x = app("seq$%d" % len(SEQS), (t.len,), "S")
            SEQS[x] = t
            leaves.append(x)
            return "$q"
        if isinstance(t, list):
            return "[" + ",".join(go(x) for x in t) + "]"
        return "{" + ",".join('"%s":%s' % (k, go(t[k])) for k in sorted(t)) + "}"
    return go(tree), leaves


def tree_text(tree):
    """concrete JSON text"""
    def go(t):
        if t is None:
            return None
        if isinstance(t, tuple):
            if t[0] == "s":
                return t[1].decode("latin1")
            return t[1]
        if isinstance(t, list):
            return [go(x) for x in t]
        return {k: go(v) for k, v in t.items()}
    return json.dumps(go(tree), separators=(",", ":"), sort_keys=True).encode()


def serialize(I, ty, v):
    tree = to_json(I, ty, v)
    skel, leaves = flatten(tree)
    if all(is_c(x) for x in leaves):
        return tree_text(tree)
    return ser(skel, leaves)


# ---- reading typed values back
def unflatten(skel, leaves):
    leaves = list(leaves)
    pos = [0]

    def go():
        c = skel[pos[0]]
        if c == "n":
            pos[0] += 4
            return None
        if c == "$":
            j = pos[0] + 1
            while j < len(skel) and skel[j].isalpha():
                j += 1
            k = skel[pos[0] + 1:j]
            pos[0] = j
            x = leaves.pop(0)
            return SEQS[x] if k == "q" else (k, x)
        if c == "[":
            pos[0] += 1
            o = []
            while skel[pos[0]] != "]":
                o.append(go())
                if skel[pos[0]] == ",":
                    pos[0] += 1
            pos[0] += 1
            return o
        pos[0] += 1
        o = {}
        while skel[pos[0]] != "}":
            j = skel.index('"', pos[0] + 1)
            k = skel[pos[0] + 1:j]
            pos[0] = j + 2
            o[k] = go()
            if skel[pos[0]] == ",":
                pos[0] += 1
        pos[0] += 1
        return o
    return go()


def json_tree(x):
    if x is None:
        return None
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, int):
        return ("n", x)
    if isinstance(x, str):
        return ("s", x.encode("utf8"))
    if isinstance(x, list):
        return [json_tree(y) for y in x]
    return {k: json_tree(v) for k, v in x.items()}


class BadJson(Exception):
    pass


def from_tree(mir, ty, t):
    """typed machine value of a JSON tree"""
    T_ = mir.types[ty]
    k = T_.k

    def leaf(kind):
        if not isinstance(t, tuple) or t[0] != kind:
            raise BadJson()
        return t[1]
    if k in ("uint", "int"):
        return leaf("n")
    if k == "bool":
        return leaf("b")
    if k == "tuple":
        return Agg(ty, 0, tuple(from_tree(mir, x, y) for x, y in zip(T_.d["ts"], t)))
    if k == "array":
        if not isinstance(t, list) or len(t) != T_.d["n"]:
            raise BadJson()
        return VecV([from_tree(mir, T_.d["t"], x) for x in t])
    if k == "adt":
        n = T_.d["name"]
        if n == "std::string::String":
            return leaf("s")
        if n == "cosmwasm_std::Binary":
            s = leaf("s")
            if isinstance(s, T):
                if s.op == "b64":
                    return Agg(ty, 0, (s.a[0],))
                raise Unsupported("base64 of symbolic text")
            return Agg(ty, 0, (base64.b64decode(s),))
        if n in NUMSTR:
            s = leaf("s")
            if isinstance(s, T):
                if s.op != "dec":
                    raise Unsupported("number text")
                return mk_int(mir, ty, s.a[0])
            if not s.isdigit():
                raise BadJson()
            return mk_int(mir, ty, int(s))
        if n in DECSTR:
            s = leaf("s")
            if isinstance(s, T):
                if s.op != "dectext":
                    raise Unsupported("decimal text")
                return mk_int(mir, ty, s.a[0])
            m = re.match(rb"^(\d+)(?:\.(\d{1,18}))?$", s)
            if not m:
                raise BadJson()
            return mk_int(mir, ty, int(m.group(1)) * 10 ** 18 + int((m.group(2) or b"").ljust(18, b"0") or 0))
        if n == "std::boxed::Box":
            return Ref(Cell(from_tree(mir, T_.d["args"][0], t)))
        if n == "std::vec::Vec":
            if not isinstance(t, list):
                raise BadJson()
            if is_bytes_vec(mir, ty):
                return bytes(x[1] for x in t)
            return VecV([from_tree(mir, T_.d["args"][0], x) for x in t])
        if n == "std::option::Option":
            if t is None:
                return Agg(ty, 0, ())
            return Agg(ty, 1, (from_tree(mir, T_.d["args"][0], t),))
        if T_.d["ak"] == "enum":
            if isinstance(t, tuple):
                tag, body = t[1].decode(), None
            elif isinstance(t, dict) and len(t) == 1:
                (tag, body), = t.items()
            else:
                raise BadJson()
            for i, var in enumerate(T_.d["vs"]):
                if snake(var["n"]) == tag:
                    if not var["f"]:
                        return Agg(ty, i, ())
                    if var["f"][0][0] == "0":
                        if len(var["f"]) == 1:
                            return Agg(ty, i, (from_tree(mir, var["f"][0][1], body),))
                        return Agg(ty, i, tuple(from_tree(mir, f[1], b) for f, b in zip(var["f"], body)))
                    return Agg(ty, i, fields(mir, n, var["f"], body))
            raise BadJson()
        fs = T_.d["vs"][0]["f"]
        if len(fs) == 1 and fs[0][0] == "0":
            return Agg(ty, 0, (from_tree(mir, fs[0][1], t),))
        return Agg(ty, 0, fields(mir, n, fs, t))
    raise Unsupported("value of %s from JSON" % mir.tyname(ty))


def fields(mir, n, fs, body):
    if not isinstance(body, dict):
        raise BadJson()
    o = []
    for f in fs:
        k = jkey(n, f[0])
        if k in body:
            o.append(from_tree(mir, f[1], body[k]))
        elif mir.is_option(f[1]):
            o.append(Agg(f[1], 0, ()))
        elif mir.types[f[1]].k == "adt" and mir.types[f[1]].d["name"] == "std::vec::Vec" and n.startswith("cosmwasm_std"):
            o.append(VecV(()))
        else:
            raise BadJson()
    return tuple(o)


def mk_int(mir, ty, x):
    """wrap an integer into (nested) newtypes"""
    t = mir.types[ty]
    if t.k in ("uint", "int") or mir.is_u256(ty):
        return x
    return Agg(ty, 0, (mk_int(mir, t.d["vs"][0]["f"][0][1], x),))


def mk_str(mir, ty, s):
    """wrap text into (nested) newtypes"""
    t = mir.types[ty]
    if t.k == "adt" and (t.d["name"] in STRINGY or t.d["name"] == "std::vec::Vec"):
        return s
    return Agg(ty, 0, (mk_str(mir, t.d["vs"][0]["f"][0][1], s),))


def parse(I, ty, s):
    """typed value of JSON text, or None when it does not parse"""
    if isinstance(s, bytes):
        try:
            return from_tree(I.mir, ty, json_tree(json.loads(s)))
        except (BadJson, ValueError):
            return None
    if s.op == "ser":
        try:
            return from_tree(I.mir, ty, unflatten(s.a[0], s.a[1:]))
        except BadJson:
            return None
    n = I.mir.tyname(ty)
    if not I.p.branch(app("parses:" + n, (s,), "B")):
        return None
    return fresh(I.mir, ty, "p:" + n, (s,))


# ---------------------------------------------------------------- the store
class Store:
    """storage of the contract. Initial content is symbolic (or a concrete table); writes are logged."""

    def __init__(self, conc=None, api=None):
        self.items = {}      # ns -> (ty, value | None)
        self.maps = {}       # ns -> [(key, value | None)]
        self.raw = []
        self.log = []        # (kind, ns, key, ty, value)
        self.conc = conc     # concrete table {bytes: bytes} or None
        self.ext = False     # has an external function changed the storage?

    def conc_keys(self, ns):
        """keys of a map in a concrete table, ascending"""
        pre = len(ns).to_bytes(2, "big") + ns
        return sorted(k[len(pre):] for k in self.conc if k.startswith(pre))

    def copy(self):
        s = Store(self.conc)
        s.items = dict(self.items)
        s.maps = {k: list(v) for k, v in self.maps.items()}
        s.raw = list(self.raw)
        s.log = list(self.log)
        s.ext = self.ext
        return s

    def known(self, ns):
        if self.ext and ns != b"contract_info":
            raise Unsupported("read of storage after a change by an external function")

    # items
    def item0(self, I, ns, ty):
        """initial value or None"""
        self.known(ns)
        if self.conc is not None:
            b = self.conc.get(ns)
            return None if b is None else parse(I, ty, b)
        if not I.p.branch(app("has:" + ns.decode(), (), "B")):
            return None
        return fresh(I.mir, ty, "st:" + ns.decode(), ())

    def item_get(self, I, ns, ty):
        if ns in self.items:
            return self.items[ns][1]
        return self.item0(I, ns, ty)

    def item_set(self, I, ns, ty, v):
        self.items[ns] = (ty, v)
        self.log.append(("item", ns, None, ty, v))

    # maps
    def map0(self, I, ns, key, ty):
        self.known(ns)
        if self.conc is not None:
            b = self.conc.get(mapkey(ns, key))
            return None if b is None else parse(I, ty, b)
        if not I.p.branch(app("has:" + ns.decode(), (key,), "B")):
            return None
        return fresh(I.mir, ty, "st:" + ns.decode(), (key,))

    def map_get(self, I, ns, key, ty):
        for k, v in reversed(self.maps.get(ns, [])):
            if callable(v):          # writes of a loop: the last one to this key
                from seqs import search
                i = search(I, k, lambda i: or_(*[seq(e[2], key) for e in v(sub(sub(k, 1), i))]))
                if i is not None:
                    for e in reversed(v(sub(sub(k, 1), i))):
                        if I.p.branch(seq(e[2], key)):
                            return e[4]
                    raise Infeasible()
            elif I.p.branch(seq(k, key)):
                return v
        return self.map0(I, ns, key, ty)

    def map_set(self, I, ns, key, ty, v):
        self.maps.setdefault(ns, []).append((key, v))
        self.log.append(("map", ns, key, ty, v))

    def map_each(self, ns, n, f):
        """writes of a loop: n times, the writes f(i) to this map"""
        self.maps.setdefault(ns, []).append((n, f))
        self.log.append(("each", ns, n, None, f))


def mapkey(ns, key):
    return len(ns).to_bytes(2, "big") + ns + key


def store_of(I, ref):
    d = I.deep(ref)
    if not isinstance(d, Dyn):
        raise Unsupported("storage %s" % short(d))
    return I.store


def item_ns(I, x):
    v = I.deep(x)
    return I.sval(v.f[0])


def tkey(I, ty, v):
    """key text of a map key value"""
    t = I.mir.types[ty]
    if t.k == "tuple":
        parts = [tkey(I, x, y) for x, y in zip(t.d["ts"], I.deep(v).f)]
        if all(isinstance(p, bytes) for p in parts):
            return b"".join(len(p).to_bytes(2, "big") + p for p in parts[:-1]) + parts[-1]
        return app("tuplekey", tuple(parts), "S")
    x = I.deep(v)
    i = flat_int(I, x)
    if i is not None:
        if is_c(i):
            return i.to_bytes(t.d["w"] // 8, "big") if t.k == "uint" else str(i).encode()
        return app("intkey", (i,), "S")
    return I.sval(x)


@rx(r"^cw_storage_plus::(item::)?Item::<T>::(load|may_load|save|remove|exists)$")
def n_item(I, fn, a, c):
    op = fn.df.rsplit("::", 1)[1]
    ns = item_ns(I, a[0])
    st = store_of(I, a[1])
    ty = fn.args[-1]
    o = out_ty(I, fn)
    if op == "save":
        st.item_set(I, ns, ty, I.deep(a[2]))
        return ok(I, o, UNIT)
    if op == "remove":
        st.item_set(I, ns, ty, None)
        return UNIT
    v = st.item_get(I, ns, ty)
    if op == "exists":
        return v is not None
    if op == "load":
        return std_err(I, o, "notfound") if v is None else ok(I, o, v)
    inner = ok_ty(I, o)
    return ok(I, o, none(I, inner) if v is None else some(I, inner, v))


@rx(r"^cw_storage_plus::(map::)?Map::<K, T>::(load|may_load|save|remove|has)$")
def n_map(I, fn, a, c):
    op = fn.df.rsplit("::", 1)[1]
    ns = item_ns(I, a[0])
    st = store_of(I, a[1])
    kty, ty = fn.args[-2], fn.args[-1]
    key = tkey(I, kty, a[2])
    o = out_ty(I, fn)
    if op == "save":
        st.map_set(I, ns, key, ty, I.deep(a[3]))
        return ok(I, o, UNIT)
    if op == "remove":
        st.map_set(I, ns, key, ty, None)
        return UNIT
    v = st.map_get(I, ns, key, ty)
    if op == "has":
        return v is not None
    if op == "load":
        return std_err(I, o, "notfound") if v is None else ok(I, o, v)
    inner = ok_ty(I, o)
    return ok(I, o, none(I, inner) if v is None else some(I, inner, v))


class MapRange:
    """range over a map: an abstract ascending / descending enumeration of the entries between two bounds"""

    def __init__(self, ns, ty, lo_, hi_, order, pos=0):
        self.ns, self.ty, self.lo, self.hi, self.order, self.pos = ns, ty, lo_, hi_, order, pos

    def tag(self):
        return "%s:%s:%s:%s" % (self.ns.decode(), self.order, self.lo[0], self.hi[0])

    def args(self):
        return tuple(x[1] for x in (self.lo, self.hi) if x[0] != "none")

    def length(self):
        return app("rlen:" + self.tag(), self.args(), "I", 0, 2 ** 32)

    def key(self, i):
        return app("rkey:" + self.tag(), self.args() + (i,), "S")


def bound_of(I, v):
    """Option<Bound<..>> -> ('none',) | ('excl', key) | ('incl', key), raw keys"""
    v = I.deep(v)
    if I.variant(v) == 0:
        return ("none", None)
    b = I.deep(I.vfield(v, 1, 0))
    t = I.mir.types[b.tid]
    n = t.d["vs"][I.variant(b)]["n"]
    x = b.f[0]
    k = I.deep(x.f[0]) if isinstance(x, Agg) and x.tid is not None and I.mir.types[x.tid].k == "tuple" else x
    k = I.sval(k)
    kind = "excl" if n.startswith("Exclusive") else "incl"
    # x ++ 0 is the least key greater than x
    if kind == "incl" and isinstance(k, T) and k.op == "cat" and isinstance(k.a[-1], bytes) and k.a[-1][-1:] == b"\0":
        return ("excl", cat(*(k.a[:-1] + (k.a[-1][:-1],))))
    if kind == "incl" and isinstance(k, bytes) and k[-1:] == b"\0":
        return ("excl", k[:-1])
    return (kind, k)


@rx(r"^cw_storage_plus::(map::)?Map::<K, T>::(range|keys)$|^cw_storage_plus::(map::)?Map::<K, T>::range_raw$")
def n_maprange(I, fn, a, c):
    if fn.df.endswith("keys"):
        raise Unsupported("keys")
    ns = item_ns(I, a[0])
    st = store_of(I, a[1])
    kty, ty = fn.args[-2], fn.args[-1]
    lo_, hi_ = bound_of(I, a[2]), bound_of(I, a[3])
    od = I.deep(a[4])
    order = "asc" if I.mir.types[od.tid].d["vs"][I.variant(od)]["n"] == "Ascending" else "desc"
    if st.maps.get(ns):
        raise Unsupported("range over a modified map")
    r = MapRange(ns, ty, lo_, hi_, order)
    if st.conc is not None:
        pre = len(ns).to_bytes(2, "big") + ns
        ks = sorted(k[len(pre):] for k in st.conc if k.startswith(pre))
        if lo_[0] != "none":
            ks = [k for k in ks if k > lo_[1] or (k == lo_[1] and lo_[0] == "incl")]
        if hi_[0] != "none":
            ks = [k for k in ks if k < hi_[1] or (k == hi_[1] and hi_[0] == "incl")]
        if order == "desc":
            ks.reverse()
        e = VecV([(k, parse(I, ty, st.conc[pre + k])) for k in ks])
        return Ref(Cell(IterV("range", e, 0, len(ks), r)))
    return Ref(Cell(IterV("range", r, 0, r.length(), r)))


@native("std::iter::Iterator::next")
def n_dyn_next(I, fn, a, c):
    """dyn Iterator: only map ranges are boxed in this code base"""
    return range_next(I, fn, a[0])


def range_next(I, fn, ref):
    r = deep_ref(I, ref)
    it = I.load(r)
    if isinstance(it, Dyn) and it.kind == "obj":
        r = deep_ref(I, it.val[0])
        it = I.load(r)
    if not isinstance(it, IterV) or it.by != "range":
        raise Unsupported("dyn iterator %s" % short(it))
    ty = out_ty(I, fn)
    if not I.p.branch(lt(it.lo, it.hi)):
        return none(I, ty)
    I.iter_step(r, it)
    x = range_item(I, ty, it, it.lo)
    I.store_ref(r, IterV(it.by, it.src, add(it.lo, 1), it.hi, it.extra))
    return some(I, ty, x)


def range_item(I, oty, it, i):
    """the item Ok((key, value)) at position i; oty = Option<StdResult<(K, T)>>"""
    rty = I.mir.types[oty].d["vs"][1]["f"][0][1]
    tty = ok_ty(I, rty)
    if isinstance(it.src, VecV):
        k, v = it.src.e[i]
    else:
        k = it.src.key(i)
        v = fresh(I.mir, it.src.ty, "st:" + it.src.ns.decode(), (k,))
    return ok(I, rty, Agg(tty, 0, (k, v)))


@rx(r"^<std::boxed::Box<I, A> as std::iter::Iterator>::next$")
def n_box_next(I, fn, a, c):
    return range_next(I, fn, a[0])


# raw storage access
@native("cosmwasm_std::Storage::get")
def n_sget(I, fn, a, c):
    st = store_of(I, a[0])
    k = I.sval(a[1])
    o = out_ty(I, fn)
    for kk, v in reversed(st.raw):
        if I.p.branch(seq(kk, k)):
            return none(I, o) if v is None else some(I, o, v)
    if st.conc is not None:
        b = st.conc.get(k)
        return none(I, o) if b is None else some(I, o, b)
    if I.p.branch(app("has:raw", (k,), "B")):
        return some(I, o, app("st:raw", (k,), "S"))
    return none(I, o)


@native("cosmwasm_std::Storage::set", "cosmwasm_std::Storage::remove")
def n_sset(I, fn, a, c):
    st = store_of(I, a[0])
    k = I.sval(a[1])
    v = I.sval(a[2]) if len(a) > 2 else None
    st.raw.append((k, v))
    st.log.append(("raw", k, None, None, v))
    return UNIT


# ---------------------------------------------------------------- API
def canon_ok(s):
    return app("canon_ok", (s,), "B")


def canon(s):
    return app("canon", (s,), "S")


def hum_ok(c):
    return app("hum_ok", (c,), "B")


def hum(c):
    return app("hum", (c,), "S")


class ApiModel:
    """symbolic API"""
    conc = None

    def validate(self, I, s):
        """-> text or None"""
        r = I.p.branch(valid_addr(s))
        if not r:
            return None
        # a validated address is its own normal form
        I.p.assume(canon_ok(s))
        I.p.assume(hum_ok(canon(s)))
        I.p.assume(seq(hum(canon(s)), s))
        return s

    def canonicalize(self, I, s):
        if s.__class__ is T and s.op == "app" and s.a[0] == "hum":
            # canonicalising a humanised address gives the original
            if I.p.lookup(hum_ok(s.a[1])) is True:
                return s.a[1]
        if not I.p.branch(canon_ok(s)):
            return None
        return canon(s)

    def humanize(self, I, c):
        if not I.p.branch(hum_ok(c)):
            return None
        h = hum(c)
        I.p.assume(canon_ok(h))
        I.p.assume(seq(canon(h), c))
        I.p.assume(valid_addr(h))
        return h


def valid_addr(s):
    return app("valid_addr", (s,), "B")


@native("cosmwasm_std::Api::addr_validate", "cosmwasm_std::Api::addr_canonicalize", "cosmwasm_std::Api::addr_humanize")
def n_api(I, fn, a, c):
    op = fn.df.rsplit("_", 1)[1]
    o = out_ty(I, fn)
    s = I.sval(a[1])
    r = {"validate": I.api.validate, "canonicalize": I.api.canonicalize, "humanize": I.api.humanize}[op](I, s)
    if r is None:
        return std_err(I, o, "generic")
    return ok(I, o, mk_str(I.mir, ok_ty(I, o), r))


# ---------------------------------------------------------------- querier
class QuerierModel:
    def query(self, I, req, ty):
        """-> typed value or None"""
        if not I.p.branch(app("q#ok", (req,), "B")):
            return None
        return fresh(I.mir, ty, "q", (req,))


@rx(r"^cosmwasm_std::QuerierWrapper::<C>::query$")
def n_query(I, fn, a, c):
    o = out_ty(I, fn)
    rty = I.mir.types[fn.sig["in"][1]].d["t"] if fn.sig else I.mir.types[fn.locals[2]].d["t"]
    req = serialize(I, rty, I.deep(a[1]))
    I.queries.append(req)
    v = I.querier.query(I, req, fn.args[-1])
    if v is None:
        return std_err(I, o, "generic")
    return ok(I, o, v)


# ---------------------------------------------------------------- JSON
@rx(r"^cosmwasm_std::(to_binary|to_vec|to_json_binary|to_json_vec)$")
def n_to_binary(I, fn, a, c):
    o = out_ty(I, fn)
    ty = fn.args[0]
    s = serialize(I, ty, I.deep(a[0]))
    return ok(I, o, mk_str(I.mir, ok_ty(I, o), s))


@rx(r"^cosmwasm_std::(from_binary|from_slice|from_json)$")
def n_from_binary(I, fn, a, c):
    o = out_ty(I, fn)
    v = parse(I, ok_ty(I, o), I.sval(a[0]))
    if v is None:
        return std_err(I, o, "generic")
    return ok(I, o, v)


@native("cw_utils::parse_reply_instantiate_data", "cw_utils::parse_reply::parse_reply_instantiate_data")
def n_parse_reply(I, fn, a, c):
    """reply data of an instantiation -> (contract address, data); the protobuf decoding is unspecified but functional"""
    o = out_ty(I, fn)
    msg = I.deep(a[0])
    # Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events, data }) | Err }
    res = msg.f[I.mir.field_index(msg.tid, "result")]
    if I.variant(res) == I.mir.variant_index(res.tid, "Err"):
        return mk_variant(I, o, "Err", Opaque("ParseReplyError"))
    resp = I.vfield(res, I.mir.variant_index(res.tid, "Ok"), 0)
    data = resp.f[I.mir.field_index(resp.tid, "data")]
    if I.variant(data) == 0:
        return mk_variant(I, o, "Err", Opaque("ParseReplyError"))
    b = I.sval(I.vfield(data, 1, 0))
    r = I.reply_parse(I, b)
    if r is None:
        return mk_variant(I, o, "Err", Opaque("ParseReplyError"))
    rt = ok_ty(I, o)
    fs = I.mir.types[rt].d["vs"][0]["f"]
    vals = []
    for n, fty in fs:
        if n == "contract_address":
            vals.append(r)
        else:
            vals.append(fresh(I.mir, fty, "reply." + n, (b,)))
    return ok(I, rt and o, Agg(rt, 0, tuple(vals)))


def sym_reply_parse(I, b):
    if not I.p.branch(app("reply_ok", (b,), "B")):
        return None
    return app("reply_addr", (b,), "S")


# ---------------------------------------------------------------- functions of the standard token implementation
EXT = r"^cw20_base::(contract::(execute_\w+|query_\w+)|allowances::(execute_\w+|query_\w+)|enumerable::query_\w+)$"


@rx(EXT)
def n_ext(I, fn, a, c):
    """assumed contract of a dependency: the result and the storage effect are functions of the arguments and of the
    storage; the version record is not touched"""
    ins = fn.locals[1:fn.argc + 1] if fn.blocks is not None else fn.sig["in"]
    keep = [x for x, ty in zip(a, ins) if not re.search(r"Deps(Mut)?\b", I.mir.tyname(ty))]
    return ext_call(I, fn.df, out_ty(I, fn), keep)


def ext_call(I, df, oty, args):
    from verify import same, same_logs
    p = I.p
    if I.store.conc is not None:
        raise Unsupported("external function " + df)
    log = [e for e in I.store.log if e[1] != b"contract_info"]
    reg = p.__dict__.setdefault("exts", [])
    hit = None
    for d, o, ar, lg, rid, r in reg:
        if d == df and o == oty and len(ar) == len(args) and p.branch(and_(*[same(I, x, y) for x, y in zip(ar, args)])) and \
                p.branch(same_logs(I, lg, log)):
            hit = (rid, r)
            break
    if hit is None:
        rid = "%s#%d" % (df.rsplit("::", 1)[1], len(reg))
        if p.branch(app("extok:" + rid, (), "B")):
            r = ok(I, oty, fresh(I.mir, ok_ty(I, oty), "ext:" + rid, ()))
        else:
            r = std_err(I, oty, "ext")
        hit = (rid, r)
        reg.append((df, oty, args, log, rid, r))
    if "query" not in df:
        I.store.log.append(("ext", hit[0].encode(), None, None, None))
        I.store.ext = True
    return hit[1]
