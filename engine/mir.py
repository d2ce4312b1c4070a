"""Loading of the MIR dump, and a pretty printer for debugging."""
import json, re


class Ty:
    __slots__ = ("id", "k", "d")

    def __init__(self, id, d):
        self.id = id
        self.k = d["k"]
        self.d = d


class Fn:
    __slots__ = ("key", "name", "df", "args", "kind", "iname", "closure", "sig", "file", "line", "locals", "argc",
                 "spread", "blocks", "skipped", "loops", "plainheads", "_lh", "nat", "callees")

    def __init__(self, d):
        self.key = d["key"]
        self.name = d["name"]
        self.df = d["def"]
        self.args = d["args"]
        self.kind = d["kind"]
        self.iname = d["iname"]
        self.closure = d["closure"]
        self.sig = d["sig"]
        self.skipped = d["skipped"]
        self.file = d.get("file")
        self.line = d.get("line")
        b = d["body"]
        self._lh = None
        self.nat = None
        if b:
            self.locals = b["locals"]
            self.argc = b["argc"]
            self.spread = b["spread"]
            self.blocks = b["blocks"]
        else:
            self.blocks = None


class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = [Ty(i, t) for i, t in enumerate(d["types"])]
        self.consts = d["consts"]
        self.fns = {}
        self.by_def = {}
        for f in d["fns"]:
            fn = Fn(f)
            self.fns[fn.key] = fn
            self.by_def.setdefault(fn.df, []).append(fn)
        self.roots = d["roots"]
        self._adtname = {}
        for t in self.types:
            if t.k == "adt":
                self._adtname.setdefault(t.d["name"], []).append(t.id)

    transparent = set()

    def is_option(self, tid):
        return self.types[tid].d.get("name") == "std::option::Option"

    def is_u256(self, tid):
        return self.types[tid].d.get("name") in ("bigint::U256", "cosmwasm_std::math::uint256::uints::U256")

    def native_of(self, fn):
        h = fn.nat
        if h is None:
            import interp
            h = interp.NATIVE.get(fn.df)
            if h is None:
                n = interp.norm_df(fn.df)
                h = interp.NATIVE.get(n)
                if h is None and fn.kind == "intrinsic":
                    h = interp.NATIVE.get("intrinsic:" + fn.iname)
                if h is None:
                    for rx, g in interp.NATIVE_RX:
                        if rx.search(n):
                            h = g
                            break
            fn.nat = h or False
        return fn.nat or None

    def variant_index(self, tid, name):
        for i, v in enumerate(self.types[tid].d["vs"]):
            if v["n"] == name:
                return i
        raise KeyError(name)

    def field_index(self, tid, name, v=0):
        for i, f in enumerate(self.types[tid].d["vs"][v]["f"]):
            if f[0] == name:
                return i
        raise KeyError(name)

    def ty(self, i):
        return self.types[i]

    def adts(self, name):
        l = self._adtname.get(name, [])
        if l:
            return l
        # a type is named by the shortest visible path, which depends on the imports: same crate, same last segment
        a, b = name.split("::")[0], name.split("::")[-1]
        return [x for n, v in self._adtname.items() if "::" in n and n.split("::")[0] == a and n.split("::")[-1] == b for x in v]

    def find(self, df):
        """the unique instance with this definition path (or None)"""
        l = self.by_def.get(df, [])
        return l[0] if len(l) == 1 else None

    def tyname(self, i, depth=0):
        t = self.types[i]
        k = t.k
        if k in ("uint", "int"):
            return ("u" if k == "uint" else "i") + str(t.d["w"])
        if k == "adt":
            n = t.d["name"].split("::")[-1]
            a = [self.tyname(x, depth + 1) if isinstance(x, int) else str(x) for x in t.d["args"]] if depth < 4 else []
            return n + ("<" + ",".join(a) + ">" if a else "")
        if k in ("ref", "ptr"):
            return ("&" if k == "ref" else "*") + ("mut " if t.d["m"] else "") + self.tyname(t.d["t"], depth + 1)
        if k == "slice":
            return "[" + self.tyname(t.d["t"], depth + 1) + "]"
        if k == "array":
            return "[%s;%s]" % (self.tyname(t.d["t"], depth + 1), t.d["n"])
        if k == "tuple":
            return "(" + ",".join(self.tyname(x, depth + 1) for x in t.d["ts"]) + ")"
        if k == "fndef":
            return "fn:" + t.d["name"]
        if k == "closure":
            return "closure:" + t.d["name"]
        if k == "dyn":
            return "dyn " + t.d["d"]
        return k

    def pp(self, fn):
        o = ["fn %s  [%s] kind=%s closure=%s spread=%s  %s:%s" % (fn.name, fn.df, fn.kind, fn.closure, fn.spread if fn.blocks else "-", fn.file, fn.line)]
        if not fn.blocks:
            return o[0] + "  (no body)"
        for i, l in enumerate(fn.locals):
            o.append("   _%d: %s%s" % (i, self.tyname(l), " (arg)" if 1 <= i <= fn.argc else ""))

        def pl(p):
            s = "_%d" % p[0]
            for e in p[1]:
                if e == "*":
                    s = "(*%s)" % s
                elif e[0] == "f":
                    s += ".%d" % e[1]
                elif e[0] == "d":
                    s += "@%d" % e[1]
                else:
                    s += str(e)
            return s

        def op(x):
            if x[0] in "cm":
                return ("" if x[0] == "c" else "move ") + pl(x[1])
            if x[0] == "k":
                c = self.consts[x[1]]
                return "const %s:%s" % (json.dumps(c[1])[:120], self.tyname(c[0]))
            return str(x)

        def rv(r):
            k = r[0]
            if k == "use":
                return op(r[1])
            if k == "ref":
                return "&" + ("mut " if r[2] else "") + pl(r[1])
            if k in ("bin", "cbin"):
                return "%s%s(%s, %s)" % ("Checked" if k == "cbin" else "", r[1], op(r[2]), op(r[3]))
            if k == "un":
                return "%s(%s)" % (r[1], op(r[2]))
            if k in ("discr", "len"):
                return "%s(%s)" % (k, pl(r[1]))
            if k == "cast":
                return "%s as %s (%s)" % (op(r[2]), self.tyname(r[3]), r[1])
            if k == "agg":
                return "%s {%s}" % (r[1] if r[1][0] != "adt" else "%s@%s" % (self.tyname(r[1][1]), r[1][2]), ", ".join(op(x) for x in r[2]))
            return str(r)

        for i, (st, t) in enumerate(fn.blocks):
            o.append(" bb%d:" % i)
            for s in st:
                if s[0] == "=":
                    o.append("    %s = %s" % (pl(s[1]), rv(s[2])))
                else:
                    o.append("    %s" % s)
            if t[0] == "call":
                c = t[1]
                nm = self.fns[c[1]].name if c[0] == "d" and c[1] in self.fns else str(c)
                o.append("    %s = CALL %s(%s) -> bb%s" % (pl(t[3]), nm, ", ".join(op(x) for x in t[2]), t[4]))
            elif t[0] == "switch":
                o.append("    SWITCH %s %s else bb%s" % (op(t[1]), t[2], t[3]))
            elif t[0] == "assert":
                o.append("    ASSERT %s == %s (%s) -> bb%s" % (op(t[1]), t[2], t[3], t[4]))
            else:
                o.append("    " + str(t))
        return "\n".join(o)


if __name__ == "__main__":
    import sys
    m = Mir("/verif/.build/mir.json")
    pat = sys.argv[1]
    for f in m.fns.values():
        if pat == f.df or (len(sys.argv) > 2 and re.search(pat, f.name)):
            print(m.pp(f))
