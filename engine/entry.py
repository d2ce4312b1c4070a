"""Verification of entry points against their specifications, projected to properties."""
import time
from term import *
import term as tm
import smt
from values import *
from path import Path, explore_parallel
from interp import Interp
from run import new_interp, call
from verify import PathCtx, Obs, same, final, snapshot_args
import world
from world import to_json
from speclib import *


class Scene:
    """one kind of call of an entry point.

    df: the entry; args: names of its arguments; setup(S, args): assumptions (returns False when the call is of another
    kind); spec(S, args) -> Out or Reject; judges: property -> function(q, cx) stating its obligations"""

    def __init__(self, name, df, args, spec, judges, setup=None, gen=None):
        self.name, self.df, self.args, self.spec, self.judges, self.setup, self.gen = name, df, args, spec, judges, setup, gen


class Cx:
    """what the code did and what the specification says, on one path"""
    accept = False       # did the code accept?
    why = ""             # reason of a rejection
    msgs = None          # sub-messages of the response (trees)
    attrs = None         # attributes (list of (key leaf, value leaf))
    extra = True         # events and data are empty
    data = None          # answer of a query
    writes = None        # storage effects [(kind, ns, key, ty, value)]
    out = None           # Out, or None
    stage = None         # stage of the specification's rejection
    S = None
    a = None
    conc = None          # initial storage of a concrete call
    after = None
    value = None


def response(I, cx, v, ty):
    """fill cx from a returned Ok value"""
    t = I.mir.types[ty]
    name = t.d["name"] if t.k == "adt" else ""
    if name == "cosmwasm_std::Response":
        tree = to_json(I, ty, v)
        cx.msgs = tree["messages"]
        cx.attrs = tree["attributes"]
        cx.extra = tree["events"] == [] and tree["data"] is None
    elif name == "cosmwasm_std::Binary":
        x = I.sval(v)
        cx.data = inner(("s", b64(x))) if not isinstance(x, bytes) else world.json_tree(__import__("json").loads(x))
        cx.raw = x
    else:
        raise Unsupported("response of type " + I.mir.tyname(ty))


def run_scene(W, sc, props, obs, secs=300, nproc=8):
    """verify the scene for the given properties; obligations go to obs[prop]. Returns '' or the reason why not supported"""
    fns = [f for f in W.mir.by_def.get(sc.df, []) if f.blocks is not None]
    if len(fns) != 1:
        return "entry point %s: %d instances" % (sc.df, len(fns))
    fn = fns[0]
    t0 = time.time()

    def go(p):
        I = new_interp(W.mir, p, W.cfg())
        args = [fresh(W.mir, fn.locals[i + 1], sc.args[i]) for i in range(fn.argc)]
        I2 = Interp(W.mir, p, W.cfg())
        I2.store, I2.api, I2.querier, I2.reply_parse = world.Store(), I.api, I.querier, I.reply_parse
        S_ = S(I2)
        S_.info = {}
        S_.scene = sc
        av = {n: V(S_, fn.locals[i + 1], args[i]) if n not in ("deps",) else None for i, n in enumerate(sc.args)}
        av["$raw"] = snapshot_args(args)
        if sc.setup and sc.setup(S_, av) is False:
            return None
        o = call(I, fn, args)
        cx = Cx()
        cx.S, cx.a, cx.I = S_, av, I
        if o.kind == "ret":
            rt = fn.locals[0]
            vi = I.variant(o.value)
            if W.mir.types[rt].d["vs"][vi]["n"] == "Ok":
                cx.accept = True
                response(I, cx, I.vfield(o.value, vi, 0), W.mir.types[rt].d["vs"][vi]["f"][0][1])
            else:
                cx.why = "error"
        else:
            cx.why = "abort: " + str(o.why)
        cx.value = o.value
        cx.writes = final(I, I.store.log) if cx.accept else []
        try:
            cx.out = sc.spec(S_, av)
        except Reject as e:
            cx.stage = e.stage
        for pid in props:
            j = sc.judges.get(pid)
            if j:
                q = PathCtx(I, loc[pid], W.budget)
                q.scene = sc.name
                q.symbolic = True
                j(q, cx)
        return True
    def step(arg):
        prefixes, budget = arg
        for k in props:
            loc[k] = Obs()
        W.used.clear()
        W.usedc.clear()
        work, n, err = list(prefixes), 0, ""
        t1 = time.time()
        while work and n < budget and (n == 0 or time.time() - t1 < 3):
            prefix = work.pop()
            n += 1
            p = Path(prefix)
            try:
                go(p)
            except Infeasible:
                pass
            except (Unsupported, Bound) as e:
                err = "%s: %s" % (sc.name, " <- ".join(str(x) for x in e.args))
                break
            work.extend(p.pending)
        return ({k: loc[k] for k in props}, set(W.used), set(W.usedc), set(W.bounded)), work, n, err

    allu, allc = set(W.used), set(W.usedc)

    def merge(pack):
        o, u_, c_, b_ = pack
        for k in props:
            obs[k].merge(o[k])
        allu.update(u_)
        allc.update(c_)
        W.bounded.update(b_)
    loc = {}
    n, err = explore_parallel(step, merge, nproc, W.budget.paths, t0 + secs, lambda: any(obs[k].failed() >= 8 for k in props))
    W.used.update(allu)
    W.usedc.update(allc)
    sc.paths = n
    return err


# ---------------------------------------------------------------- obligations used by the judges
def nm(q, x):
    return "%s.%s" % (q.scene, x)


def acceptance(q, cx, stages=None, complete=True, only=None):
    """the code rejects what the specification rejects (for the given stages), and accepts what it accepts.
    Returns True when both accept."""
    if cx.accept and cx.out is None:
        if stages is None or cx.stage in stages:
            q.require(nm(q, "rejects." + cx.stage), False, detail="accepted by the code; ")
        return False
    if not cx.accept:
        if cx.out is not None and complete:
            if not cx.out.may_reject:
                q.require(nm(q, "accepts"), False, detail="rejected by the code (%s); " % cx.why)
        elif cx.out is None and (stages is None or cx.stage in stages):
            q.require(nm(q, "rejects." + cx.stage), True)
        return False
    if complete:
        q.require(nm(q, "accepts"), True)
    q.cover(nm(q, "both accept"))
    return True


def eq(q, cx, name, a, b):
    q.require(nm(q, name), tree_eq(cx.I, a, b), detail="%s vs %s; " % (short(a), short(b)))


def no_writes(q, cx):
    q.require(nm(q, "no state change"), len(cx.writes) == 0, detail="writes %s; " % short(cx.writes))


def writes(q, cx, only=None):
    """the storage effects are exactly those of the specification"""
    I = cx.I
    exp = list(cx.out.writes)
    if cx.conc is not None:
        return conc_writes(q, cx, exp, only)
    if only is not None:
        exp = [w for w in exp if w[1] in only]
    exp = [w for w in exp if w[0] != "each" or not q.branch(ieq(w[2], 0))]
    got = cx.writes if only is None else [w for w in cx.writes if w[1] in only or w[0] == "raw"]
    if len(got) != len(exp):
        q.require(nm(q, "writes"), False, detail="writes %s; " % short([w[:3] for w in got]))
        return
    used = set()
    for (k, ns, key, v) in exp:
        hit = None
        if k == "each":              # n writes: (key, value) of each
            hit = next((i for i, w in enumerate(got) if i not in used and w[0] == k and w[1] == ns), None)
            if hit is None or not q.branch(ieq(got[hit][2], key)):
                q.require(nm(q, "writes." + ns.decode()), False, detail="another number of writes; ")
                continue
            used.add(hit)
            i = app("idx#%d" % I.p.fresh_id(), (), "I", 0, 2 ** 32)
            if q.branch(lt(i, key)):
                l = final(I, got[hit][4](i))
                x, y = v(i)
                q.require(nm(q, "writes." + ns.decode()), len(l) == 1 and l[0][4] is not None and and_(seq(l[0][2], x), tree_eq(I, to_json(I, l[0][3], l[0][4]), y.tree() if isinstance(y, V) else y)))
            continue
        for i, w in enumerate(got):
            if i not in used and w[0] == k and w[1] == ns and (key is None or q.branch(seq(w[2], key))):
                hit = i
        if hit is None:
            q.require(nm(q, "writes." + ns.decode()), False, detail="no such write; ")
            continue
        used.add(hit)
        w = got[hit]
        if (w[4] is None) != (v is None):
            q.require(nm(q, "writes." + ns.decode()), False)
        elif v is not None:
            q.require(nm(q, "writes." + ns.decode()), tree_eq(I, to_json(I, w[3], w[4]), v.tree() if isinstance(v, V) else v))


def conc_writes(q, cx, exp, only):
    """the same on a concrete storage"""
    after = {}
    one = []
    for w in exp:
        if w[0] == "each":
            for i in range(w[2]):
                key, v = w[3](i)
                one.append(("map", w[1], key, v))
        else:
            one.append(w)
    for (k, ns, key, v) in one:
        loc = ns if k == "item" else world.mapkey(ns, key)
        after[loc] = (ns, None if v is None else v.tree() if isinstance(v, V) else v)
    for loc in set(cx.after) | set(cx.conc) | set(after):
        ns = loc if loc[:1] != b"\0" else loc[2:2 + int.from_bytes(loc[:2], "big")]
        if only is not None and ns not in only:
            continue
        x = cx.after.get(loc)
        if loc in after:
            v = after[loc][1]
            ok = (x is None) == (v is None) and (x is None or tree_eq(cx.I, world.json_tree(__import__("json").loads(x)), v))
        else:
            ok = x == cx.conc.get(loc)
        q.require(nm(q, "writes." + ns.decode("latin1")), bool(ok), detail="%s becomes %s, expected %s; " % (loc, x, short(after[loc][1]) if loc in after else "no change"))


def attr(cx, key):
    """leaf of the attribute, or None; the last one of that key"""
    r = None
    for a in cx.attrs:
        if a["key"][1] == key:
            r = a["value"]
    return r


def attrs(q, cx, keys):
    for k in keys:
        eq(q, cx, "attribute." + k, attr(cx, k.encode()), cx.out.attrs[k])


def match(I, br, a, b):
    return br(tree_eq(I, a, b))


def messages(q, cx, ordered=False, got=None, exp=None, name="messages"):
    """the messages are exactly those of the specification"""
    got = cx.msgs if got is None else got
    exp = cx.out.messages if exp is None else exp
    if len(got) != len(exp):
        q.require(nm(q, name), False, detail="messages %s; " % short(got))
        return
    got = list(got)
    for i, e in enumerate(exp):
        # candidates of the same shape first
        j = 0
        if not ordered:
            for k, g in enumerate(got):
                if shape(g) == shape(e):
                    j = k
                    if len([1 for g2 in got if shape(g2) == shape(e)]) == 1 or q.branch(tree_eq(cx.I, g, e)):
                        break
        eq(q, cx, "%s.%d" % (name, i), got[j], e)
        got.pop(j)


def shape(t):
    x = deep_tree(t)
    return world.flatten(x)[0]


def deep_tree(t):
    """embedded JSON unfolded"""
    if isinstance(t, tuple):
        i = inner(t) if t[0] == "s" else None
        return deep_tree(i) if isinstance(i, dict) else t
    if isinstance(t, list):
        return [deep_tree(x) for x in t]
    if isinstance(t, dict):
        return {k: deep_tree(v) for k, v in t.items()}
    return t
