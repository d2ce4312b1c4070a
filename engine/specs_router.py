"""Specification of the router contract (C15-C17, C22)."""
from speclib import *
from entry import *
from specs_pair import info_of, info_tree, balance, set_version, migrate_scene

CFG = "halo_router::state::Config"
SCENES = []


def factory(S):
    return S.human(S.item(b"config", CFG).halo_factory.txt())


def pair_of(S, fac, offer, ask):
    """the factory's record of the pair of two assets"""
    return S.smart(fac, {"pair": {"asset_infos": [info_tree(offer), info_tree(ask)]}}, "haloswap::asset::PairInfo").contract_addr.txt()


def op_infos(S, op):
    return info_of(S, op.offer_asset_info), info_of(S, op.ask_asset_info)


def op_tree(o, k):
    return {"halo_swap": {"offer_asset_info": info_tree(o), "ask_asset_info": info_tree(k)}}


# ---------------------------------------------------------------- starting a route
def route(S, a, starter, m):
    """one hop message per operation, and at the end the check of the minimum"""
    ops = m.operations
    me = a["env"].contract.address.txt()
    N = ops.len()
    S.need(ge(N, 1), "empty")

    def step(i, names):
        o, k = op_infos(S, ops[i])
        return S.names_add(S.names_del(names, o[1]), k[1])
    names = S.fold(N, S.names(), step)
    S.need(ieq(S.names_count(names), 1), "outputs")
    to = starter if a["to"] is None else a["to"]
    target = op_infos(S, ops[sub(N, 1)])[1]
    least = m.minimum_receive.opt()
    check = None
    if least is not None:
        before = balance_now(S, target, to)
        check = plain(wexec(me, {"assert_minimum_receive": {"asset_info": info_tree(target), "prev_balance": u(before),
                                                            "minimum_receive": u(least.num()), "receiver": s(to)}}))

    def hop(i):
        o, k = op_infos(S, ops[i])
        return plain(wexec(me, {"execute_swap_operation": {"operation": op_tree(o, k), "to": s(to) if S.br(ieq(i, sub(N, 1))) else None}}))
    return Out(Seq(N, hop), info={"check": check})


def balance_now(S, i, who):
    return balance(S, i, who)


def start(S, a):
    m = a["msg"]
    to = m.to.opt()
    a["to"] = None if to is None else S.validate(to.txt(), "to")
    return route(S, a, a["info"].sender.txt(), m)


def receive(S, a):
    w = a["msg"].f("0")
    sender = S.validate(w.sender.txt(), "to")
    h = S.parse(w.msg.txt(), "haloswap::router::Cw20HookMsg")
    to = h.to.opt()
    a["to"] = None if to is None else S.validate(to.txt(), "to")
    return route(S, a, sender, h)


# ---------------------------------------------------------------- one hop
def hop(S, a):
    m = a["msg"]
    me = a["env"].contract.address.txt()
    to = m.to.opt()
    if to is not None:
        to = S.validate(to.txt(), "to")
    S.need(seq(me, a["info"].sender.txt()), "auth")
    fac = factory(S)
    o, k = op_infos(S, m.operation)
    pair = pair_of(S, fac, o, k)
    amount = balance(S, o, me)
    swap = {"swap": {"belief_price": None, "max_spread": None, "to": opt(to)}}
    if o[0] == "native":
        return Out([plain(wexec(pair, swap, [coin(o[1], amount)]))])
    return Out([plain(wexec(o[1], {"send": {"contract": s(pair), "amount": u(amount), "msg": jbin(swap)}}))])


def least_check(S, a):
    m = a["msg"]
    who = S.validate(m.receiver.txt(), "to")
    now = balance(S, info_of(S, m.asset_info), who)
    S.need(ge(now, m.prev_balance.num()), "minimum")
    S.need(ge(sub(now, m.prev_balance.num()), m.minimum_receive.num()), "minimum")
    return Out([])


EXEC = {"ExecuteSwapOperations": start, "Receive": receive, "ExecuteSwapOperation": hop, "AssertMinimumReceive": least_check}


def execute(S, a):
    k = a["msg"].kind()
    S.info["kind"] = k
    return EXEC[k](S, a)


def count(l):
    return l.len if isinstance(l, Seq) else len(l)


def j_route(q, cx):
    """C15"""
    k = cx.S.info.get("kind")
    q.scene = {"ExecuteSwapOperations": "route", "Receive": "route"}.get(k, "hop")
    if not acceptance(q, cx, {"empty", "outputs", "hook"} if q.scene == "route" else {"auth", "query", "to"}):
        return
    q.require(nm(q, "no events or data"), cx.extra)
    q.require(nm(q, "no state change"), len(cx.writes) == 0, detail=short(cx.writes))
    if q.scene == "hop":
        messages(q, cx)
        return
    exp = cx.out.messages
    extra_ = 0 if cx.out.info["check"] is None else 1
    part(q, cx, "hops", cx.msgs, exp, extra_)


def part(q, cx, name, got, exp, more):
    """the list got starts with exp and has `more` elements after it"""
    I = cx.I
    ln = count(got)
    q.require(nm(q, name + ".count"), ieq(ln, add(count(exp), more)), detail="%s; " % short(got))
    at = lambda l, i: l.fn(i) if isinstance(l, Seq) else l[i]
    if is_c(ln) and is_c(count(exp)):
        for i in range(min(ln, count(exp))):
            eq(q, cx, "%s.message" % name, at(got, i), at(exp, i))
        return
    j = app("idx#%d" % I.p.fresh_id(), (), "I", 0, 2 ** 32)
    if q.branch(and_(lt(j, ln), lt(j, count(exp)))):
        eq(q, cx, "%s.message" % name, at(got, j), at(exp, j))


def j_minimum(q, cx):
    """C16"""
    k = cx.S.info.get("kind")
    q.scene = {"ExecuteSwapOperations": "route", "Receive": "route"}.get(k, "minimum")
    if q.scene == "minimum":
        if acceptance(q, cx, {"minimum", "query", "record", "to"}):
            q.require(nm(q, "no effect"), and_(len(cx.writes) == 0, cx.msgs == [], cx.extra))
        return
    if not acceptance(q, cx, {"query", "record"}):
        return
    c = cx.out.info["check"]
    N = count(cx.out.messages)
    ln = count(cx.msgs)
    q.require(nm(q, "check.count"), ieq(ln, N if c is None else add(N, 1)), detail="%s; " % short(cx.msgs))
    if c is not None and q.branch(ieq(ln, add(N, 1))):
        last = cx.msgs.fn(N) if isinstance(cx.msgs, Seq) else cx.msgs[N]
        eq(q, cx, "check.last message", last, c)


ARGS = ["deps", "env", "info", "msg"]


def kinds(*l):
    return lambda S, a: a["msg"].kind() in l


SCENES.append(Scene("router.start", "halo_router::contract::execute", ARGS, execute, {"C15": j_route, "C16": j_minimum}, setup=kinds("ExecuteSwapOperations", "Receive")))
SCENES.append(Scene("router.hop", "halo_router::contract::execute", ARGS, execute, {"C15": j_route}, setup=kinds("ExecuteSwapOperation")))
SCENES.append(Scene("router.minimum", "halo_router::contract::execute", ARGS, execute, {"C16": j_minimum}, setup=kinds("AssertMinimumReceive")))
SCENES.append(migrate_scene("halo_router::contract::migrate", b"crates.io:halo-router", "halo-router", "router"))


# ---------------------------------------------------------------- quotes
def quote(S, fac, kind, info, amount, offer, ask):
    pair = pair_of(S, fac, offer, ask)
    asset = {"info": info_tree(info), "amount": u(amount)}
    if kind == "simulation":
        return S.smart(pair, {"simulation": {"offer_asset": asset}}, "haloswap::pair::SimulationResponse").return_amount.num()
    return S.smart(pair, {"reverse_simulation": {"ask_asset": asset}}, "haloswap::pair::ReverseSimulationResponse").offer_amount.num()


def query(S, a):
    m = a["msg"]
    k = m.kind()
    S.info["kind"] = k
    fac = factory(S)
    if k == "Config":
        return Out(data={"halo_factory": s(fac)})
    ops = m.operations
    N = ops.len()
    S.need(ge(N, 1), "empty")
    if k == "SimulateSwapOperations":
        def step(i, x):
            o, b = op_infos(S, ops[i])
            return quote(S, fac, "simulation", o, x, o, b)
        r = S.fold(N, m.offer_amount.num(), step)
    else:
        def step(i, x):
            o, b = op_infos(S, ops[sub(sub(N, 1), i)])
            return quote(S, fac, "reverse", b, x, o, b)
        r = S.fold(N, m.ask_amount.num(), step)
    return Out(data={"amount": u(r)})


def j_quote(q, cx):
    k = cx.S.info.get("kind")
    q.scene = "query." + k
    if not acceptance(q, cx):
        return
    eq(q, cx, "answer", cx.data, cx.out.data)


QARGS = ["deps", "env", "msg"]
SCENES.append(Scene("router.quote", "halo_router::contract::query", QARGS, query, {"C17": j_quote}, setup=kinds("SimulateSwapOperations")))
SCENES.append(Scene("router.reverse_quote", "halo_router::contract::query", QARGS, query, {"C17": j_quote}, setup=kinds("ReverseSimulateSwapOperations")))
SCENES.append(Scene("router.config", "halo_router::contract::query", QARGS, query, {"C15": j_quote}, setup=kinds("Config")))


def instantiate(S, a):
    return Out([], writes=[set_version(S, b"crates.io:halo-router", "halo-router"),
                           ("item", b"config", None, {"halo_factory": ("s", b64(S.canon(a["msg"].halo_factory.txt())))})])


def j_inst(q, cx):
    if acceptance(q, cx):
        writes(q, cx)
        messages(q, cx)


SCENES.append(Scene("router.instantiate", "halo_router::contract::instantiate", ARGS, instantiate, {"C15": j_inst}))
