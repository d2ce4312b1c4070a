"""Specification of the LP token contract (C18, C19)."""
from speclib import *
from entry import *
from run import call
from verify import same, same_logs
from interp import Interp
from specs_pair import set_version

SCENES = []
INFO = "cw20_base::state::TokenInfo"
ARGS = ["deps", "env", "info", "msg"]
QARGS = ["deps", "env", "msg"]


# ---------------------------------------------------------------- creation
def letter_or_hyphen(c):
    return or_(ieq(c, 45), and_(ge(c, 65), le(c, 90)), and_(ge(c, 97), le(c, 122)))


def supply(S, x, amount):
    S.need(lt(add(x, amount), 1 << 128), "supply", True)
    return add(x, amount)


def create(S, a):
    m = a["msg"]
    name, sym = m.name.txt(), m.symbol.txt()
    S.need(and_(ge(slen(name), 3), le(slen(name), 50)), "name")
    S.need(and_(ge(slen(sym), 3), le(slen(sym), 12)), "symbol")
    S.need(not_(S.exists(slen(sym), lambda i: not_(letter_or_hyphen(byte_at(sym, i))))), "symbol")
    S.need(le(m.decimals.num(), 18), "decimals")
    l = m.initial_balances
    cnt = l.len()
    S.need(S.distinct(cnt, lambda i: l[i].address.txt()), "accounts")
    S.collect(cnt, lambda i: S.validate(l[i].address.txt()), "accounts")
    total = S.fold(cnt, 0, lambda i, x: supply(S, x, l[i].amount.num()))
    mint = m.mint.opt()
    cap = None if mint is None else mint.cap.opt()
    if cap is not None:
        S.need(le(total, cap.num()), "cap")
    md = None
    if mint is not None:
        who = S.validate(mint.minter.txt(), "minter")
        md = S.build("cw20_base::state::MinterData", minter=who, cap=mint.cap)
    rec = S.build(INFO, name=name, symbol=sym, decimals=m.decimals, total_supply=total, mint=None if md is None else md)
    return Out([], writes=[set_version(S, b"crates.io:cw20-base", "halo-token"), ("each", b"balance", cnt, lambda i: (l[i].address.txt(), l[i].amount)), ("item", b"token_info", None, rec)])


def j_create(q, cx):
    if acceptance(q, cx):
        writes(q, cx, only=None)
        q.require(nm(q, "no messages"), cx.msgs == [], detail=short(cx.msgs))
        q.require(nm(q, "no events or data"), cx.extra)


SCENES.append(Scene("token.instantiate", "halo_token::contract::instantiate", ARGS, create, {"C18": j_create}))


# ---------------------------------------------------------------- everything else is the standard token
def standard(df):
    def spec(S, a):
        fn = next(f for f in S.I.mir.by_def[df] if f.blocks is not None)
        o = call(S.I, fn, a["$raw"])
        S.ref = o
        if o.kind != "ret":
            raise Reject("standard")
        vi = S.I.variant(o.value)
        if S.I.mir.types[fn.locals[0]].d["vs"][vi]["n"] != "Ok":
            raise Reject("standard")
        return Out([], info={"value": o.value})
    return spec


def j_standard(q, cx):
    if acceptance(q, cx):
        I = cx.I
        q.require(nm(q, "response"), same(I, cx.value, cx.out.info["value"]))
        q.require(nm(q, "storage"), same_logs(I, I.store.log, cx.S.I.store.log))


SCENES.append(Scene("token.execute", "halo_token::contract::execute", ARGS, standard("cw20_base::contract::execute"), {"C19": j_standard}))
SCENES[-1].pair_with = "cw20"
SCENES.append(Scene("token.query", "halo_token::contract::query", QARGS, standard("cw20_base::contract::query"), {"C19": j_standard}))
SCENES[-1].pair_with = "cw20"
