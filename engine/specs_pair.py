"""Specification of the pair contract (C01-C10, C18, C22)."""
from speclib import *
from entry import *
import os, re

W18 = 10 ** 18
P128 = 1 << 128
REC = "haloswap::asset::PairInfoRaw"
SCENES = []


def version(crate):
    txt = open("/repo/contracts/%s/Cargo.toml" % crate).read()
    return re.search(r'(?m)^version\s*=\s*"([^"]+)"', txt).group(1).encode()


def set_version(S, name, crate):
    return ("item", b"contract_info", None, {"contract": s(name), "version": s(version(crate))})


# ---------------------------------------------------------------- shared vocabulary
def human_info(S, raw):
    if raw.kind() == "Token":
        return ("token", S.human(raw.contract_addr.txt()))
    return ("native", raw.denom.txt())


def info_of(S, ai):
    return ("token", ai.contract_addr.txt()) if ai.kind() == "Token" else ("native", ai.denom.txt())


def info_tree(i):
    return {"token": {"contract_addr": s(i[1])}} if i[0] == "token" else {"native_token": {"denom": s(i[1])}}


def info_raw_tree(S, i):
    return {"token": {"contract_addr": ("s", b64(S.canon(i[1])))}} if i[0] == "token" else {"native_token": {"denom": s(i[1])}}


def same_info(S, a, b):
    return a[0] == b[0] and S.br(seq(a[1], b[1]))


def balance(S, i, who):
    if i[0] == "token":
        a = S.validate(i[1], "record")
        return S.smart(a, {"balance": {"address": s(who)}}, "cw20::query::BalanceResponse").balance.num()
    return S.query({"bank": {"balance": {"address": s(who), "denom": s(i[1])}}}, "cosmwasm_std::BalanceResponse").amount.amount.num()


def token_info(S, addr):
    return S.smart(addr, {"token_info": {}}, "cw20::query::TokenInfoResponse")


def pay(i, to, amount):
    if i[0] == "token":
        return plain(wexec(i[1], {"transfer": {"recipient": s(to), "amount": u(amount)}}))
    return plain({"bank": {"send": {"to_address": s(to), "amount": [coin(i[1], amount)]}}})


def record(S):
    rec = S.item(b"pair_info", REC)
    infos = [human_info(S, rec.asset_infos[i]) for i in (0, 1)]
    return rec, infos


# ---------------------------------------------------------------- swap
def swap_amounts(S, X, Y, a):
    """(paid, spread, commission) of offering a against reserves X, Y"""
    gross = fdiv(mul(a, Y), add(X, a))
    spread = sub(fdiv(mul(a, fdiv(mul(Y, W18), X)), W18), gross)
    S.need(gt(X, 0), "arith", True)
    S.need(and_(ge(spread, 0), lt(spread, P128)), "arith", True)
    commission = fdiv(mul(gross, 3), 1000)
    S.info.update(gross=gross)
    return sub(gross, commission), spread, commission


def scaled(S, a, ret, spread, od, ad):
    """amounts brought to the larger precision"""
    if S.br(gt(od, ad)):
        k = ipow(10, sub(od, ad))
        S.need(lt(k, 1 << 64), "scale", True)
        ret, spread = mul(ret, k), mul(spread, k)
    elif S.br(lt(od, ad)):
        k = ipow(10, sub(ad, od))
        S.need(lt(k, 1 << 64), "scale", True)
        a = mul(a, k)
    else:
        return a, ret, spread
    S.need(and_(lt(a, P128), lt(ret, P128), lt(spread, P128)), "scale")
    return a, ret, spread


def spread_check(S, belief, mx, a, ret, spread, od, ad):
    a, ret, spread = scaled(S, a, ret, spread, od, ad)
    if mx is None:
        return
    if belief is not None:
        S.need(gt(belief, 0), "spread", True)
        exp = fdiv(mul(a, W18), belief)
        S.need(or_(ge(ret, exp), le(fdiv(mul(sub(exp, ret), W18), exp), mx)), "spread")
        return
    S.need(gt(add(ret, spread), 0), "spread", True)
    S.need(le(fdiv(mul(spread, W18), add(ret, spread)), mx), "spread")


def slippage_check(S, t, d, r):
    """t: tolerance; d: deposits; r: reserves without the deposits"""
    f = lambda x, y: fdiv(mul(x, W18), y)
    left = lambda i: fdiv(mul(f(d[i], d[1 - i]), sub(W18, t)), W18)
    S.need(le(t, W18), "slippage")
    # the two ratios are looked at one after the other; a zero amount aborts unless the first comparison already rejects
    S.need(and_(gt(d[1], 0), gt(r[1], 0)), "slippage", True)
    S.need(le(left(0), f(r[0], r[1])), "slippage")
    S.need(and_(gt(d[0], 0), gt(r[0], 0)), "slippage", True)
    S.need(le(left(1), f(r[1], r[0])), "slippage")


def swap(S, env, info, msg, hook):
    me, caller = env.contract.address.txt(), info.sender.txt()
    rec, infos = record(S)
    bal = [balance(S, i, me) for i in infos]
    i = None
    for k in (0, 1):
        if infos[k][0] == "token" and S.br(seq(infos[k][1], caller)):
            i = k
            break
    if i is None:
        raise Reject("auth")
    to = hook.to.opt()
    to = S.validate(to.txt(), "to") if to is not None else msg.sender.txt()
    a = msg.amount.num()
    S.need(ge(bal[i], a), "arith")
    X, Y = sub(bal[i], a), bal[1 - i]
    S.info.update(X=X, Y=Y, a=a, ask=infos[1 - i], offer=infos[i], to=to)
    paid, spread, commission = swap_amounts(S, X, Y, a)
    mx, belief = hook.max_spread.opt(), hook.belief_price.opt()
    S.info.update(limit=mx is not None)
    may = False
    try:
        spread_check(S, belief and belief.num(), mx and mx.num(), a, paid, spread, rec.asset_decimals[i].v, rec.asset_decimals[1 - i].v)
    except Reject as e:
        if mx is not None or e.stage != "scale":
            raise
        may = True      # without a limit there is nothing to scale
    out = Out(attrs={"action": s(b"swap"), "sender": s(msg.sender.txt()), "receiver": s(to), "offer_asset": s(infos[i][1]), "ask_asset": s(infos[1 - i][1]),
                     "offer_amount": u(a), "return_amount": u(paid), "spread_amount": u(spread), "commission_amount": u(commission)}, may_reject=may)
    S.info.update(paid=paid)
    if not S.br(ieq(paid, 0)):
        out.messages.append(pay(infos[1 - i], to, paid))
    return out


def is_receive(kind):
    def setup(S_, a):
        if a["msg"].kind() != "Receive":
            return False
        S_.info["hook"] = kind
    return setup


def spec_receive(S, a):
    msg = a["msg"].f("0")
    hook = S.parse(msg.msg.txt(), "haloswap::pair::Cw20HookMsg", "hook")
    k = hook.kind()
    S.info["kind"] = k
    if k == "Swap":
        return swap(S, a["env"], a["info"], msg, hook)
    return withdraw(S, a["env"], a["info"], msg)


def both(*js):
    def j(q, cx):
        for f in js:
            f(q, cx)
    return j


def in_kind(k):
    """judge only calls of one hook kind (a malformed hook belongs to swaps)"""
    def deco(j):
        def g(q, cx):
            if cx.S.info.get("kind", "Swap") == k:
                q.scene = {"Swap": "swap", "WithdrawLiquidity": "withdraw"}[k]
                j(q, cx)
        return g
    return deco


ARITH = {"arith"}


@in_kind("Swap")
def j_c01(q, cx):
    if not acceptance(q, cx, ARITH, complete=True):
        return
    pays = [payment(m["msg"]) for m in cx.msgs]
    exp = [payment(m["msg"]) for m in cx.out.messages]
    q.require(nm(q, "payment count"), len(pays) == len(exp) and None not in pays, detail=short(cx.msgs))
    if len(pays) == len(exp) and None not in pays:
        for p, e in zip(pays, exp):
            q.require(nm(q, "payment amount"), ieq(p[3], e[3]))
            q.require(nm(q, "payment asset"), and_(p[0] == e[0], seq(p[1], e[1])))
    attrs(q, cx, ["offer_amount", "return_amount", "spread_amount", "commission_amount"])


@in_kind("Swap")
def j_c09(q, cx):
    """an accepted swap pays, spreads and charges the same function of the same reserves as the quote"""
    if not cx.accept or cx.out is None:
        return
    pays = [payment(m["msg"]) for m in cx.msgs]
    q.require(nm(q, "only payments"), None not in pays and len(pays) <= 1, detail=short(cx.msgs))
    if None not in pays and len(pays) <= 1:
        q.require(nm(q, "paid amount is the quoted one"), ieq(pays[0][3] if pays else 0, cx.S.info["paid"]))
    attrs(q, cx, ["offer_amount", "return_amount", "spread_amount", "commission_amount"])
    q.cover(nm(q, "accepted"))


def product(q, cx, worth=False):
    """(X+a)(Y-p) >= XY, p < Y unless Y = 0, and a = 0 pays nothing; p is what the code's messages pay"""
    i = cx.S.info
    if not cx.accept or "X" not in i:
        return
    X, Y, a = i["X"], i["Y"], i["a"]
    p = 0
    for m in cx.msgs:
        x = payment(m["msg"])
        if x is None:
            q.require(nm(q, "only payments"), False, detail=short(m))
            return
        if x[0] == i["ask"][0] and q.branch(seq(x[1], i["ask"][1])):
            p = add(p, x[3])
        else:
            q.require(nm(q, "only the asked asset leaves"), False, detail=short(m))
    g = i.get("gross")
    hy = []
    if g is not None:
        if not isinstance(p, int):
            q.require(nm(q, "payout at most the gross output"), le(p, g))
            hy = [le(p, g), ge(mul(sub(g, p), add(X, a)), 0), ge(mul(sub(Y, p), add(X, a)), 0)] if q.obs.get(nm(q, "payout at most the gross output")).fails == [] else []
            if hy:
                q.require(nm(q, "lemma.product of nonnegatives"), ge(mul(sub(g, p), add(X, a)), 0), hyps=[le(p, g)])
                q.require(nm(q, "gross output at most the asked reserve"), le(g, Y))
                hy = [le(p, g), le(g, Y), ge(mul(sub(g, p), add(X, a)), 0)]
    q.require(nm(q, "product does not shrink"), ge(mul(add(X, a), sub(Y, p)), mul(X, Y)), hyps=hy)
    if worth:
        q.cover(nm(q, "accepted"))
        return
    q.require(nm(q, "asked reserve not drained"), or_(ieq(Y, 0), lt(p, Y)), hyps=hy)
    q.require(nm(q, "empty offer pays nothing"), or_(not_(ieq(a, 0)), ieq(p, 0)), hyps=hy)
    q.cover(nm(q, "accepted"))


@in_kind("Swap")
def j_c02(q, cx):
    product(q, cx)


@in_kind("Swap")
def j_c03(q, cx):
    i = cx.S.info
    if cx.accept and cx.out is None and cx.stage in ("hook", "auth", "to"):
        q.require(nm(q, "rejects." + cx.stage), False, detail="accepted by the code; ")
        return
    if not cx.accept:
        if cx.out is None:
            q.require(nm(q, "rejects." + str(cx.stage)), True)
        return
    no_writes(q, cx)
    q.require(nm(q, "no events or data"), cx.extra)
    if "ask" not in i:
        return
    q.cover(nm(q, "accepted"))
    q.require(nm(q, "at most one message"), len(cx.msgs) <= 1, detail=short(cx.msgs))
    for m in cx.msgs:
        x = payment(m["msg"])
        if x is None:
            q.require(nm(q, "only a payment"), False, detail=short(m))
            continue
        q.require(nm(q, "payment in the other asset"), and_(x[0] == i["ask"][0], seq(x[1], i["ask"][1])))
        q.require(nm(q, "payment to the recipient"), seq(x[2], i["to"]))
        q.require(nm(q, "payment not zero"), not_(ieq(x[3], 0)))
        q.require(nm(q, "plain message"), tree_eq(cx.I, {k: v for k, v in m.items() if k != "msg"}, {k: v for k, v in plain(None).items() if k != "msg"}))
    if cx.out is not None:
        attrs(q, cx, ["sender", "receiver", "offer_asset", "offer_amount", "ask_asset"])


@in_kind("Swap")
def j_c04(q, cx):
    if cx.stage in ("spread", "scale"):
        acceptance(q, cx, {"spread", "scale"})
    elif cx.out is not None:
        acceptance(q, cx, set())
        if cx.accept:
            # the judged return is what is actually paid
            p = [payment(m["msg"]) for m in cx.msgs]
            if None not in p and len(p) <= 1:
                q.require(nm(q, "judged return is the amount paid"), ieq(p[0][3] if p else 0, cx.S.info["paid"]))


# ---------------------------------------------------------------- withdraw
def withdraw(S, env, info, msg):
    me = env.contract.address.txt()
    rec = S.item(b"pair_info", REC)
    c = S.canon(info.sender.txt(), "auth")
    S.need(seq(c, rec.liquidity_token.txt()), "auth")
    sender = S.validate(msg.sender.txt(), "sender")
    lp = S.human(rec.liquidity_token.txt())
    infos = [human_info(S, rec.asset_infos[i]) for i in (0, 1)]
    bal = [balance(S, i, me) for i in infos]
    n_, sup = msg.amount.num(), token_info(S, lp).total_supply.num()
    S.info.update(n=n_, sup=sup, bal=bal, infos=infos, sender=sender, lp=lp)
    S.need(gt(sup, 0), "supply")
    ratio = fdiv(mul(n_, W18), sup)
    refund = [fdiv(mul(b, ratio), W18) for b in bal]
    burn = plain(wexec(lp, {"burn": {"amount": u(n_)}}))
    # redeeming more than the supply cannot happen; whatever the code does then is not judged
    return Out([pay(infos[k], sender, refund[k]) for k in (0, 1)] + [burn], may_reject=not S.br(le(n_, sup)))


@in_kind("WithdrawLiquidity")
def j_c08(q, cx):
    i = cx.S.info
    if not acceptance(q, cx, {"auth", "sender", "supply"}, complete=True):
        return
    if not q.branch(le(i["n"], i["sup"])):
        return
    no_writes(q, cx)
    q.require(nm(q, "no events or data"), cx.extra)
    n_, sup = i["n"], i["sup"]
    got = list(cx.msgs)
    q.require(nm(q, "three messages"), len(got) == 3, detail=short(got))
    if len(got) != 3:
        return
    burn = [m for m in got if payment(m["msg"]) is None]
    q.require(nm(q, "one burn"), len(burn) == 1, detail=short(got))
    if len(burn) != 1:
        return
    eq(q, cx, "burn", burn[0], cx.out.messages[2])
    pays = [m for m in got if payment(m["msg"]) is not None]
    for m in pays:
        q.require(nm(q, "plain message"), tree_eq(cx.I, {k: v for k, v in m.items() if k != "msg"}, {k: v for k, v in plain(None).items() if k != "msg"}))
    ps = [payment(m["msg"]) for m in pays]
    is_ = lambda x, k: x[0] == i["infos"][k][0] and q.branch(seq(x[1], i["infos"][k][1]))
    if not is_(ps[0], 0) and is_(ps[0], 1):
        ps.reverse()
    for k in (0, 1):
        x = ps[k]
        q.require(nm(q, "refund.%d.asset" % k), and_(x[0] == i["infos"][k][0], seq(x[1], i["infos"][k][1])))
        q.require(nm(q, "refund.%d.recipient" % k), seq(x[2], i["sender"]))
        p, r = x[3], i["bal"][k]
        hy = share_bounds(q, n_, sup, r)        # ratio * S <= n W  times r, and  p W <= r ratio  times S
        q.require(nm(q, "refund.%d at most the share" % k), le(mul(p, sup), mul(r, n_)), hyps=hy)
        q.require(nm(q, "refund.%d within one unit and the truncated ratio" % k), lt(mul(mul(r, n_), W18), add(mul(add(p, 1), mul(sup, W18)), mul(r, sup))), hyps=hy)


# ---------------------------------------------------------------- the worth of an LP token (C23)
@in_kind("Swap")
def j_worth_swap(q, cx):
    """only payments leave (the LP supply stays) and the product of the reserves does not shrink; nobody but a pool token starts one"""
    if cx.accept and cx.out is None and cx.stage == "auth":
        q.require(nm(q, "rejects.auth"), False, detail="accepted by the code; ")
        return
    product(q, cx, worth=True)


def lp_calls(cx, what):
    """the (contract, recipient or None, amount) of every message that is a `what` call of a token"""
    l = []
    for m in cx.msgs:
        e = get(m, "msg", "wasm", "execute")
        b = inner(e["msg"]) if e else None
        if isinstance(b, dict) and what in b:
            l.append((e["contract_addr"][1], b[what], text_num(b[what].get("amount"))))
    return l


def twice(q, infos):
    """a pool of one asset twice: the factory records none (C12)"""
    return infos[0][0] == infos[1][0] and q.branch(seq(infos[0][1], infos[1][1]))


@in_kind("WithdrawLiquidity")
def j_worth_withdraw(q, cx):
    """(r - p) S >= r (S - n) for both reserves, for the payments p and the burn n the messages carry"""
    if not cx.accept:
        return
    if cx.out is None:
        if cx.stage == "auth":
            q.require(nm(q, "rejects.auth"), False, detail="accepted by the code; ")
        return
    i = cx.S.info
    n_, sup = i["n"], i["sup"]
    if not q.branch(le(n_, sup)) or twice(q, i["infos"]):
        return
    burns = lp_calls(cx, "burn")
    ok = len(burns) == 1 and burns[0][2] is not None
    q.require(nm(q, "one burn"), ok, detail=short(cx.msgs))
    if not ok:
        return
    q.require(nm(q, "burn of the LP token"), seq(burns[0][0], i["lp"]))
    q.require(nm(q, "burns the redeemed tokens"), ieq(burns[0][2], n_))
    out = [0, 0]
    for m in cx.msgs:
        x = payment(m["msg"])
        if x is None:
            q.require(nm(q, "only payments and the burn"), len(cx.msgs) == 1 + len([1 for y in cx.msgs if payment(y["msg"])]), detail=short(cx.msgs))
            continue
        k = next((k for k in (0, 1) if x[0] == i["infos"][k][0] and q.branch(seq(x[1], i["infos"][k][1]))), None)
        if k is None:
            q.require(nm(q, "only pool assets leave"), False, detail=short(m))
            return
        out[k] = add(out[k], x[3])
    for k in (0, 1):
        p, r = out[k], i["bal"][k]
        hy = share_bounds(q, n_, sup, r)
        q.require(nm(q, "reserve %d per LP token does not fall" % k), le(mul(p, sup), mul(r, n_)), hyps=hy)
    q.cover(nm(q, "accepted"))


def share_bounds(q, n_, sup, r):
    """bounds of floor(r * floor(n W / S) / W) times S W, proved first"""
    ratio = fdiv(mul(n_, W18), sup)
    hy = [ge(mul(sub(mul(n_, W18), mul(ratio, sup)), r), 0), ge(mul(sub(mul(ratio, sup), sub(mul(n_, W18), sub(sup, 1))), r), 0)]
    q.require(nm(q, "lemma.ratio bounds times reserve"), and_(*hy), hyps=[])
    d = mul(r, ratio)
    f = fdiv(d, W18)
    hy += [ge(mul(sub(d, mul(f, W18)), sup), 0), ge(mul(sub(add(mul(f, W18), W18 - 1), d), sup), 0)]
    q.require(nm(q, "lemma.refund bounds times supply"), and_(*hy[2:]), hyps=[])
    return hy


SCENES.append(Scene("pair.receive", "halo_pair::contract::execute", ["deps", "env", "info", "msg"], spec_receive,
                    {"C01": j_c01, "C02": j_c02, "C03": j_c03, "C04": j_c04, "C09": j_c09, "C08": j_c08, "C23": both(j_worth_swap, j_worth_withdraw)}, setup=lambda S, a: a["msg"].kind() == "Receive"))


# ---------------------------------------------------------------- provide liquidity
def provide(S, a):
    env, info, m = a["env"], a["info"], a["msg"]
    me, caller = env.contract.address.txt(), info.sender.txt()
    assets = [m.assets[0], m.assets[1]]
    named = [info_of(S, x.info) for x in assets]
    for k in (0, 1):
        if named[k][0] == "native":
            j = S.find(info.funds, lambda c: seq(c.denom.txt(), named[k][1]))
            sent = 0 if j is None else info.funds[j].amount.num()
            S.need(ieq(sent, assets[k].amount.num()), "funds")
    rec, infos = record(S)
    bal = [balance(S, i, me) for i in infos]
    d = []
    for i in (0, 1):
        hit = [k for k in (0, 1) if same_info(S, named[k], infos[i])][:1]
        if not hit:
            raise Reject("assets")
        d.append(assets[hit[0]].amount.num())
    msgs, r = [], []
    for i in (0, 1):
        if infos[i][0] == "token":
            msgs.append(plain(wexec(infos[i][1], {"transfer_from": {"owner": s(caller), "recipient": s(me), "amount": u(d[i])}})))
            r.append(bal[i])
        else:
            S.need(ge(bal[i], d[i]), "funds")
            r.append(sub(bal[i], d[i]))
    S.info.update(d=d, r=r)
    tol = m.slippage_tolerance.opt()
    S.info.update(limit=tol is not None)
    if tol is not None:
        slippage_check(S, tol.num(), d, r)
    lp = S.human(rec.liquidity_token.txt())
    sup = token_info(S, lp).total_supply.num()
    S.info.update(sup=sup, lp=lp)
    may = False
    if S.br(ieq(sup, 0)):
        if S.find(rec.requirements.whitelist, lambda e: seq(e.txt(), caller)) is None:
            raise Reject("whitelist")
        S.need(ge(d[0], rec.requirements.first_asset_minimum.num()), "minimum")
        S.need(ge(d[1], rec.requirements.second_asset_minimum.num()), "minimum")
        may = not S.br(lt(mul(d[0], d[1]), P128))
        share = isqrt(mul(d[0], d[1]))
    else:
        q = []
        for i in (0, 1):
            S.need(gt(r[i], 0), "reserve")
            q.append(fdiv(mul(d[i], sup), r[i]))
        S.need(or_(lt(q[0], P128), lt(q[1], P128)), "share")
        may = not (S.br(lt(q[0], P128)) and S.br(lt(q[1], P128)))
        share = q[0] if S.br(le(q[0], q[1])) else q[1]
    S.need(gt(share, 0), "zero")
    to = m.receiver.opt()
    to = to.txt() if to is not None else caller
    S.info.update(share=share, to=to, infos=infos)
    mint = plain(wexec(lp, {"mint": {"recipient": s(to), "amount": u(share)}}))
    return Out(msgs + [mint], attrs={"share": u(share)}, may_reject=may)


def minted(q, cx):
    """the one message that mints: (contract, recipient, amount), or None"""
    l = []
    for m in cx.msgs:
        e = get(m, "msg", "wasm", "execute")
        b = inner(e["msg"]) if e else None
        if isinstance(b, dict) and "mint" in b:
            l.append((e["contract_addr"][1], b["mint"]["recipient"], text_num(b["mint"]["amount"])))
    return l[0] if len(l) == 1 and l[0][2] is not None else None


def j_c05(q, cx):
    i = cx.S.info
    acceptance(q, cx, {"whitelist", "minimum", "reserve", "share", "zero"})
    if not cx.accept or cx.out is None:
        return
    x = minted(q, cx)
    q.require(nm(q, "one mint"), x is not None, detail=short(cx.msgs))
    if x is None:
        return
    q.require(nm(q, "minted share"), ieq(x[2], i["share"]))
    d, r, sup = i["d"], i["r"], i["sup"]
    if q.branch(ieq(sup, 0)):
        q.require(nm(q, "first share squared at most the product of deposits"), le(mul(x[2], x[2]), mul(d[0], d[1])))
    else:
        for k in (0, 1):
            f = fdiv(mul(d[k], sup), r[k])
            q.require(nm(q, "share at most the fraction of reserve %d" % k), le(x[2], f))
            hy = [le(x[2], f), ge(mul(sub(f, x[2]), r[k]), 0)]
            q.require(nm(q, "share times reserve %d at most deposit times supply" % k), le(mul(x[2], r[k]), mul(d[k], sup)), hyps=hy)


def masked(t):
    """messages with the minted amount left out"""
    e = get(t, "msg", "wasm", "execute")
    b = inner(e["msg"]) if e else None
    if isinstance(b, dict) and "mint" in b and set(b["mint"]) == {"recipient", "amount"}:
        b = dict(b, mint={"recipient": b["mint"]["recipient"]})
        return dict(t, msg={"wasm": {"execute": dict(e, msg=jbin(b))}})
    return t


def j_c06(q, cx):
    acceptance(q, cx, {"funds", "assets"}, complete=False)
    if not cx.accept or "to" not in cx.S.info:
        return
    no_writes(q, cx)
    q.require(nm(q, "no events or data"), cx.extra)
    if cx.out is not None:
        messages(q, cx, got=[masked(m) for m in cx.msgs], exp=[masked(m) for m in cx.out.messages])


def j_c07(q, cx):
    i = cx.S.info
    if cx.stage == "slippage":
        acceptance(q, cx, {"slippage"})
    elif cx.out is not None:
        # whatever the specification accepts is not rejected (in particular not for the slippage)
        acceptance(q, cx, set())


SCENES.append(Scene("pair.provide", "halo_pair::contract::execute", ["deps", "env", "info", "msg"], provide,
                    {"C05": j_c05, "C06": j_c06, "C07": j_c07}, setup=lambda S, a: a["msg"].kind() == "ProvideLiquidity"))


def provide_worth(S, a):
    """no acceptance condition: only what the pool held before, what arrives and what is minted"""
    env, info, m = a["env"], a["info"], a["msg"]
    me, caller = env.contract.address.txt(), info.sender.txt()
    rec, infos = record(S)
    bal = [balance(S, i, me) for i in infos]
    lp = S.human(rec.liquidity_token.txt())
    sup = token_info(S, lp).total_supply.num()
    sent = []
    for i in infos:
        j = S.find(info.funds, lambda c: seq(c.denom.txt(), i[1])) if i[0] == "native" else None
        sent.append(0 if j is None else info.funds[j].amount.num())
        S.need(ge(bal[len(sent) - 1], sent[-1]), "arith")       # what is attached has arrived
    named = [info_of(S, m.assets[k].info) for k in (0, 1)]
    d = []
    for i in infos:
        hit = [k for k in (0, 1) if same_info(S, named[k], i)][:1]
        d.append(m.assets[hit[0]].amount.num() if hit else None)
    S.info.update(me=me, caller=caller, infos=infos, lp=lp, sup=sup, sent=sent, bal=bal, d=d)
    return Out([], may_reject=True)


def j_worth_provide(q, cx):
    """r' S >= r (S + m) for both reserves, r before the deposit, r' after what the messages pull, m what they mint"""
    i = cx.S.info
    if not cx.accept or "d" not in i:
        return
    mints, pulls = lp_calls(cx, "mint"), lp_calls(cx, "transfer_from")
    ok = len(mints) + len(pulls) == len(cx.msgs) and all(x[2] is not None for x in mints + pulls)
    q.require(nm(q, "only pulls and the mint"), ok, detail=short(cx.msgs))
    if not ok:
        return
    sup = i["sup"]
    m = 0
    for x in mints:
        q.require(nm(q, "mint of the LP token"), seq(x[0], i["lp"]))
        m = add(m, x[2])
    pre = [sub(i["bal"][k], i["sent"][k]) for k in (0, 1)]
    gain = list(i["sent"])
    for x in pulls:
        for k in (0, 1):
            if i["infos"][k][0] == "token" and q.branch(and_(seq(x[0], i["infos"][k][1]), seq(get(x[1], "recipient")[1], i["me"]))):
                gain[k] = add(gain[k], x[2])
                break
    if twice(q, i["infos"]):
        return
    q.cover(nm(q, "accepted"))
    if q.branch(ieq(sup, 0)):
        return
    for k in (0, 1):
        hy = []
        if i["d"][k] is not None:
            # whichever quotient the code took: it is at most the fraction of this reserve
            f = fdiv(mul(i["d"][k], sup), pre[k])
            hy = [ge(mul(sub(f, m), pre[k]), 0)]
            if not q.branch(and_(gt(pre[k], 0), le(m, f))):
                hy = []
        q.require(nm(q, "reserve %d per LP token does not fall" % k), le(mul(m, pre[k]), mul(gain[k], sup)), hyps=hy)


SCENES.append(Scene("pair.worth", "halo_pair::contract::execute", ["deps", "env", "info", "msg"], provide_worth,
                    {"C23": j_worth_provide}, setup=lambda S, a: a["msg"].kind() == "ProvideLiquidity"))


# ---------------------------------------------------------------- creation, reply, migration
def instantiate(S, a):
    env, m = a["env"], a["msg"]
    me = env.contract.address.txt()
    rec = {"asset_infos": [info_raw_tree(S, info_of(S, m.asset_infos[i])) for i in (0, 1)], "contract_addr": ("s", b64(S.canon(me))), "liquidity_token": s(b""),
           "asset_decimals": [n(m.asset_decimals[i].v) for i in (0, 1)], "requirements": m.requirements.tree()}
    lp = {"name": s(b"halo liquidity token"), "symbol": s(b"uLP"), "decimals": n(6), "initial_balances": [], "mint": {"minter": s(me), "cap": None}}
    sub_ = {"id": n(1), "msg": {"wasm": {"instantiate": {"admin": None, "code_id": n(m.token_code_id.v), "msg": jbin(lp), "funds": [], "label": s(b"lp")}}},
            "gas_limit": None, "reply_on": s(b"success")}
    return Out([sub_], writes=[set_version(S, b"crates.io:halo-pair", "halo-pair"), ("item", b"pair_info", None, rec)])


def j_inst_c10(q, cx):
    if acceptance(q, cx):
        writes(q, cx, only=[b"pair_info"])


def j_inst_c18(q, cx):
    """exactly one token creation, with the pool as only minter, no cap, no balances, 6 decimals"""
    if not acceptance(q, cx, set()):
        return
    q.require(nm(q, "one message"), len(cx.msgs) == 1, detail=short(cx.msgs))
    if len(cx.msgs) == 1:
        g, e = get(cx.msgs[0], "msg", "wasm", "instantiate"), get(cx.out.messages[0], "msg", "wasm", "instantiate")
        q.require(nm(q, "instantiates"), g is not None, detail=short(cx.msgs))
        if g is not None:
            gi, ei = inner(g["msg"]), inner(e["msg"])
            q.require(nm(q, "token parameters readable"), isinstance(gi, dict) and set(gi) == set(ei), detail=short(g))
            if isinstance(gi, dict) and set(gi) == set(ei):
                for k in ("decimals", "initial_balances", "mint"):
                    eq(q, cx, "token." + k, gi[k], ei[k])
                for k in ("name", "symbol"):
                    x = gi[k][1] if isinstance(gi[k], tuple) else None
                    ok = isinstance(x, bytes) and (3 <= len(x) <= 50 if k == "name" else re.match(rb"^[a-zA-Z-]{3,12}$", x) is not None)
                    q.require(nm(q, "token.%s valid" % k), bool(ok), detail=short(gi[k]))
            eq(q, cx, "code id", g["code_id"], e["code_id"])
            eq(q, cx, "no funds", g["funds"], [])
            eq(q, cx, "no admin", g["admin"], None)


def j_inst_reply(q, cx):
    """the pool asks to be told of the success of the creation (the reply records the address)"""
    if cx.accept and cx.out is not None and len(cx.msgs) == 1:
        m = cx.msgs[0]
        q.require(nm(q, "reply requested on success"), m["reply_on"][1] in (b"success", b"always"), detail=short(m))
        eq(q, cx, "no gas limit", m["gas_limit"], None)


def reply(S, a):
    r = a["msg"].result
    if r.kind() != "Ok":
        raise Reject("reply")
    d = r.f("0").data.opt()
    if d is None:
        raise Reject("reply")
    addr = S.reply_addr(d.txt())
    if addr is None:
        raise Reject("reply")
    rec = S.item(b"pair_info", REC)
    t = dict(rec.tree(), liquidity_token=("s", b64(S.canon(addr, "reply"))))
    return Out([], writes=[("item", b"pair_info", None, t)])


def j_reply(q, cx):
    if acceptance(q, cx):
        writes(q, cx)
        q.require(nm(q, "no messages"), cx.msgs == [], detail=short(cx.msgs))


def migrate_scene(df, name, crate, contract):
    def spec(S, a):
        return Out([], writes=[set_version(S, name, crate)])

    def j(q, cx):
        if acceptance(q, cx):
            writes(q, cx)
            q.require(nm(q, "no messages"), cx.msgs == [], detail=short(cx.msgs))
            q.require(nm(q, "no events or data"), cx.extra)
    return Scene(contract + ".migrate", df, ["deps", "env", "msg"], spec, {"C22": j})


SCENES.append(Scene("pair.instantiate", "halo_pair::contract::instantiate", ["deps", "env", "info", "msg"], instantiate,
                    {"C10": both(j_inst_c10, j_inst_reply), "C18": j_inst_c18}))
SCENES.append(Scene("pair.reply", "halo_pair::contract::reply", ["deps", "env", "msg"], reply, {"C10": j_reply}))
SCENES.append(migrate_scene("halo_pair::contract::migrate", b"crates.io:halo-pair", "halo-pair", "pair"))


# ---------------------------------------------------------------- queries
INVERSE = W18 * W18 // (997 * 10 ** 15)     # 1/(1 - 0.3%) truncated at 18 decimals


def query(S, a):
    m = a["msg"]
    k = m.kind()
    S.info["kind"] = k
    rec = S.item(b"pair_info", REC)
    if k == "Pair":
        infos = [human_info(S, rec.asset_infos[i]) for i in (0, 1)]
        return Out(data={"asset_infos": [info_tree(i) for i in infos], "contract_addr": s(S.human(rec.contract_addr.txt())),
                         "liquidity_token": s(S.human(rec.liquidity_token.txt())), "asset_decimals": [n(rec.asset_decimals[i].v) for i in (0, 1)],
                         "requirements": rec.requirements.tree()})
    me = S.human(rec.contract_addr.txt())
    infos = [human_info(S, rec.asset_infos[i]) for i in (0, 1)]
    bal = [balance(S, i, me) for i in infos]
    if k == "Pool":
        sup = token_info(S, S.human(rec.liquidity_token.txt())).total_supply.num()
        return Out(data={"assets": [{"info": info_tree(infos[i]), "amount": u(bal[i])} for i in (0, 1)], "total_share": u(sup)})
    asset = m.offer_asset if k == "Simulation" else m.ask_asset
    x = info_of(S, asset.info)
    i = next((j for j in (0, 1) if same_info(S, x, infos[j])), None)
    if i is None:
        raise Reject("mismatch")
    if k == "Simulation":
        paid, spread, com = swap_amounts(S, bal[i], bal[1 - i], asset.amount.num())
        return Out(data={"return_amount": u(paid), "spread_amount": u(spread), "commission_amount": u(com)})
    X, Y, b = bal[1 - i], bal[i], asset.amount.num()
    S.info.update(X=X, Y=Y, b=b)
    g = fdiv(mul(b, INVERSE), W18)
    S.need(lt(g, Y), "quote")
    S.need(gt(X, 0), "quote")
    off = sub(fdiv(mul(X, Y), sub(Y, g)), X)
    S.need(lt(off, P128), "quote")
    full = fdiv(mul(off, fdiv(mul(Y, W18), X)), W18)
    spread = ite(gt(full, g), sub(full, g), 0)
    com = fdiv(mul(g, 3), 1000)
    S.info.update(off=off, com=com, g=g)
    # the spread is reported in 128 bits
    may = not S.br(lt(spread, P128))
    return Out(data={"offer_amount": u(off), "spread_amount": u(spread), "commission_amount": u(com)}, may_reject=may)


def j_query(kinds, stages, keys=None):
    def j(q, cx):
        k = cx.S.info.get("kind")
        if k not in kinds:
            return
        q.scene = "query." + k
        if not acceptance(q, cx, stages):
            return
        q.require(nm(q, "answer readable"), isinstance(cx.data, dict), detail=short(getattr(cx, "raw", None)))
        if not isinstance(cx.data, dict):
            return
        q.require(nm(q, "answer fields"), set(cx.data) == set(cx.out.data), detail=short(cx.data))
        for f in keys or sorted(cx.out.data):
            if f in cx.data:
                eq(q, cx, "answer." + f, cx.data[f], cx.out.data[f])
    return j


SIM, REV = j_query({"Simulation"}, {"mismatch"} | ARITH), j_query({"ReverseSimulation"}, {"mismatch", "quote"}, ["offer_amount", "commission_amount"])


def j_c09_query(q, cx):
    SIM(q, cx)
    REV(q, cx)


SCENES.append(Scene("pair.query", "halo_pair::contract::query", ["deps", "env", "msg"], query,
                    {"C10": j_query({"Pair", "Pool"}, None), "C09": j_c09_query}))


# ---------------------------------------------------------------- lemmas over the specification formulas
def lemma(name, hyps, goal, pid="C09"):
    """one obligation over mathematical integers, not bound to a path"""
    def f(W, obs):
        ob = obs.get("lemma." + name)
        st, by, model, secs = smt.decide([h for h in hyps if h is not True], goal, W.budget.quick, W.budget.nl, W.budget.cvc)
        ob.n += 1
        ob.secs += secs
        ob.by[by] = ob.by.get(by, 0) + 1
        if st == "proved":
            ob.proved += 1
        else:
            ob.fails.append((st, tm.show(goal)[:500], "", []))
    return (pid, name, f)


def reverse_lemmas():
    """offering one unit more than the reverse quote yields at least b - 1 - b/10^18"""
    v = lambda n: app("lemma." + n, (), "I", 0, P128)
    X, Y, b, gg, q = v("X"), v("Y"), v("b"), v("g"), v("q")
    t = INVERSE
    # q = floor(XY / (Y-g)), a = q - X + 1: the offer of one unit more; its gross output is at least g
    quot = [lt(gg, Y), gt(X, 0), ge(q, X), lt(mul(X, Y), mul(add(q, 1), sub(Y, gg)))]
    a = add(sub(q, X), 1)
    gross = v("gross")      # floor(a Y / (X + a))
    h2 = [lt(mul(a, Y), mul(add(gross, 1), add(q, 1))), ge(mul(a, Y), mul(add(q, 1), gg))]
    paid = lambda x: sub(x, fdiv(mul(x, 3), 1000))
    return [lemma("the product bound gives (X+a)g <= aY", quot, ge(mul(a, Y), mul(add(q, 1), gg))),
            lemma("one unit more yields at least the grossed up amount", h2 + [ge(q, 0)], ge(gross, gg)),
            lemma("the payout grows with the gross output", [ge(gross, gg)], ge(paid(gross), paid(gg))),
            lemma("the grossed up amount less commission covers the request", [ieq(gg, fdiv(mul(b, t), W18))],
                  ge(mul(W18, add(paid(gg), 1)), sub(mul(W18, b), b)))]


def worth_lemmas():
    """the steps, each judged on the code, chain: r0 r1 / S^2 never falls over any history"""
    v = lambda n: app("lemma.w." + n, (), "I", 0, P128)
    r0, S, d0, m, p0 = (v(x) for x in ("r0", "S", "d0", "m", "p0"))
    A0, B0 = mul(add(r0, d0), S), mul(r0, add(S, m))
    C0, D0 = mul(sub(r0, p0), S), mul(r0, sub(S, m))
    x, y, z, w = v("x"), v("y"), v("z"), v("w")
    return [lemma("bounds multiply", [ge(x, y), ge(z, w)], ge(mul(x, z), mul(y, w)), "C23"),
            lemma("a provision keeps each reserve per LP token", [le(mul(m, r0), mul(d0, S))], ge(A0, B0), "C23"),
            lemma("a withdrawal keeps each reserve per LP token", [le(mul(p0, S), mul(r0, m)), le(p0, r0), le(m, S)], ge(C0, D0), "C23")]


LEMMAS = reverse_lemmas() + worth_lemmas()
