"""Contracts of the helper functions of the factory, the router and the token, and the pair's reverse quote."""
from speclib import *
import specs_hs as hs
from specs_hs import con as _con, Tree, info_val
import specs_factory as sf
import specs_token as stk
from specs_pair import *
SCENES = []
LEMMAS = []
import specs_router as sr

CONTRACTS = {}


def con(df):
    def d(f):
        _con(df)(f)
        CONTRACTS[df] = hs.CONTRACTS.pop(df)
        return f
    return d


# ---------------------------------------------------------------- factory
def names(infos):
    return [info_raw(infos[i]) for i in (0, 1)]


def info_raw(v):
    k = v.kind()
    return v.f("contract_addr").txt() if k == "Token" else v.f("denom").txt()


@con("halo_factory::state::pair_key")
def f(S, infos):
    """the bytes naming the two assets, the smaller first"""
    return sf.pair_key(S, *names(infos))


@con("halo_factory::state::calc_range_start")
def f(S, o):
    """the key of the named pair, if one is named"""
    v = o.opt()
    return None if v is None else sf.pair_key(S, *names(v))


# ---------------------------------------------------------------- token
@con("haloswap::token::is_valid_name")
def f(S, x):
    """3 to 50 bytes"""
    return and_(ge(slen(x.txt()), 3), le(slen(x.txt()), 50))


@con("haloswap::token::is_valid_symbol")
def f(S, x):
    """3 to 12 letters or hyphens"""
    t = x.txt()
    if not S.br(and_(ge(slen(t), 3), le(slen(t), 12))):
        return False
    return not_(S.exists(slen(t), lambda i: not_(stk.letter_or_hyphen(byte_at(t, i)))))


@con("haloswap::token::InstantiateMsg::validate")
def f(S, m):
    """name, symbol and decimals are valid"""
    t = m.symbol.txt()
    S.need(and_(ge(slen(m.name.txt()), 3), le(slen(m.name.txt()), 50)), "name")
    S.need(and_(ge(slen(t), 3), le(slen(t), 12)), "symbol")
    S.need(not_(S.exists(slen(t), lambda i: not_(stk.letter_or_hyphen(byte_at(t, i))))), "symbol")
    S.need(le(m.decimals.num(), 18), "decimals")


@con("haloswap::token::InstantiateMsg::get_cap")
def f(S, m):
    """the cap, if a minter with one is asked for"""
    v = m.mint.opt()
    return None if v is None else v.cap


# ---------------------------------------------------------------- pair
@con("halo_pair::contract::compute_offer_amount")
def f(S, X, Y, b):
    """the reverse quote (see C09)"""
    X, Y, b = X.num(), Y.num(), b.num()
    g = fdiv(mul(b, INVERSE), W18)
    S.need(lt(g, Y), "quote", True)
    S.need(gt(X, 0), "quote", True)
    off = sub(fdiv(mul(X, Y), sub(Y, g)), X)
    S.need(lt(off, P128), "quote", True)
    full = fdiv(mul(off, fdiv(mul(Y, W18), X)), W18)
    spread = ite(gt(full, g), sub(full, g), 0)
    S.need(lt(spread, P128), "quote", True)
    return off, spread, fdiv(mul(g, 3), 1000)


# ---------------------------------------------------------------- router
@con("halo_router::operations::asset_into_swap_msg")
def f(S, deps, pair, a, mx, to):
    """a swap message to the pair: native funds attached, or tokens sent with the hook"""
    i, n_ = info_of(S, a.info), a.amount.num()
    m, t = mx.opt(), to.opt()
    swap = {"swap": {"belief_price": None, "max_spread": None if m is None else m.tree(), "to": None if t is None else s(t.txt())}}
    if i[0] == "native":
        return Tree(wexec(pair.txt(), swap, [coin(i[1], n_)]))
    return Tree(wexec(i[1], {"send": {"contract": s(pair.txt()), "amount": u(n_), "msg": jbin(swap)}}))


@con("halo_router::contract::optional_addr_validate")
def f(S, api, a):
    """the address validated, if there is one"""
    v = a.opt()
    return None if v is None else S.validate(v.txt())




@con("halo_router::contract::query_config")
def f(S, deps):
    """the recorded factory"""
    return S.build("haloswap::router::ConfigResponse", halo_factory=sr.factory(S))


@con("halo_router::contract::reverse_simulate_return_amount")
def f(S, deps, factory, amount, offer, ask):
    """the reverse quote of the pair the factory names"""
    o, k = info_of(S, offer), info_of(S, ask)
    return sr.quote(S, factory.txt(), "reverse", k, amount.num(), o, k)


# ---------------------------------------------------------------- queries answering with records
@con("halo_factory::contract::query_config")
def f(S, deps):
    """the recorded settings, the owner's human address"""
    c = S.item(b"config", sf.CFG)
    return S.build("haloswap::factory::ConfigResponse", owner=S.human(c.owner.txt()), pair_code_id=c.pair_code_id, token_code_id=c.token_code_id)


@con("halo_factory::contract::query_native_token_decimal")
def f(S, deps, denom):
    """the decimals recorded under this denomination"""
    d = S.map(sf.NATIVE, denom.txt(), S.prim("u8"))
    if d is None:
        raise Reject("unregistered")
    return S.build("haloswap::factory::NativeTokenDecimalsResponse", decimals=d)


def pair_info(S, rec):
    lp, me = S.human(rec.liquidity_token.txt()), S.human(rec.contract_addr.txt())
    infos = [human_info(S, rec.asset_infos[i]) for i in (0, 1)]
    return S.build("haloswap::asset::PairInfo", asset_infos=[info_val(S, i) for i in infos], contract_addr=me, liquidity_token=lp,
                   asset_decimals=rec.asset_decimals, requirements=rec.requirements)


@con("halo_factory::contract::query_pair")
def f(S, deps, infos):
    """the record under the key of the two assets"""
    raw = [sf.raw_name(S, info_of(S, infos[j])) for j in (0, 1)]
    rec = S.map(sf.PAIRS, sf.pair_key(S, raw[0], raw[1]), REC)
    if rec is None:
        raise Reject("unregistered")
    return pair_info(S, rec)


@con("halo_pair::contract::query_pair_info")
def f(S, deps):
    """the pool's own record"""
    return pair_info(S, S.item(b"pair_info", REC))


@con("halo_pair::contract::query_pool")
def f(S, deps):
    """both assets with the pool's balances, and the LP supply"""
    rec = S.item(b"pair_info", REC)
    me = S.human(rec.contract_addr.txt())
    infos = [human_info(S, rec.asset_infos[i]) for i in (0, 1)]
    bal = [balance(S, i, me) for i in infos]
    sup = token_info(S, S.human(rec.liquidity_token.txt())).total_supply
    return S.build("haloswap::pair::PoolResponse", assets=[S.build("haloswap::asset::Asset", info=info_val(S, infos[k]), amount=bal[k]) for k in (0, 1)], total_share=sup)


@con("halo_pair::contract::query_simulation")
def f(S, deps, offer):
    """the quote (see C09)"""
    X, Y = sides(S, offer)
    paid, spread, com = swap_amounts(S, X, Y, offer.amount.num())
    return S.build("haloswap::pair::SimulationResponse", return_amount=paid, spread_amount=spread, commission_amount=com)


def sides(S, asset):
    rec = S.item(b"pair_info", REC)
    me = S.human(rec.contract_addr.txt())
    infos = [human_info(S, rec.asset_infos[i]) for i in (0, 1)]
    bal = [balance(S, i, me) for i in infos]
    x = info_of(S, asset.info)
    i = next((j for j in (0, 1) if same_info(S, x, infos[j])), None)
    if i is None:
        raise Reject("mismatch")
    return bal[i], bal[1 - i]


@con("halo_pair::contract::query_reverse_simulation")
def f(S, deps, ask):
    """the reverse quote (see C09)"""
    Y, X = sides(S, ask)
    b = ask.amount.num()
    g = fdiv(mul(b, INVERSE), W18)
    S.need(lt(g, Y), "quote", True)
    S.need(gt(X, 0), "quote", True)
    off = sub(fdiv(mul(X, Y), sub(Y, g)), X)
    S.need(lt(off, P128), "quote", True)
    full = fdiv(mul(off, fdiv(mul(Y, W18), X)), W18)
    spread = ite(gt(full, g), sub(full, g), 0)
    S.need(lt(spread, P128), "quote", True)
    return S.build("haloswap::pair::ReverseSimulationResponse", offer_amount=off, spread_amount=spread, commission_amount=fdiv(mul(g, 3), 1000))
