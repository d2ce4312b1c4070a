"""Contracts of the helper functions of the pair, factory, router and shared packages."""
from speclib import *
from verify import Contract, SpecErr
from natives import out_ty, mk_variant, ok, ok_ty
import specs_pair as sp
from specs_pair import *

CONTRACTS = {}


def con(df):
    def d(f):
        def spec(I, fn, a):
            S_ = S(I)
            S_.info = {}
            try:
                r = f(S_, *[V(S_, fn.locals[i + 1], a[i]) if f.__name__ != "raw" else a[i] for i in range(fn.argc)])
            except Reject as e:
                if e.abort:
                    raise Panic(e.stage)
                raise SpecErr()
            return value(S_, fn.locals[0], r)
        CONTRACTS[df] = Contract(df, spec, text=f.__doc__ or "")
        return f
    return d


class Tree:
    def __init__(self, t):
        self.t = t


def value(S_, ty, r):
    I = S_.I
    t = I.mir.types[ty]
    if t.k == "adt" and t.d["name"] == "std::result::Result":
        return ok(I, ty, value(S_, ok_ty(I, ty), r))
    if r is None and not I.mir.is_option(ty):
        return UNIT
    if isinstance(r, Tree):
        return world.from_tree(I.mir, ty, r.t)
    return S_.conv(ty, r)


def info_val(S_, i, raw=False):
    k = "Token" if i[0] == "token" else "NativeToken"
    return (k, i[1])


def addr(v):
    return v.txt()


# ---------------------------------------------------------------- asset infos
@con("haloswap::asset::AssetInfo::equal")
def f(S, a, b):
    """same kind and same name"""
    x, y = info_of(S, a), info_of(S, b)
    return x[0] == y[0] and seq(x[1], y[1])


@con("haloswap::asset::AssetInfoRaw::equal")
def f(S, a, b):
    """same kind and same name"""
    x, y = info_of(S, a), info_of(S, b)
    return x[0] == y[0] and seq(x[1], y[1])


@con("haloswap::asset::AssetInfo::is_native_token")
def f(S, a):
    """the kind is native"""
    return a.kind() == "NativeToken"


@con("haloswap::asset::Asset::is_native_token")
def f(S, a):
    """the kind is native"""
    return a.info.kind() == "NativeToken"


@con("haloswap::asset::AssetInfo::to_raw")
def f(S, a, api):
    """canonical address of a token, same denomination"""
    i = info_of(S, a)
    return ("Token", S.canon(i[1])) if i[0] == "token" else ("NativeToken", i[1])


@con("haloswap::asset::AssetInfoRaw::to_normal")
def f(S, a, api):
    """human address of a token, same denomination"""
    return info_val(S, human_info(S, a))


@con("haloswap::asset::AssetInfoRaw::as_bytes")
def f(S, a):
    """bytes of the canonical address or of the denomination"""
    return info_of(S, a)[1]


@con("haloswap::asset::AssetInfo::query_pool")
def f(S, a, q, api, who):
    """the balance of this asset"""
    return balance(S, info_of(S, a), who.txt())


@con("haloswap::asset::AssetInfo::query_decimals")
def f(S, a, factory, q):
    """the token's own decimals, or the factory's for a denomination"""
    i = info_of(S, a)
    if i[0] == "token":
        return token_info(S, i[1]).decimals
    return S.smart(factory.txt(), {"native_token_decimals": {"denom": sp.s(i[1])}}, "haloswap::factory::NativeTokenDecimalsResponse").decimals


@con("haloswap::asset::Asset::into_msg")
def f(S, a, to):
    """a transfer of exactly this amount of this asset"""
    return Tree(pay(info_of(S, a.info), to.txt(), a.amount.num())["msg"])


@con("haloswap::asset::Asset::assert_sent_native_token_balance")
def f(S, a, info):
    """a denomination comes with exactly the amount among the funds (absent counts as 0)"""
    i = info_of(S, a.info)
    if i[0] == "native":
        j = S.find(info.funds, lambda c: seq(c.denom.txt(), i[1]))
        S.need(ieq(0 if j is None else info.funds[j].amount.num(), a.amount.num()), "funds")


@con("haloswap::asset::PairInfoRaw::to_normal")
def f(S, rec, api):
    """the record with human addresses"""
    lp, me = S.human(rec.liquidity_token.txt()), S.human(rec.contract_addr.txt())
    infos = [human_info(S, rec.asset_infos[i]) for i in (0, 1)]
    return S.build("haloswap::asset::PairInfo", asset_infos=[info_val(S, i) for i in infos], contract_addr=me, liquidity_token=lp,
                   asset_decimals=rec.asset_decimals, requirements=rec.requirements)


@con("haloswap::asset::PairInfoRaw::query_pools")
def f(S, rec, q, api, me):
    """both assets with the account's balances"""
    infos = [human_info(S, rec.asset_infos[i]) for i in (0, 1)]
    bal = [balance(S, i, me.txt()) for i in infos]
    return [S.build("haloswap::asset::Asset", info=info_val(S, infos[k]), amount=bal[k]) for k in (0, 1)]


# ---------------------------------------------------------------- queries
@con("haloswap::querier::query_balance")
def f(S, q, who, denom):
    """bank balance"""
    return balance(S, ("native", denom.txt()), who.txt())


@con("haloswap::querier::query_token_balance")
def f(S, q, token, who):
    """token balance"""
    return S.smart(token.txt(), {"balance": {"address": sp.s(who.txt())}}, "cw20::query::BalanceResponse").balance


@con("haloswap::querier::query_token_info")
def f(S, q, token):
    """token information"""
    return token_info(S, token.txt())


@con("haloswap::querier::query_native_decimals")
def f(S, q, factory, denom):
    """the factory's decimals of a denomination"""
    return S.smart(factory.txt(), {"native_token_decimals": {"denom": sp.s(denom.txt())}}, "haloswap::factory::NativeTokenDecimalsResponse").decimals


@con("haloswap::querier::query_pair_info")
def f(S, q, factory, infos):
    """the factory's pair of the two assets"""
    return S.smart(factory.txt(), {"pair": {"asset_infos": [info_tree(info_of(S, infos[i])) for i in (0, 1)]}}, "haloswap::asset::PairInfo")


@con("haloswap::querier::query_pair_info_from_pair")
def f(S, q, pair):
    """the pair's own record"""
    return S.smart(pair.txt(), {"pair": {}}, "haloswap::asset::PairInfo")


@con("haloswap::querier::simulate")
def f(S, q, pair, asset):
    """the pair's quote"""
    return S.smart(pair.txt(), {"simulation": {"offer_asset": asset.tree()}}, "haloswap::pair::SimulationResponse")


@con("haloswap::querier::reverse_simulate")
def f(S, q, pair, asset):
    """the pair's reverse quote"""
    return S.smart(pair.txt(), {"reverse_simulation": {"ask_asset": asset.tree()}}, "haloswap::pair::ReverseSimulationResponse")


@con("haloswap::router::SwapOperation::get_target_asset_info")
def f(S, op):
    """the asked asset"""
    return op.ask_asset_info


# ---------------------------------------------------------------- pair arithmetic
@con("halo_pair::contract::compute_swap")
def f(S, X, Y, a):
    """(gross - commission, spread, commission), aborting on X = 0 or a spread outside 128 bits"""
    return swap_amounts(S, X.num(), Y.num(), a.num())


@con("halo_pair::contract::assert_max_spread")
def f(S, belief, mx, offer, ret, spread, od, ad):
    """accepts iff within the limit (see C04)"""
    b, m = belief.opt(), mx.opt()
    spread_check(S, b and b.num(), m and m.num(), offer.amount.num(), ret.amount.num(), spread.num(), od.v, ad.v)


@con("halo_pair::contract::assert_slippage_tolerance")
def f(S, t, d, pools):
    """accepts iff within the tolerance (see C07)"""
    t = t.opt()
    if t is not None:
        slippage_check(S, t.num(), [d[i].num() for i in (0, 1)], [pools[i].amount.num() for i in (0, 1)])
