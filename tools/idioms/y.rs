use cosmwasm_std::*;
use cw20::*;
use cw_storage_plus::{Item, Map, Bound};
use haloswap::asset::*;
use haloswap::pair::*;
use haloswap::querier::*;
use halo_factory::state as fs;
use halo_pair::state as ps;
use halo_router::state as rs;
type R = StdResult<Response>;
macro_rules! j { ($($n:ident($($a:ident: $t:ty),*) -> $r:ty = $e:expr;)*) => { $(pub fn $n($($a: $t),*) -> $r { $e })* } }
const N: Item<Uint128> = Item::new("nn");
const M: Map<&[u8], Uint128> = Map::new("mm");
const MS: Map<String, u8> = Map::new("ms");
const MA: Map<&Addr, Uint128> = Map::new("ma");
const M2: Map<(&str, u8), bool> = Map::new("m2");
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)] pub struct Loc { pub a: Uint128, pub b: Option<String>, pub c: Vec<u8> }
const L: Item<Loc> = Item::new("loc");
j! {
root_y_item_save(deps: DepsMut, x: Uint128) -> R = { N.save(deps.storage, &x)?; Ok(Response::new()) };
root_y_item_update(deps: DepsMut) -> R = { N.update(deps.storage, |x| -> StdResult<_> { Ok(x.checked_add(Uint128::from(1u8))?) })?; Ok(Response::default()) };
root_y_item_update2(deps: DepsMut) -> R = { let v = fs::CONFIG.update(deps.storage, |mut c| -> StdResult<_> { c.pair_code_id = 5; Ok(c) })?; Ok(Response::new().add_attribute("x", v.token_code_id.to_string())) };
root_y_item_mayload(deps: DepsMut) -> R = { let x = N.may_load(deps.storage)?.unwrap_or_default(); Ok(Response::new().add_attribute("x", x)) };
root_y_item_remove(deps: DepsMut) -> R = { N.remove(deps.storage); Ok(Response::new()) };
root_y_map_update(deps: DepsMut, k: String) -> R = { M.update(deps.storage, k.as_bytes(), |o| -> StdResult<_> { Ok(o.unwrap_or_default() + Uint128::one()) })?; Ok(Response::new()) };
root_y_map_has(deps: DepsMut, k: String) -> R = { if M.has(deps.storage, k.as_bytes()) { M.remove(deps.storage, k.as_bytes()); } Ok(Response::new()) };
root_y_map_key(deps: DepsMut, k: String) -> R = { M.key(k.as_bytes()).save(deps.storage, &Uint128::zero())?; Ok(Response::new()) };
root_y_map_string(deps: DepsMut, k: String) -> R = { MS.save(deps.storage, k.clone(), &3)?; let x = MS.load(deps.storage, k)?; Ok(Response::new().add_attribute("x", x.to_string())) };
root_y_map_addr(deps: DepsMut, i: MessageInfo) -> R = { let x = MA.may_load(deps.storage, &i.sender)?.unwrap_or_default(); MA.save(deps.storage, &i.sender, &(x + Uint128::new(1)))?; Ok(Response::new()) };
root_y_map_tuple(deps: DepsMut, k: String) -> R = { M2.save(deps.storage, (k.as_str(), 3), &true)?; Ok(Response::new()) };
root_y_loc(deps: DepsMut) -> R = { let mut l = L.load(deps.storage)?; l.a += Uint128::one(); l.b = l.b.map(|x| x + "z"); L.save(deps.storage, &l)?; Ok(Response::new()) };
root_y_pairs_range(deps: Deps) -> StdResult<Vec<PairInfo>> = fs::PAIRS.range(deps.storage, None, None, Order::Ascending).take(3).map(|i| { let (_, v) = i?; v.to_normal(deps.api) }).collect();
root_y_pairs_range2(deps: Deps, l: u32) -> StdResult<Vec<PairInfo>> = { let mut o = vec![]; for i in fs::PAIRS.range(deps.storage, None, None, Order::Ascending).take(l as usize) { let (_, v) = i?; o.push(v.to_normal(deps.api)?); } Ok(o) };
root_y_pairs_first(deps: Deps) -> StdResult<bool> = Ok(fs::PAIRS.range(deps.storage, None, None, Order::Ascending).next().is_none());
root_y_pairs_empty(deps: Deps) -> StdResult<bool> = Ok(fs::PAIRS.is_empty(deps.storage));
root_y_resp_msgs(deps: DepsMut, a: Addr, x: Uint128) -> R = Ok(Response::new().add_message(BankMsg::Send { to_address: a.to_string(), amount: coins(x.u128(), "uusd") }).add_message(WasmMsg::Execute { contract_addr: a.into(), msg: to_binary(&Cw20ExecuteMsg::Burn { amount: x })?, funds: vec![] }));
root_y_resp_addmsgs(a: Addr, x: Uint128) -> R = { let mut m: Vec<CosmosMsg> = Vec::with_capacity(2); m.push(BankMsg::Burn { amount: vec![coin(x.u128(), "z")] }.into()); m.push(CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: a.to_string(), new_code_id: 5, msg: Binary::default() })); Ok(Response::new().add_messages(m)) };
root_y_resp_sub(a: Addr, x: Uint128) -> R = Ok(Response::new().add_submessage(SubMsg::reply_on_success(wasm_execute(a, &Cw20ExecuteMsg::Burn { amount: x }, vec![])?, 3)));
root_y_resp_sub2(a: Addr, x: Uint128) -> R = Ok(Response::new().add_submessages(vec![SubMsg::new(BankMsg::Send { to_address: a.into_string(), amount: vec![Coin::new(x.u128(), "a")] }), SubMsg::reply_always(BankMsg::Burn { amount: vec![] }, 1).with_gas_limit(5)]));
root_y_resp_inst(a: String, x: Binary) -> R = Ok(Response::new().add_submessage(SubMsg::reply_on_error(wasm_instantiate(5, &Empty {}, vec![], a)?, 7)).set_data(x));
root_y_resp_event(a: Addr) -> R = Ok(Response::new().add_event(Event::new("x").add_attribute("a", a)).add_attributes(vec![attr("k", "v"), ("c", "d").into()]));
root_y_resp_attrs2(a: Addr, x: Uint128) -> R = Ok(Response::new().add_attributes([("k", a.as_str()), ("x", &x.to_string())]));
root_y_resp_attrs3(a: Vec<Attribute>) -> R = { let mut r = Response::new(); for x in a { r = r.add_attribute(x.key, x.value); } Ok(r) };
root_y_resp_fieldpush(a: Addr) -> R = { let mut r: Response = Response::new(); r.attributes.push(attr("a", a)); r.messages.push(SubMsg::new(BankMsg::Burn { amount: vec![] })); Ok(r) };
root_y_ensure(i: MessageInfo) -> R = { ensure!(i.funds.is_empty(), StdError::generic_err("funds")); ensure_eq!(i.sender.as_str(), "x", StdError::generic_err("s")); ensure_ne!(i.sender, "y", StdError::generic_err("t")); Ok(Response::new()) };
root_y_funds_find(i: MessageInfo, d: String) -> StdResult<Uint128> = Ok(i.funds.iter().find(|c| c.denom == d).map(|c| c.amount).unwrap_or_default());
root_y_funds_filter(i: MessageInfo, d: String) -> StdResult<Uint128> = Ok(i.funds.iter().filter(|c| c.denom == d).map(|c| c.amount).next().unwrap_or_else(Uint128::zero));
root_y_funds_any(i: MessageInfo, d: String) -> bool = i.funds.iter().any(|c| c.denom == d && !c.amount.is_zero());
root_y_funds_all(i: MessageInfo, d: String) -> bool = i.funds.iter().all(|c| c.denom != d);
root_y_funds_has(i: MessageInfo) -> bool = has_coins(&i.funds, &coin(5, "x"));
root_y_funds_loop(i: MessageInfo, d: String) -> Uint128 = { for c in &i.funds { if c.denom == d { return c.amount; } } Uint128::zero() };
root_y_funds_loop2(i: MessageInfo, d: String) -> Uint128 = { let mut r = Uint128::zero(); for c in i.funds.iter() { if c.denom == d { r = c.amount; break; } } r };
root_y_funds_loop3(i: MessageInfo, d: String) -> Uint128 = { let mut r = None; let mut k = 0; while k < i.funds.len() { if i.funds[k].denom == d { r = Some(i.funds[k].amount); break; } k += 1; } r.unwrap_or_default() };
root_y_funds_findmap(i: MessageInfo, d: String) -> Uint128 = i.funds.iter().find_map(|c| if c.denom == d { Some(c.amount) } else { None }).unwrap_or_default();
root_y_funds_pos(i: MessageInfo, d: String) -> Uint128 = match i.funds.iter().position(|c| c.denom == d) { Some(k) => i.funds[k].amount, None => Uint128::zero() };
root_y_funds_match(i: MessageInfo) -> StdResult<Coin> = match i.funds.as_slice() { [] => Err(StdError::generic_err("none")), [c] => Ok(c.clone()), _ => Err(StdError::generic_err("many")) };
root_y_funds_len(i: MessageInfo) -> bool = i.funds.len() == 1 && i.funds[0].denom == "uusd";
root_y_funds_first(i: MessageInfo) -> Option<String> = i.funds.first().map(|c| c.denom.clone());
root_y_funds_into(i: MessageInfo, d: String) -> Option<Coin> = i.funds.into_iter().find(|c| c.denom == d);
root_y_funds_cloned(i: MessageInfo, d: String) -> Option<Coin> = i.funds.iter().cloned().find(|c| c.denom == d);
root_y_funds_map_any(i: MessageInfo, d: String) -> bool = i.funds.iter().map(|c| &c.denom).any(|x| x == &d);
root_y_funds_trycase(i: MessageInfo, d: String) -> StdResult<()> = { if let Some(c) = i.funds.iter().find(|c| c.denom == d) { if c.amount.is_zero() { return Err(StdError::generic_err("z")); } } else { return Err(StdError::generic_err("n")); } Ok(()) };
root_y_q_balance(deps: Deps, a: Addr) -> StdResult<Uint128> = Ok(deps.querier.query_balance(a, "uusd")?.amount);
root_y_q_all(deps: Deps, a: Addr) -> StdResult<Vec<Coin>> = deps.querier.query_all_balances(a);
root_y_q_smart(deps: Deps, a: Addr, b: Addr) -> StdResult<Uint128> = { let r: cw20::BalanceResponse = deps.querier.query_wasm_smart(a, &Cw20QueryMsg::Balance { address: b.to_string() })?; Ok(r.balance) };
root_y_q_smart2(deps: Deps, a: Addr) -> StdResult<Uint128> = { let r: TokenInfoResponse = deps.querier.query(&WasmQuery::Smart { contract_addr: a.to_string(), msg: to_binary(&Cw20QueryMsg::TokenInfo {})? }.into())?; Ok(r.total_supply) };
root_y_q_smart3(deps: Deps, a: Addr) -> StdResult<u8> = Ok(deps.querier.query::<TokenInfoResponse>(&QueryRequest::Wasm(WasmQuery::Smart { contract_addr: a.to_string(), msg: to_binary(&Cw20QueryMsg::TokenInfo {})? }))?.decimals);
root_y_q_helper(deps: Deps, a: Addr, b: Addr) -> StdResult<Uint128> = Cw20Contract(a).balance(&deps.querier, b);
root_y_q_helper2(deps: Deps, a: Addr) -> StdResult<u8> = Ok(Cw20Contract(a).meta(&deps.querier)?.decimals);
root_y_q_helper3(a: Addr, x: Uint128, b: String) -> StdResult<CosmosMsg> = Cw20Contract(a).call(Cw20ExecuteMsg::Transfer { recipient: b, amount: x });
root_y_q_contractinfo(deps: Deps, a: Addr) -> bool = deps.querier.query_wasm_contract_info(a).is_ok();
root_y_q_raw(deps: Deps, a: Addr) -> StdResult<bool> = Ok(deps.querier.query_wasm_raw(a, b"config".to_vec())?.is_some());
root_y_q_okmatch(deps: Deps, a: Addr) -> u8 = match deps.querier.query_wasm_smart::<TokenInfoResponse>(a, &Cw20QueryMsg::TokenInfo {}) { Ok(r) => r.decimals, Err(_) => 6 };
root_y_q_unwrapor(deps: Deps, a: Addr) -> u8 = query_token_info(&deps.querier, a).map(|r| r.decimals).unwrap_or(0);
root_y_api_validate(deps: Deps, s: String) -> StdResult<Addr> = deps.api.addr_validate(&s);
root_y_api_opt(deps: Deps, s: Option<String>, i: MessageInfo) -> StdResult<Addr> = { let t = s.map(|x| deps.api.addr_validate(&x)).transpose()?; Ok(t.unwrap_or(i.sender)) };
root_y_api_opt2(deps: Deps, s: Option<String>, i: MessageInfo) -> StdResult<Addr> = Ok(match s { Some(x) => deps.api.addr_validate(x.as_str())?, None => i.sender });
root_y_api_opt3(deps: Deps, s: Option<String>) -> StdResult<Option<Addr>> = cw_utils::maybe_addr(deps.api, s);
root_y_api_lower(deps: Deps, s: String) -> StdResult<Addr> = deps.api.addr_validate(&s.to_lowercase());
root_y_api_canon(deps: Deps, s: String) -> StdResult<Addr> = { let c = deps.api.addr_canonicalize(&s)?; deps.api.addr_humanize(&c) };
root_y_json_from(b: Binary) -> StdResult<Uint128> = Ok(match from_binary(&b)? { Cw20ExecuteMsg::Burn { amount } => amount, Cw20ExecuteMsg::Transfer { amount, .. } => amount, _ => Uint128::zero() });
root_y_json_hook(b: Binary) -> StdResult<u8> = Ok(match from_binary(&b) { Ok(Cw20HookMsg::Swap { .. }) => 1, Ok(Cw20HookMsg::WithdrawLiquidity {}) => 2, Err(e) => return Err(e) });
root_y_json_slice(b: Binary) -> StdResult<Cw20HookMsg> = from_slice(b.as_slice());
root_y_json_slice2(b: Binary) -> StdResult<Cw20HookMsg> = from_slice(&b);
root_y_json_vec(a: Uint128) -> StdResult<Vec<u8>> = to_vec(&Cw20ExecuteMsg::Burn { amount: a });
root_y_b64(b: Binary) -> String = b.to_base64();
root_y_b64f(b: String) -> StdResult<Binary> = Binary::from_base64(&b);
root_y_u_ratio(a: Uint128, b: Uint128) -> Uint128 = a.multiply_ratio(b, 7u128);
root_y_u_ratio2(a: Uint128, b: Uint128) -> StdResult<Uint128> = a.checked_multiply_ratio(b, Uint128::new(9)).map_err(|e| StdError::generic_err(e.to_string()));
root_y_u_full(a: Uint128, b: Uint128) -> StdResult<Uint128> = Ok(Uint128::try_from(a.full_mul(b) / Uint256::from(5u8))?);
root_y_u_full2(a: Uint128, b: Uint128) -> bool = a.full_mul(b) > b.full_mul(b);
root_y_u_abs(a: Uint128, b: Uint128) -> Uint128 = a.abs_diff(b);
root_y_u_isqrt(a: Uint128) -> Uint128 = a.isqrt();
root_y_u_decimal(a: Uint128, b: Uint128) -> StdResult<Decimal> = Decimal::checked_from_ratio(a, b).map_err(|_| StdError::generic_err("x"));
root_y_u_decmul(a: Uint128, d: Decimal) -> Uint128 = a * d;
root_y_u_dec1(d: Decimal) -> bool = d > Decimal::percent(5) && d <= Decimal::one();
root_y_u_decsub(d: Decimal) -> StdResult<Decimal> = Decimal::one().checked_sub(d).map_err(StdError::overflow);
root_y_u_atom(d: Decimal) -> Uint128 = d.atomics() / Uint128::new(10);
root_y_u_sum(a: [Uint128; 2]) -> Uint128 = a.iter().sum();
root_y_u_shr(a: Uint128) -> Uint128 = a >> 1;
root_y_u_rem(a: Uint128) -> Uint128 = a % Uint128::new(7);
root_y_u_pow(a: Uint128) -> Uint128 = a.pow(2);
root_y_u_addass(a: Uint128) -> Uint128 = { let mut b = a; b += Uint128::one(); b -= Uint128::one(); b *= Uint128::new(2); b /= Uint128::new(2); b };
root_y_u_cmp(a: Uint128, b: Uint128) -> Uint128 = match a.cmp(&b) { std::cmp::Ordering::Less => a, _ => b };
root_y_cw2(deps: DepsMut) -> R = { cw2::set_contract_version(deps.storage, "a", "b")?; let v = cw2::get_contract_version(deps.storage)?; if v.contract != "a" { return Err(StdError::generic_err("x")); } Ok(Response::new()) };
root_y_reply(deps: DepsMut, r: Reply) -> R = { let x = cw_utils::parse_reply_instantiate_data(r).map_err(|e| StdError::parse_err("r", e.to_string()))?; N.save(deps.storage, &Uint128::new(x.contract_address.len() as u128))?; Ok(Response::new()) };
root_y_reply2(r: Reply) -> StdResult<String> = match r.result { SubMsgResult::Ok(x) => Ok(x.events.len().to_string()), SubMsgResult::Err(e) => Err(StdError::generic_err(e)) };
root_y_must_pay(i: MessageInfo) -> StdResult<Uint128> = cw_utils::must_pay(&i, "uusd").map_err(|e| StdError::generic_err(e.to_string()));
root_y_nonpay(i: MessageInfo) -> StdResult<()> = cw_utils::nonpayable(&i).map_err(|e| StdError::generic_err(e.to_string()));
root_y_onecoin(i: MessageInfo) -> StdResult<Coin> = cw_utils::one_coin(&i).map_err(|e| StdError::generic_err(e.to_string()));
root_y_asref(deps: DepsMut) -> R = { let mut deps = deps; let x = N.load(deps.as_ref().storage)?; N.save(deps.branch().storage, &x)?; let d = deps; N.save(d.storage, &Uint128::zero())?; Ok(Response::new()) };
root_y_env(e: Env) -> bool = e.block.time.seconds() < 100 && e.block.height % 2 == 0 && e.contract.address == "x" && e.block.time.plus_seconds(5) > e.block.time;
root_y_exp(e: Env, x: Option<u64>) -> StdResult<()> = { if let Some(d) = x { if e.block.time.seconds() >= d { return Err(StdError::generic_err("exp")); } } Ok(()) };
root_y_exp2(e: Env, x: Expiration) -> bool = x.is_expired(&e.block);
root_y_errs(a: u8) -> R = match a { 0 => Err(StdError::not_found("x")), 1 => Err(StdError::generic_err(format!("a {}", a))), 2 => Err(StdError::invalid_utf8("z")), 3 => Err(OverflowError::new(OverflowOperation::Add, a, 2).into()), 4 => Err(StdError::from(DivideByZeroError::new(5))), 5 => Err(ConversionOverflowError::new("a", "b", "c").into()), _ => Ok(Response::new()) };
root_y_asset_msg(x: Asset, a: Addr) -> StdResult<Vec<CosmosMsg>> = { let mut v = vec![]; if !x.amount.is_zero() { v.push(x.into_msg(a)?); } Ok(v) };
root_y_asset_arr(a: AssetInfo, b: AssetInfo) -> bool = { let l = [a, b]; l[0] == l[1] || l.iter().any(|x| x.is_native_token()) };
root_y_asset_vec(deps: Deps, a: [AssetInfo; 2]) -> StdResult<Vec<AssetInfoRaw>> = a.iter().map(|x| x.to_raw(deps.api)).collect();
root_y_asset_try(deps: Deps, a: [AssetInfo; 2]) -> StdResult<[AssetInfoRaw; 2]> = Ok([a[0].to_raw(deps.api)?, a[1].to_raw(deps.api)?]);
root_y_asset_match(a: AssetInfo) -> String = match a { AssetInfo::Token { contract_addr } => contract_addr, AssetInfo::NativeToken { denom } => denom };
root_y_asset_iflet(a: &AssetInfo) -> Option<&str> = if let AssetInfo::NativeToken { denom } = a { Some(denom.as_str()) } else { None };
root_y_asset_matches(a: AssetInfo) -> bool = matches!(&a, AssetInfo::NativeToken { denom } if denom == "uusd");
root_y_asset_clonemut(x: [Asset; 2]) -> [Asset; 2] = { let mut y = x.clone(); y[0].amount = y[1].amount; y.swap(0, 1); y };
root_y_asset_itermut(x: [Asset; 2]) -> StdResult<[Asset; 2]> = { let mut y = x; for z in y.iter_mut() { z.amount = z.amount.checked_sub(Uint128::one())?; } Ok(y) };
root_y_asset_destr(x: [Asset; 2]) -> Uint128 = { let [a, b] = x; a.amount.min(b.amount) };
root_y_asset_findidx(x: [Asset; 2], i: AssetInfo) -> Option<usize> = x.iter().position(|a| a.info == i);
root_y_asset_find(x: [Asset; 2], i: AssetInfo) -> StdResult<Uint128> = x.iter().find(|a| a.info.equal(&i)).map(|a| a.amount).ok_or_else(|| StdError::generic_err("no"));
root_y_ops_last(x: Vec<haloswap::router::SwapOperation>) -> StdResult<AssetInfo> = Ok(x.last().ok_or_else(|| StdError::generic_err("none"))?.get_target_asset_info());
root_y_ops_windows(x: Vec<haloswap::router::SwapOperation>) -> bool = x.windows(2).all(|w| w[0].get_target_asset_info() == w[1].get_target_asset_info());
root_y_cfg_cmp(deps: DepsMut, i: MessageInfo) -> R = { let c = fs::CONFIG.load(deps.storage)?; if deps.api.addr_canonicalize(i.sender.as_str())? != c.owner { return Err(StdError::generic_err("unauthorized")); } Ok(Response::new()) };
root_y_cfg_hum(deps: DepsMut, i: MessageInfo) -> R = { let c = fs::CONFIG.load(deps.storage)?; if deps.api.addr_humanize(&c.owner)? != i.sender { return Err(StdError::generic_err("unauthorized")); } Ok(Response::new()) };
root_y_cfg_ps(deps: Deps) -> StdResult<PairInfo> = ps::PAIR_INFO.load(deps.storage)?.to_normal(deps.api);
root_y_cfg_rs(deps: Deps) -> StdResult<Addr> = { let c = rs::CONFIG.load(deps.storage)?; deps.api.addr_humanize(&c.halo_factory) };
root_y_str_fmt(a: Addr, x: Uint128) -> String = format!("{}-{x:>5}|{:?}|{}", a, x, &a.as_str()[..]).replace('-', "_");
root_y_str_join(a: String, b: String) -> String = [a, b].join(", ");
root_y_str_lines(a: String) -> bool = a.starts_with("ibc/") || a.contains('/') || a.is_empty();
root_y_str_eqcase(a: String, b: String) -> bool = a.eq_ignore_ascii_case(&b);
}
