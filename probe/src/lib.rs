//! Roots: one wrapper per public operation whose MIR the verifier needs. They contain no logic.
#![allow(clippy::all)]
#![feature(allocator_api, try_trait_v2)]
pub mod models;
pub mod text;
use bignumber::{Decimal256, Uint256};
use bigint::U256;
use cosmwasm_std::*;
use std::convert::TryFrom;
use std::str::FromStr;

pub fn root_pair_instantiate(d: DepsMut, e: Env, i: MessageInfo, m: haloswap::pair::InstantiateMsg) -> bool { halo_pair::contract::instantiate(d, e, i, m).is_ok() }
pub fn root_pair_execute(d: DepsMut, e: Env, i: MessageInfo, m: haloswap::pair::ExecuteMsg) -> bool { halo_pair::contract::execute(d, e, i, m).is_ok() }
pub fn root_pair_reply(d: DepsMut, e: Env, m: Reply) -> bool { halo_pair::contract::reply(d, e, m).is_ok() }
pub fn root_pair_query(d: Deps, e: Env, m: haloswap::pair::QueryMsg) -> bool { halo_pair::contract::query(d, e, m).is_ok() }
pub fn root_pair_migrate(d: DepsMut, e: Env, m: haloswap::pair::MigrateMsg) -> bool { halo_pair::contract::migrate(d, e, m).is_ok() }

pub fn root_factory_instantiate(d: DepsMut, e: Env, i: MessageInfo, m: haloswap::factory::InstantiateMsg) -> bool { halo_factory::contract::instantiate(d, e, i, m).is_ok() }
pub fn root_factory_execute(d: DepsMut, e: Env, i: MessageInfo, m: haloswap::factory::ExecuteMsg) -> bool { halo_factory::contract::execute(d, e, i, m).is_ok() }
pub fn root_factory_reply(d: DepsMut, e: Env, m: Reply) -> bool { halo_factory::contract::reply(d, e, m).is_ok() }
pub fn root_factory_query(d: Deps, e: Env, m: haloswap::factory::QueryMsg) -> bool { halo_factory::contract::query(d, e, m).is_ok() }
pub fn root_factory_migrate(d: DepsMut, e: Env, m: haloswap::factory::MigrateMsg) -> bool { halo_factory::contract::migrate(d, e, m).is_ok() }

pub fn root_router_instantiate(d: DepsMut, e: Env, i: MessageInfo, m: haloswap::router::InstantiateMsg) -> bool { halo_router::contract::instantiate(d, e, i, m).is_ok() }
pub fn root_router_execute(d: DepsMut, e: Env, i: MessageInfo, m: haloswap::router::ExecuteMsg) -> bool { halo_router::contract::execute(d, e, i, m).is_ok() }
pub fn root_router_query(d: Deps, e: Env, m: haloswap::router::QueryMsg) -> bool { halo_router::contract::query(d, e, m).is_ok() }
pub fn root_router_migrate(d: DepsMut, e: Env, m: haloswap::router::MigrateMsg) -> bool { halo_router::contract::migrate(d, e, m).is_ok() }

pub fn root_token_instantiate(d: DepsMut, e: Env, i: MessageInfo, m: haloswap::token::InstantiateMsg) -> bool { halo_token::contract::instantiate(d, e, i, m).is_ok() }
pub fn root_token_execute(d: DepsMut, e: Env, i: MessageInfo, m: cw20_base::msg::ExecuteMsg) -> bool { halo_token::contract::execute(d, e, i, m).is_ok() }
pub fn root_token_query(d: Deps, e: Env, m: cw20_base::msg::QueryMsg) -> bool { halo_token::contract::query(d, e, m).is_ok() }

pub fn root_cw20_execute(d: DepsMut, e: Env, i: MessageInfo, m: cw20_base::msg::ExecuteMsg) -> bool { cw20_base::contract::execute(d, e, i, m).is_ok() }
pub fn root_cw20_query(d: Deps, e: Env, m: cw20_base::msg::QueryMsg) -> bool { cw20_base::contract::query(d, e, m).is_ok() }

macro_rules! r { ($n:ident($($a:ident: $t:ty),*) -> $o:ty = $e:expr) => { pub fn $n($($a: $t),*) -> $o { $e } } }
r!(root_bn_u_add(a: Uint256, b: Uint256) -> Uint256 = a + b);
r!(root_bn_u_addassign(a: Uint256, b: Uint256) -> Uint256 = { let mut x = a; x += b; x });
r!(root_bn_u_sub(a: Uint256, b: Uint256) -> Uint256 = a - b);
r!(root_bn_u_mul(a: Uint256, b: Uint256) -> Uint256 = a * b);
r!(root_bn_u_muldec(a: Uint256, b: Decimal256) -> Uint256 = a * b);
r!(root_bn_u_divdec(a: Uint256, b: Decimal256) -> Uint256 = a / b);
r!(root_bn_u_multiply_ratio(a: Uint256, b: Uint256, c: Uint256) -> Uint256 = a.multiply_ratio(b, c));
r!(root_bn_u_is_zero(a: Uint256) -> bool = a.is_zero());
r!(root_bn_u_zero() -> Uint256 = Uint256::zero());
r!(root_bn_u_one() -> Uint256 = Uint256::one());
r!(root_bn_u_from_u256(a: U256) -> Uint256 = Uint256::from(a));
r!(root_bn_u_into_u256(a: Uint256) -> U256 = U256::from(a));
r!(root_bn_u_from_u128(a: u128) -> Uint256 = Uint256::from(a));
r!(root_bn_u_from_uint128(a: Uint128) -> Uint256 = Uint256::from(a));
r!(root_bn_u_from_u64(a: u64) -> Uint256 = Uint256::from(a));
r!(root_bn_u_into_u128(a: Uint256) -> u128 = u128::from(a));
r!(root_bn_u_into_uint128(a: Uint256) -> Uint128 = Uint128::from(a));
r!(root_bn_u_into_string(a: Uint256) -> String = String::from(a));
r!(root_bn_u_to_string(a: Uint256) -> String = a.to_string());
r!(root_bn_u_from_str(a: &str) -> StdResult<Uint256> = Uint256::from_str(a));
r!(root_bn_u_try_from(a: &str) -> StdResult<Uint256> = Uint256::try_from(a));
r!(root_bn_u_cmp(a: Uint256, b: Uint256) -> bool = a < b);
r!(root_bn_u_eq(a: Uint256, b: Uint256) -> bool = a == b);
r!(root_bn_d_add(a: Decimal256, b: Decimal256) -> Decimal256 = a + b);
r!(root_bn_d_addassign(a: Decimal256, b: Decimal256) -> Decimal256 = { let mut x = a; x += b; x });
r!(root_bn_d_sub(a: Decimal256, b: Decimal256) -> Decimal256 = a - b);
r!(root_bn_d_mul(a: Decimal256, b: Decimal256) -> Decimal256 = a * b);
r!(root_bn_d_div(a: Decimal256, b: Decimal256) -> Decimal256 = a / b);
r!(root_bn_d_mulu(a: Decimal256, b: Uint256) -> Uint256 = a * b);
r!(root_bn_d_from_ratio(a: Uint256, b: Uint256) -> Decimal256 = Decimal256::from_ratio(a, b));
r!(root_bn_d_from_uint256(a: Uint256) -> Decimal256 = Decimal256::from_uint256(a));
r!(root_bn_d_percent(a: u64) -> Decimal256 = Decimal256::percent(a));
r!(root_bn_d_permille(a: u64) -> Decimal256 = Decimal256::permille(a));
r!(root_bn_d_is_zero(a: Decimal256) -> bool = a.is_zero());
r!(root_bn_d_zero() -> Decimal256 = Decimal256::zero());
r!(root_bn_d_one() -> Decimal256 = Decimal256::one());
r!(root_bn_d_from_decimal(a: Decimal) -> Decimal256 = Decimal256::from(a));
r!(root_bn_d_into_decimal(a: Decimal256) -> Decimal = Decimal::from(a));
r!(root_bn_d_to_string(a: Decimal256) -> String = a.to_string());
r!(root_bn_d_from_str(a: &str) -> StdResult<Decimal256> = Decimal256::from_str(a));
r!(root_bn_d_cmp(a: Decimal256, b: Decimal256) -> bool = a < b);
r!(root_bn_d_eq(a: Decimal256, b: Decimal256) -> bool = a == b);
r!(root_bn_d_round_trip(a: Decimal256) -> StdResult<Decimal256> = Decimal256::from_str(&a.to_string()));
r!(root_bn_u_round_trip(a: Uint256) -> StdResult<Uint256> = Uint256::from_str(&a.to_string()));
r!(root_bn_d_written(a: Decimal256) -> Result<String, text::Refused> = serde::Serialize::serialize(&a, text::Written));
r!(root_bn_u_written(a: Uint256) -> Result<String, text::Refused> = serde::Serialize::serialize(&a, text::Written));
r!(root_bn_d_read(a: &str) -> Result<Decimal256, text::Refused> = serde::Deserialize::deserialize(text::Text(a)));
r!(root_bn_u_read(a: &str) -> Result<Uint256, text::Refused> = serde::Deserialize::deserialize(text::Text(a)));
