//! Runs one entry point of the real contracts per input line (JSON scenario) and prints the outcome (JSON).
use bigint::U256;
use bignumber::{Decimal256, Uint256};
use cosmwasm_std::*;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

#[derive(Default)]
struct Store(BTreeMap<Vec<u8>, Vec<u8>>);
impl Storage for Store {
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> { self.0.get(k).cloned() }
    fn set(&mut self, k: &[u8], v: &[u8]) { self.0.insert(k.to_vec(), v.to_vec()); }
    fn remove(&mut self, k: &[u8]) { self.0.remove(k); }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        let s = start.map(|x| x.to_vec());
        let e = end.map(|x| x.to_vec());
        let mut v: Vec<Record> = self.0.iter()
            .filter(|(k, _)| s.as_ref().map_or(true, |s| *k >= s) && e.as_ref().map_or(true, |e| *k < e))
            .map(|(k, v)| (k.clone(), v.clone())).collect();
        if matches!(order, Order::Descending) { v.reverse(); }
        Box::new(v.into_iter())
    }
}

/// addresses: 3 to 44 bytes without spaces, case-insensitive, normal form lower case, canonical form reversed
struct A;
impl Api for A {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        let c = self.addr_canonicalize(human)?;
        let h = self.addr_humanize(&c)?;
        if h.as_str() != human { return Err(StdError::generic_err("not normalized")); }
        Ok(h)
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        if human.len() < 3 || human.len() > 44 || human.contains(' ') { return Err(StdError::generic_err("bad address")); }
        let mut b = human.to_lowercase().into_bytes();
        b.reverse();
        Ok(CanonicalAddr::from(b))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        let mut b = c.as_slice().to_vec();
        b.reverse();
        let s = String::from_utf8(b).map_err(|_| StdError::generic_err("bad canonical address"))?;
        if s.len() < 3 || s.len() > 44 || s.contains(' ') || s.to_lowercase() != s { return Err(StdError::generic_err("bad canonical address")); }
        Ok(Addr::unchecked(s))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> { unimplemented!() }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> { unimplemented!() }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> { unimplemented!() }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> { unimplemented!() }
    fn debug(&self, _: &str) {}
}

/// answers from a table keyed by the request with embedded messages decoded
struct Q { table: Map<String, Value>, log: RefCell<Vec<String>> }
fn sorted(v: &Value) -> Value {
    match v {
        Value::Object(m) => { let mut k: Vec<_> = m.keys().collect(); k.sort(); let mut o = Map::new(); for x in k { o.insert(x.clone(), sorted(&m[x])); } Value::Object(o) }
        Value::Array(a) => Value::Array(a.iter().map(sorted).collect()),
        x => x.clone(),
    }
}
fn key_of(req: &[u8]) -> String {
    let mut v: Value = serde_json::from_slice(req).unwrap_or(Value::Null);
    if let Some(m) = v.pointer("/wasm/smart/msg").and_then(|m| m.as_str()) {
        let b = Binary::from_base64(m).unwrap();
        let inner: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
        *v.pointer_mut("/wasm/smart/msg").unwrap() = inner;
    }
    sorted(&v).to_string()
}
impl Querier for Q {
    fn raw_query(&self, req: &[u8]) -> QuerierResult {
        let k = key_of(req);
        self.log.borrow_mut().push(k.clone());
        match self.table.get(&k) {
            Some(v) => SystemResult::Ok(ContractResult::Ok(Binary::from(v.to_string().into_bytes()))),
            None => SystemResult::Ok(ContractResult::Err("no answer".into())),
        }
    }
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

fn resp<E: std::fmt::Display>(r: Result<Response, E>) -> Value {
    match r { Ok(r) => json!({"ok": serde_json::to_value(&r).unwrap()}), Err(e) => json!({"err": e.to_string()}) }
}
fn qresp<E: std::fmt::Display>(r: Result<Binary, E>) -> Value {
    match r { Ok(b) => json!({"ok": b.to_base64()}), Err(e) => json!({"err": e.to_string()}) }
}
macro_rules! msg { ($s:expr) => { match from_slice(&$s["msg"].to_string().into_bytes()) { Ok(m) => m, Err(e) => return json!({"badmsg": e.to_string()}) } } }

fn run(s: &Value, st: &mut Store, q: &Q) -> Value {
    let env: Env = serde_json::from_value(s["env"].clone()).unwrap();
    let info: MessageInfo = serde_json::from_value(s["info"].clone()).unwrap_or(MessageInfo { sender: Addr::unchecked("none"), funds: vec![] });
    let api = A;
    macro_rules! dm { () => { DepsMut { storage: st, api: &api, querier: QuerierWrapper::new(q) } } }
    macro_rules! d { () => { Deps { storage: st, api: &api, querier: QuerierWrapper::new(q) } } }
    let c = s["contract"].as_str().unwrap();
    let e = s["entry"].as_str().unwrap();
    match (c, e) {
        ("pair", "instantiate") => resp(halo_pair::contract::instantiate(dm!(), env, info, msg!(s))),
        ("pair", "execute") => resp(halo_pair::contract::execute(dm!(), env, info, msg!(s))),
        ("pair", "reply") => resp(halo_pair::contract::reply(dm!(), env, msg!(s))),
        ("pair", "migrate") => resp(halo_pair::contract::migrate(dm!(), env, msg!(s))),
        ("pair", "query") => qresp(halo_pair::contract::query(d!(), env, msg!(s))),
        ("factory", "instantiate") => resp(halo_factory::contract::instantiate(dm!(), env, info, msg!(s))),
        ("factory", "execute") => resp(halo_factory::contract::execute(dm!(), env, info, msg!(s))),
        ("factory", "reply") => resp(halo_factory::contract::reply(dm!(), env, msg!(s))),
        ("factory", "migrate") => resp(halo_factory::contract::migrate(dm!(), env, msg!(s))),
        ("factory", "query") => qresp(halo_factory::contract::query(d!(), env, msg!(s))),
        ("router", "instantiate") => resp(halo_router::contract::instantiate(dm!(), env, info, msg!(s))),
        ("router", "execute") => resp(halo_router::contract::execute(dm!(), env, info, msg!(s))),
        ("router", "migrate") => resp(halo_router::contract::migrate(dm!(), env, msg!(s))),
        ("router", "query") => qresp(halo_router::contract::query(d!(), env, msg!(s))),
        ("token", "instantiate") => resp(halo_token::contract::instantiate(dm!(), env, info, msg!(s))),
        ("token", "execute") => resp(halo_token::contract::execute(dm!(), env, info, msg!(s))),
        ("token", "query") => qresp(halo_token::contract::query(d!(), env, msg!(s))),
        ("cw20", "execute") => resp(cw20_base::contract::execute(dm!(), env, info, msg!(s))),
        ("cw20", "query") => qresp(cw20_base::contract::query(d!(), env, msg!(s))),
        ("cw20", "instantiate") => resp(cw20_base::contract::instantiate(dm!(), env, info, msg!(s))),
        x => panic!("entry {:?}", x),
    }
}

fn bn(s: &Value) -> Value {
    let a: Vec<String> = s["args"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let n = |i: usize| U256::from_dec_str(&a[i]).unwrap();
    let u = |i: usize| Uint256(n(i));
    let d = |i: usize| Decimal256(n(i));
    let w = |i: usize| a[i].parse::<u128>().unwrap();
    let us = |x: Uint256| json!({"ok": x.0.to_string()});
    let ds = |x: Decimal256| json!({"ok": x.0.to_string()});
    match s["op"].as_str().unwrap() {
        "u_add" => us(u(0) + u(1)),
        "u_addassign" => { let mut x = u(0); x += u(1); us(x) }
        "u_sub" => us(u(0) - u(1)),
        "u_mul" => us(u(0) * u(1)),
        "u_muldec" => us(u(0) * d(1)),
        "u_divdec" => us(u(0) / d(1)),
        "u_multiply_ratio" => us(u(0).multiply_ratio(u(1), u(2))),
        "u_is_zero" => json!({"ok": u(0).is_zero()}),
        "u_zero" => us(Uint256::zero()),
        "u_one" => us(Uint256::one()),
        "u_from_u128" => us(Uint256::from(w(0))),
        "u_from_uint128" => us(Uint256::from(Uint128::new(w(0)))),
        "u_from_u64" => us(Uint256::from(w(0) as u64)),
        "u_from_u256" => us(Uint256::from(n(0))),
        "u_into_u256" => json!({"ok": U256::from(u(0)).to_string()}),
        "u_into_u128" => json!({"ok": u128::from(u(0)).to_string()}),
        "u_into_uint128" => json!({"ok": Uint128::from(u(0)).to_string()}),
        "u_into_string" => json!({"ok": String::from(u(0))}),
        "u_to_string" => json!({"ok": u(0).to_string()}),
        "u_from_str" => match Uint256::from_str(&a[0]) { Ok(x) => us(x), Err(e) => json!({"err": e.to_string()}) },
        "u_try_from" => match Uint256::try_from(a[0].as_str()) { Ok(x) => us(x), Err(e) => json!({"err": e.to_string()}) },
        "u_lt" => json!({"ok": u(0) < u(1)}),
        "u_eq" => json!({"ok": u(0) == u(1)}),
        "d_add" => ds(d(0) + d(1)),
        "d_addassign" => { let mut x = d(0); x += d(1); ds(x) }
        "d_sub" => ds(d(0) - d(1)),
        "d_mul" => ds(d(0) * d(1)),
        "d_div" => ds(d(0) / d(1)),
        "d_mulu" => us(d(0) * u(1)),
        "d_from_ratio" => ds(Decimal256::from_ratio(u(0), u(1))),
        "d_from_uint256" => ds(Decimal256::from_uint256(u(0))),
        "d_percent" => ds(Decimal256::percent(w(0) as u64)),
        "d_permille" => ds(Decimal256::permille(w(0) as u64)),
        "d_is_zero" => json!({"ok": d(0).is_zero()}),
        "d_zero" => ds(Decimal256::zero()),
        "d_one" => ds(Decimal256::one()),
        "d_from_decimal" => ds(Decimal256::from(Decimal::new(Uint128::new(w(0))))),
        "d_into_decimal" => json!({"ok": Decimal::from(d(0)).atomics().to_string()}),
        "u_written" => serde_json::to_value(u(0)).map(|x| json!({"ok": x})).unwrap_or(json!({"err": ""})),
        "d_written" => serde_json::to_value(d(0)).map(|x| json!({"ok": x})).unwrap_or(json!({"err": ""})),
        "u_read" => match serde_json::from_value::<Uint256>(json!(a[0])) { Ok(x) => us(x), Err(_) => json!({"err": ""}) },
        "d_read" => match serde_json::from_value::<Decimal256>(json!(a[0])) { Ok(x) => ds(x), Err(_) => json!({"err": ""}) },
        "d_to_string" => json!({"ok": d(0).to_string()}),
        "d_from_str" => match Decimal256::from_str(&a[0]) { Ok(x) => ds(x), Err(e) => json!({"err": e.to_string()}) },
        "d_lt" => json!({"ok": d(0) < d(1)}),
        "d_eq" => json!({"ok": d(0) == d(1)}),
        x => panic!("op {}", x),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue; }
        let s: Value = serde_json::from_str(&line).unwrap();
        let r = if s["contract"] == "bn" {
            catch_unwind(AssertUnwindSafe(|| bn(&s))).unwrap_or_else(|_| json!({"panic": true}))
        } else {
            let mut st = Store::default();
            for kv in s["storage"].as_array().map(|x| x.as_slice()).unwrap_or(&[]) {
                st.0.insert(unhex(kv[0].as_str().unwrap()), unhex(kv[1].as_str().unwrap()));
            }
            let q = Q { table: s["queries"].as_object().cloned().unwrap_or_default(), log: RefCell::new(vec![]) };
            let mut r = catch_unwind(AssertUnwindSafe(|| run(&s, &mut st, &q))).unwrap_or_else(|_| json!({"panic": true}));
            r["storage"] = Value::Array(st.0.iter().map(|(k, v)| json!([hex(k), hex(v)])).collect());
            r["queries"] = json!(*q.log.borrow());
            r
        };
        writeln!(out, "{}", r).unwrap();
        if s["flush"] == json!(true) { out.flush().unwrap(); }
    }
}
