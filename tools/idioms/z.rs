use cosmwasm_std::*;
use haloswap::router::SwapOperation;
use haloswap::asset::*;
use std::collections::*;
macro_rules! j { ($($n:ident($($a:ident: $t:ty),*) -> $r:ty = $e:expr;)*) => { $(pub fn $n($($a: $t),*) -> $r { $e })* } }
j! {
root_z_while_find(f: Vec<Coin>, d: String) -> Uint128 = { let mut k = 0; let mut r = Uint128::zero(); while k < f.len() { if f[k].denom == d { r = f[k].amount; break; } k += 1; } r };
root_z_while_ret(f: Vec<Coin>, d: String) -> StdResult<()> = { let mut k = 0; while k < f.len() { if f[k].denom == d { return Err(StdError::generic_err("x")); } k += 1; } Ok(()) };
root_z_while_push(f: Vec<Coin>) -> Vec<String> = { let mut k = 0; let mut r = vec![]; while k < f.len() { r.push(f[k].denom.clone()); k += 1; } r };
root_z_loop_push(f: Vec<Coin>) -> Vec<String> = { let mut k = 0; let mut r = vec![]; loop { if k >= f.len() { break; } r.push(f[k].denom.clone()); k += 1; } r };
root_z_while_let_get(f: Vec<Coin>) -> Vec<String> = { let mut k = 0; let mut r = vec![]; while let Some(c) = f.get(k) { r.push(c.denom.clone()); k += 1; } r };
root_z_range_push(f: Vec<Coin>) -> Vec<String> = { let mut r = vec![]; for k in 0..f.len() { r.push(f[k].denom.clone()); } r };
root_z_for_push(f: Vec<Coin>) -> Vec<String> = { let mut r = vec![]; for c in &f { r.push(c.denom.clone()); } r };
root_z_for_into(f: Vec<Coin>) -> Vec<String> = { let mut r = vec![]; for c in f { r.push(c.denom); } r };
root_z_foreach(f: Vec<Coin>) -> Vec<String> = { let mut r = vec![]; f.iter().for_each(|c| r.push(c.denom.clone())); r };
root_z_foreach2(f: Vec<Coin>) -> Vec<String> = { let mut r = vec![]; f.into_iter().for_each(|c| r.push(c.denom)); r };
root_z_fold(f: Vec<Coin>) -> Vec<String> = f.iter().fold(vec![], |mut r, c| { r.push(c.denom.clone()); r });
root_z_map_collect(f: Vec<Coin>) -> Vec<String> = f.iter().map(|c| c.denom.clone()).collect();
root_z_map_extend(f: Vec<Coin>) -> Vec<String> = { let mut r = Vec::new(); r.extend(f.iter().map(|c| c.denom.clone())); r };
root_z_try_push(deps: Deps, f: Vec<AssetInfo>) -> StdResult<Vec<AssetInfoRaw>> = { let mut r = vec![]; for c in f { r.push(c.to_raw(deps.api)?); } Ok(r) };
root_z_try_collect(deps: Deps, f: Vec<AssetInfo>) -> StdResult<Vec<AssetInfoRaw>> = f.iter().map(|c| c.to_raw(deps.api)).collect();
root_z_try_fold(deps: Deps, f: Vec<AssetInfo>) -> StdResult<Vec<AssetInfoRaw>> = f.iter().try_fold(vec![], |mut r, c| { r.push(c.to_raw(deps.api)?); Ok(r) });
root_z_try_foreach(f: Vec<Coin>) -> StdResult<()> = f.iter().try_for_each(|c| if c.amount.is_zero() { Err(StdError::generic_err("z")) } else { Ok(()) });
root_z_enum(f: Vec<Coin>) -> Vec<bool> = { let n = f.len(); f.iter().enumerate().map(|(i, _)| i + 1 == n).collect() };
root_z_enum_for(f: Vec<Coin>) -> Vec<bool> = { let mut r = vec![]; for (i, _c) in f.iter().enumerate() { r.push(i == f.len() - 1); } r };
root_z_rev(f: Vec<Coin>) -> Vec<String> = f.iter().rev().map(|c| c.denom.clone()).collect();
root_z_peek(f: Vec<Coin>) -> Vec<bool> = { let mut r = vec![]; let mut it = f.iter().peekable(); while let Some(_) = it.next() { r.push(it.peek().is_none()); } r };
root_z_while_next(f: Vec<Coin>) -> Vec<String> = { let mut r = vec![]; let mut it = f.iter(); while let Some(c) = it.next() { r.push(c.denom.clone()); } r };
root_z_skip(f: Vec<Coin>) -> Vec<String> = f.iter().skip(1).map(|c| c.denom.clone()).collect();
root_z_take(f: Vec<Coin>) -> Vec<String> = f.iter().take(3).map(|c| c.denom.clone()).collect();
root_z_zip(f: Vec<Coin>) -> bool = f.iter().zip(f.iter().skip(1)).all(|(a, b)| a.denom == b.denom);
root_z_zipfor(f: Vec<Coin>) -> bool = { for (a, b) in f.iter().zip(f.iter().skip(1)) { if a.denom != b.denom { return false; } } true };
root_z_windows(f: Vec<Coin>) -> bool = f.windows(2).all(|w| w[0].denom == w[1].denom);
root_z_windowsfor(f: Vec<Coin>) -> bool = { for w in f.windows(2) { if w[0].denom != w[1].denom { return false; } } true };
root_z_filter(f: Vec<Coin>) -> usize = f.iter().filter(|c| c.denom == "x").count();
root_z_filtercollect(f: Vec<Coin>, d: String) -> Option<Coin> = { let v: Vec<Coin> = f.into_iter().filter(|c| c.denom == d).collect(); v.first().cloned() };
root_z_set(f: Vec<Coin>) -> usize = { let s: HashSet<String> = f.iter().map(|c| c.denom.clone()).collect(); s.len() };
root_z_setfor(f: Vec<Coin>) -> usize = { let mut s = HashSet::new(); for c in f.iter() { s.insert(c.denom.clone()); } s.len() };
root_z_setrm(f: Vec<(String, String)>) -> usize = { let mut s = HashSet::new(); for (a, b) in f.iter() { s.remove(a); s.insert(b.clone()); } s.len() };
root_z_bsetrm(f: Vec<(String, String)>) -> usize = { let mut s = BTreeSet::new(); for (a, b) in f.iter() { s.remove(a); s.insert(b.clone()); } s.len() };
root_z_maprm(f: Vec<(String, String)>) -> bool = { let mut s: HashMap<String, bool> = HashMap::new(); for (a, b) in f.into_iter() { s.remove(&a); s.insert(b, true); } s.keys().len() == 1 };
root_z_maprmvals(f: Vec<(String, String)>) -> bool = { let mut s: BTreeMap<String, bool> = BTreeMap::new(); for (a, b) in f.into_iter() { s.remove(&a); s.insert(b, true); } s.len() != 1 };
root_z_vecset(f: Vec<(String, String)>) -> bool = { let mut s: Vec<String> = vec![]; for (a, b) in f.into_iter() { s.retain(|x| x != &a); if !s.contains(&b) { s.push(b); } } s.len() == 1 };
root_z_sum(f: Vec<Coin>) -> Uint128 = f.iter().map(|c| c.amount).sum();
root_z_sumfor(f: Vec<Coin>) -> Uint128 = { let mut s = Uint128::zero(); for c in &f { s += c.amount; } s };
root_z_max(f: Vec<Coin>) -> Option<Uint128> = f.iter().map(|c| c.amount).max();
root_z_rfind(f: Vec<Coin>, d: String) -> Option<Coin> = f.iter().rev().find(|c| c.denom == d).cloned();
root_z_iterpos(f: Vec<Coin>, d: String) -> Option<usize> = f.iter().position(|c| c.denom == d);
root_z_maperr(f: Vec<Coin>, d: String) -> StdResult<Coin> = f.into_iter().find(|c| c.denom == d).ok_or(StdError::generic_err("x"));
root_z_recur(f: Vec<Coin>, d: String) -> bool = rec(&f, &d);
root_z_splitfirst(f: Vec<Coin>) -> bool = match f.split_first() { Some((a, rest)) => rest.iter().all(|x| x.denom == a.denom), None => false };
root_z_slicepat(f: Vec<Coin>) -> bool = match &f[..] { [a, .., b] => a.denom == b.denom, [_] => true, [] => false };
root_z_lastmut(f: Vec<Coin>) -> Vec<Coin> = { let mut f = f; if let Some(c) = f.last_mut() { c.amount = Uint128::zero(); } f };
root_z_pop(f: Vec<Coin>) -> Option<Coin> = { let mut f = f; f.pop() };
root_z_chain(f: Vec<Coin>, c: Coin) -> Vec<String> = f.iter().chain(std::iter::once(&c)).map(|c| c.denom.clone()).collect();
root_z_pushafter(f: Vec<Coin>, c: Coin) -> usize = { let mut v: Vec<Coin> = vec![]; for x in f { v.push(x); } v.push(c); v.len() };
root_z_two(f: Vec<Coin>) -> Vec<String> = { let mut v: Vec<String> = vec!["a".into()]; for x in f { v.push(x.denom); } v };
root_z_optmap(f: Option<Vec<Coin>>) -> usize = f.map(|v| v.len()).unwrap_or(0);
root_z_strbytes(s: String) -> bool = { for b in s.bytes() { if !b.is_ascii_alphanumeric() { return false; } } true };
root_z_strbytes2(s: String) -> bool = { for b in s.as_bytes() { if !(*b == b'-' || (*b >= b'a' && *b <= b'z')) { return false; } } true };
root_z_strbytes3(s: String) -> bool = s.as_bytes().iter().all(|b| matches!(b, b'a'..=b'z' | b'-'));
root_z_strbytes4(s: String) -> bool = !s.bytes().any(|b| !(65..=90).contains(&b));
root_z_strbytes5(s: String) -> bool = { let b = s.as_bytes(); let mut i = 0; while i < b.len() { if b[i] == b'x' { return false; } i += 1; } true };
root_z_strbytes6(s: String) -> bool = { let mut ok = true; for b in s.bytes() { ok = ok && b.is_ascii_lowercase(); } ok };
root_z_strbytes7(s: String) -> bool = { let mut ok = true; for b in s.bytes() { if !b.is_ascii_lowercase() { ok = false; } } ok };
root_z_strbytes8(s: String) -> bool = { let mut n = 0; for b in s.bytes() { if b.is_ascii_lowercase() { n += 1; } } n == s.len() };
root_z_strbytes9(s: String) -> bool = s.bytes().filter(|b| !b.is_ascii_digit()).count() == 0;
root_z_strbytes10(s: String) -> bool = s.bytes().map(|b| b.is_ascii_digit()).fold(true, |a, b| a & b);
root_z_chars(s: String) -> bool = s.chars().all(char::is_alphanumeric);
root_z_chars2(s: String) -> bool = { for c in s.chars() { if !(c.is_ascii_alphabetic() || c == '-') { return false; } } true };
root_z_chars3(s: String) -> bool = s.chars().all(|c| c.is_ascii_alphabetic() || c == '-');
root_z_chars4(s: String) -> bool = s.chars().find(|c| !c.is_ascii_alphabetic()).is_none();
root_z_chars5(s: String) -> bool = s.chars().count() < 5;
root_z_chars6(s: String) -> bool = s.contains(|c: char| !c.is_ascii_alphabetic());
root_z_chars7(s: String) -> bool = s.find(|c: char| !c.is_ascii_alphabetic()).is_none();
root_z_chars8(s: String) -> bool = s.trim_matches(char::is_alphabetic).is_empty();
root_z_ops_hops(f: Vec<SwapOperation>) -> Vec<AssetInfo> = f.iter().map(|o| match o { SwapOperation::HaloSwap { ask_asset_info, .. } => ask_asset_info.clone() }).collect();
root_z_first_opt(f: Vec<Coin>, d: String) -> Option<Uint128> = { let mut r = None; for c in &f { if r.is_none() && c.denom == d { r = Some(c.amount); } } r };
root_z_last_opt(f: Vec<Coin>, d: String) -> Option<Uint128> = { let mut r = None; for c in &f { if c.denom == d { r = Some(c.amount); } } r };
root_z_last_any(f: Vec<Coin>) -> Option<Uint128> = { let mut r = None; for c in &f { r = Some(c.amount); } r };
root_z_last_fn(f: Vec<Coin>) -> Option<Coin> = f.into_iter().last();
root_z_prev(f: Vec<Coin>) -> bool = { let mut prev: Option<String> = None; for c in &f { if let Some(p) = &prev { if *p == c.denom { return false; } } prev = Some(c.denom.clone()); } true };
root_z_prev_ref(f: Vec<Coin>) -> bool = { let mut prev: Option<&Coin> = None; for c in f.iter() { if let Some(p) = prev { if p.denom == c.denom { return false; } } prev = Some(c); } true };
root_z_maxopt(f: Vec<Coin>) -> Option<Uint128> = { let mut m: Option<Uint128> = None; for c in &f { m = Some(match m { None => c.amount, Some(x) => x.max(c.amount) }); } m };
root_z_reduce(f: Vec<Coin>) -> Option<Uint128> = f.iter().map(|c| c.amount).reduce(|a, b| if a > b { a } else { b });
root_z_once_chain(f: Vec<Coin>, c: Coin) -> Vec<String> = std::iter::once(c).chain(f).map(|c| c.denom).collect();
root_z_chain_for(f: Vec<Coin>, g: Vec<Coin>) -> Vec<String> = { let mut r = vec![]; for c in f.iter().chain(g.iter()) { r.push(c.denom.clone()); } r };
root_z_chain_any(f: Vec<Coin>, g: Vec<Coin>, d: String) -> bool = f.iter().chain(&g).any(|c| c.denom == d);
root_z_chain_opt(f: Vec<Coin>, g: Option<Coin>) -> usize = f.into_iter().chain(g).count();
root_z_extend_two(f: Vec<Coin>, g: Vec<Coin>) -> Vec<Coin> = { let mut r = f; r.extend(g); r };
root_z_append(f: Vec<Coin>, g: Vec<Coin>) -> Vec<Coin> = { let mut r = f; let mut g = g; r.append(&mut g); r };
root_z_flag_break(f: Vec<Coin>, d: String) -> bool = { let mut found = false; for c in &f { if c.denom == d { found = true; break; } } found };
root_z_idx_opt(f: Vec<Coin>, d: String) -> Option<usize> = { let mut at = None; for (i, c) in f.iter().enumerate() { if c.denom == d { at = Some(i); break; } } at };
root_z_count_if(f: Vec<Coin>, d: String) -> usize = { let mut n = 0; for c in &f { if c.denom == d { n += 1; } } n };
root_z_while_pop(f: Vec<Coin>) -> Vec<String> = { let mut f = f; let mut r = vec![]; while let Some(c) = f.pop() { r.push(c.denom); } r };
root_z_while_nonempty(f: Vec<Coin>) -> Uint128 = { let mut f = &f[..]; let mut last = Uint128::zero(); while !f.is_empty() { last = f[0].amount; f = &f[1..]; } last };
root_z_while_split(f: Vec<Coin>) -> Uint128 = { let mut f = &f[..]; let mut last = Uint128::zero(); while let Some((c, rest)) = f.split_first() { last = c.amount; f = rest; } last };
root_z_skip_while(f: Vec<Coin>, d: String) -> usize = f.iter().skip_while(|c| c.denom != d).count();
root_z_take_while(f: Vec<Coin>, d: String) -> usize = f.iter().take_while(|c| c.denom != d).count();
root_z_map_while(f: Vec<Coin>) -> Vec<String> = f.iter().map_while(|c| if c.amount.is_zero() { None } else { Some(c.denom.clone()) }).collect();
root_z_filter_map(f: Vec<Coin>, d: String) -> Option<Uint128> = f.iter().filter_map(|c| if c.denom == d { Some(c.amount) } else { None }).next();
root_z_find_map(f: Vec<Coin>, d: String) -> Option<Uint128> = f.iter().find_map(|c| (c.denom == d).then_some(c.amount));
root_z_filter_sum(f: Vec<Coin>, d: String) -> Uint128 = f.iter().filter(|c| c.denom == d).map(|c| c.amount).sum();
root_z_partition(f: Vec<Coin>, d: String) -> usize = { let (a, _b): (Vec<Coin>, Vec<Coin>) = f.into_iter().partition(|c| c.denom == d); a.len() };
root_z_contains(f: Vec<String>, d: String) -> bool = f.contains(&d);
root_z_iter_eq(f: Vec<String>, g: Vec<String>) -> bool = f == g;
root_z_unzip(f: Vec<(String, String)>) -> Vec<String> = { let (a, _b): (Vec<String>, Vec<String>) = f.into_iter().unzip(); a };
root_z_dowhile(f: Vec<Coin>) -> usize = { let mut i = 0; loop { if i == f.len() { break i; } if f[i].amount.is_zero() { break i; } i += 1; } };
root_z_down(f: Vec<Coin>, d: String) -> Option<usize> = { let mut i = f.len(); while i > 0 { i -= 1; if f[i].denom == d { return Some(i); } } None };
root_z_two_cursors(f: Vec<Coin>) -> bool = { let mut i = 0; let mut j = f.len(); while i < j { j -= 1; if f[i].denom != f[j].denom { return false; } i += 1; } true };
root_z_step(f: Vec<Coin>) -> usize = f.iter().step_by(2).count();
root_z_allpairs(f: Vec<Coin>) -> bool = { for i in 0..f.len() { for j in 0..i { if f[i].denom == f[j].denom { return false; } } } true };
root_z_checked(f: Vec<Coin>) -> Option<Uint128> = { let mut s = Uint128::zero(); for c in &f { s = match s.checked_add(c.amount) { Ok(x) => x, Err(_) => return None }; } Some(s) };
root_z_scan(f: Vec<Coin>) -> Vec<usize> = f.iter().scan(0usize, |n, _c| { *n += 1; Some(*n) }).collect();
root_z_cycle(f: Vec<Coin>) -> Vec<usize> = (0..f.len()).map(|i| i * 2).collect();
root_z_strsplit(s: String) -> usize = s.split(',').count();
root_z_withcap(f: Vec<Coin>) -> Vec<Coin> = { let mut r = Vec::with_capacity(f.len()); for c in f { r.push(Coin { denom: c.denom, amount: c.amount + Uint128::new(1) }); } r };
root_z_itermut(f: Vec<Coin>) -> Vec<Coin> = { let mut f = f; for c in f.iter_mut() { c.amount = Uint128::zero(); } f };
root_z_idxmut(f: Vec<Coin>) -> Vec<Coin> = { let mut f = f; for i in 0..f.len() { f[i].amount = Uint128::zero(); } f };
root_z_sortlen(f: Vec<String>) -> usize = { let mut f = f; f.sort(); f.dedup(); f.len() };
root_z_reverse(f: Vec<Coin>) -> Vec<String> = { let mut f = f; f.reverse(); f.into_iter().map(|c| c.denom).collect() };
root_z_remove0(f: Vec<Coin>) -> Option<Coin> = { let mut f = f; if f.is_empty() { None } else { Some(f.remove(0)) } };
root_z_insert0(f: Vec<Coin>, c: Coin) -> usize = { let mut f = f; f.insert(0, c); f.len() };
root_z_push_if(f: Vec<Coin>, c: Option<Coin>) -> Vec<Coin> = { let mut f = f; if let Some(c) = c { f.push(c); } f };
root_z_truncate(f: Vec<Coin>) -> usize = { let mut f = f; f.truncate(2); f.len() };
root_z_slice_to(f: Vec<Coin>) -> usize = if f.len() > 1 { f[..f.len() - 1].iter().filter(|c| c.amount.is_zero()).count() } else { 0 };
root_z_last_first(f: Vec<Coin>) -> bool = f.first() == f.last();
root_z_ops_last(f: Vec<SwapOperation>) -> Option<AssetInfo> = f.last().map(|o| o.get_target_asset_info());
}
fn rec(f: &[Coin], d: &str) -> bool { match f.split_first() { None => false, Some((c, r)) => c.denom == d || rec(r, d) } }
