use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use cosmwasm_std::{Uint128, Uint256 as CU256, Decimal, Coin, Addr, StdResult, StdError, Fraction};
use bignumber::{Decimal256 as BD, Uint256 as BU};
macro_rules! i { ($($n:ident($($a:ident: $t:ty),*) -> $r:ty = $e:expr;)*) => { $(pub fn $n($($a: $t),*) -> $r { $e })* } }
i! {
// --- fixed size
root_x_arr_map(a: [u64; 2]) -> [u64; 2] = a.map(|x| x / 2);
root_x_arr_iter_sum(a: [u64; 2]) -> u64 = a.iter().map(|x| x / 4).sum();
root_x_arr_zip(a: [u64; 2], b: [u64; 2]) -> u64 = a.iter().zip(b.iter()).map(|(x, y)| (x / 8) + (y / 8)).sum();
root_x_arr_max(a: [u64; 2]) -> u64 = *a.iter().max().unwrap();
root_x_arr_min_by_key(a: [u64; 2]) -> u64 = *a.iter().min_by_key(|x| **x).unwrap();
root_x_arr_min(a: [u64; 2]) -> Option<u64> = a.iter().copied().min();
root_x_arr_into_iter_min(a: [u64; 2]) -> Option<u64> = a.into_iter().min();
root_x_arr_rev(a: [u64; 2]) -> Vec<u64> = a.iter().rev().cloned().collect();
root_x_arr_enum(a: [u64; 2]) -> u64 = { let mut s = 0; for (i, x) in a.iter().enumerate() { if i == 1 { s = *x; } } s };
root_x_arr_itermut(a: [u64; 2]) -> [u64; 2] = { let mut b = a; for x in b.iter_mut() { *x /= 3; } b };
root_x_arr_swap(a: [u64; 2]) -> [u64; 2] = { let mut b = a; b.swap(0, 1); b };
root_x_arr_reverse(a: [u64; 2]) -> [u64; 2] = { let mut b = a; b.reverse(); b };
root_x_arr_sort(a: [u64; 2]) -> [u64; 2] = { let mut b = a; b.sort(); b };
root_x_arr_sort_unst(a: [u64; 2]) -> [u64; 2] = { let mut b = a; b.sort_unstable_by(|x, y| y.cmp(x)); b };
root_x_arr_find(a: [u64; 2], k: u64) -> Option<u64> = a.iter().find(|x| **x > k).copied();
root_x_arr_find_map(a: [u64; 2], k: u64) -> Option<u64> = a.iter().find_map(|x| if *x > k { Some(x - k) } else { None });
root_x_arr_position(a: [u64; 2], k: u64) -> Option<usize> = a.iter().position(|x| *x == k);
root_x_arr_rposition(a: [u64; 2], k: u64) -> Option<usize> = a.iter().rposition(|x| *x == k);
root_x_arr_any(a: [u64; 2], k: u64) -> bool = a.iter().any(|x| *x == k);
root_x_arr_all(a: [u64; 2], k: u64) -> bool = a.iter().all(|x| *x == k);
root_x_arr_contains(a: [u64; 2], k: u64) -> bool = a.contains(&k);
root_x_arr_filter(a: [u64; 2], k: u64) -> Vec<u64> = a.iter().filter(|x| **x != k).cloned().collect();
root_x_arr_filter_count(a: [u64; 2], k: u64) -> usize = a.iter().filter(|x| **x != k).count();
root_x_arr_filter_map(a: [u64; 2], k: u64) -> Vec<u64> = a.iter().filter_map(|x| x.checked_sub(k)).collect();
root_x_arr_partition(a: [u64; 2], k: u64) -> usize = { let (x, y): (Vec<u64>, Vec<u64>) = a.iter().partition(|x| **x < k); x.len() * 3 + y.len() };
root_x_arr_fold(a: [u64; 2]) -> u64 = a.iter().fold(0, |s, x| s + x / 4);
root_x_arr_try_fold(a: [u64; 2]) -> Option<u64> = a.iter().try_fold(0u64, |s, x| s.checked_add(*x));
root_x_arr_product(a: [u32; 2]) -> u64 = a.iter().map(|x| *x as u64).product();
root_x_arr_chain(a: [u64; 2], k: u64) -> Vec<u64> = a.iter().copied().chain(std::iter::once(k)).collect();
root_x_arr_first(a: [u64; 2]) -> Option<u64> = a.first().copied();
root_x_arr_last(a: [u64; 2]) -> Option<u64> = a.last().copied();
root_x_arr_get(a: [u64; 2], k: usize) -> Option<u64> = a.get(k).copied();
root_x_arr_split_first(a: [u64; 2]) -> u64 = if let Some((h, t)) = a.split_first() { h / 2 + t.len() as u64 } else { 0 };
root_x_arr_slice_pat(a: [u64; 2]) -> u64 = { let [x, y] = a; if x > y { x } else { y } };
root_x_arr_slice_ref_pat(a: [u64; 2]) -> u64 = match &a { [x, y] if x > y => *x, [_, y] => *y };
root_x_arr_windows(a: [u64; 2]) -> bool = a.windows(2).all(|w| w[0] <= w[1]);
root_x_arr_chunks(a: [u64; 2]) -> usize = a.chunks(1).map(|c| c.len()).sum();
root_x_arr_take_while(a: [u64; 2], k: u64) -> Vec<u64> = a.iter().take_while(|x| **x < k).copied().collect();
root_x_arr_skip(a: [u64; 2]) -> Vec<u64> = a.iter().skip(1).copied().collect();
root_x_arr_step(a: [u64; 2]) -> Vec<u64> = a.iter().step_by(2).copied().collect();
root_x_arr_flat_map(a: [u64; 2]) -> Vec<u64> = a.iter().flat_map(|x| vec![*x, x / 2]).collect();
root_x_arr_last_it(a: [u64; 2]) -> Option<u64> = a.iter().copied().last();
root_x_arr_nth(a: [u64; 2]) -> Option<u64> = a.iter().copied().nth(1);
root_x_arr_peek(a: [u64; 2]) -> u64 = { let mut it = a.iter().peekable(); let mut s = 0; while let Some(x) = it.next() { if it.peek().is_none() { s = *x; } } s };
root_x_arr_while(a: [u64; 2]) -> u64 = { let mut k = 0; let mut s = 0u64; while k < a.len() { s = s.wrapping_add(a[k]); k += 1; } s };
root_x_arr_loop(a: [u64; 2]) -> u64 = { let mut k = 0; let mut s = 0u64; loop { if k == 2 { break s; } s ^= a[k] & 1; k += 1; } };
root_x_arr_range(a: [u64; 2]) -> u64 = { let mut s = 0u64; for k in 0..2 { s = s.max(a[k]); } s };
root_x_arr_range_incl(a: [u64; 2]) -> u64 = { let mut s = 0u64; for k in 0..=1 { s = s.max(a[k]); } s };
root_x_arr_range_rev(a: [u64; 2]) -> u64 = { let mut s = 0u64; for k in (0..2).rev() { s = a[k]; } s };
root_x_arr_for_each(a: [u64; 2]) -> u64 = { let mut s = 0u64; a.iter().for_each(|x| s = s.max(*x)); s };
root_x_arr_unzip(a: [u64; 2]) -> u64 = { let (x, y): (Vec<u64>, Vec<u64>) = a.iter().map(|v| (*v, v / 2)).unzip(); x[0].max(y[1]) };
root_x_arr_to_vec(a: [u64; 2]) -> Vec<u64> = a.to_vec();
root_x_arr_eq(a: [u64; 2], b: [u64; 2]) -> bool = a == b;
root_x_arr_iter_eq(a: [u64; 2], b: [u64; 2]) -> bool = a.iter().eq(b.iter());
root_x_arr_try_into(a: [u64; 2]) -> [u64; 2] = { let v: Vec<u64> = a.iter().map(|x| x / 2).collect(); v.try_into().unwrap() };
root_x_arr_res_collect(a: [u64; 2], k: u64) -> Option<Vec<u64>> = a.iter().map(|x| x.checked_sub(k)).collect();
root_x_arr_res_collect2(a: [u64; 2], k: u64) -> bool = a.iter().map(|x| x.checked_sub(k).ok_or(1u8)).collect::<Result<Vec<u64>, u8>>().is_ok();
root_x_arr_sumopt(a: [u64; 2], k: u64) -> Option<u64> = a.iter().map(|x| x.checked_sub(k).map(|y| y / 2)).sum();
root_x_from_fn(a: u64) -> [u64; 2] = std::array::from_fn(|i| a / (i as u64 + 1));
root_x_vec_push_pop(a: [u64; 2]) -> Option<u64> = { let mut v = Vec::with_capacity(2); v.push(a[0]); v.push(a[1]); v.pop() };
root_x_vec_insert(a: [u64; 2]) -> Vec<u64> = { let mut v = a.to_vec(); v.insert(1, 5); v };
root_x_vec_remove(a: [u64; 2]) -> u64 = { let mut v = a.to_vec(); v.remove(0) };
root_x_vec_swap_remove(a: [u64; 2]) -> u64 = { let mut v = a.to_vec(); v.swap_remove(0) };
root_x_vec_extend(a: [u64; 2], b: [u64; 2]) -> Vec<u64> = { let mut v = a.to_vec(); v.extend(b.iter().copied()); v };
root_x_vec_extend2(a: [u64; 2], b: [u64; 2]) -> Vec<u64> = { let mut v = a.to_vec(); v.extend_from_slice(&b); v };
root_x_vec_append(a: [u64; 2], b: [u64; 2]) -> Vec<u64> = { let mut v = a.to_vec(); let mut w = b.to_vec(); v.append(&mut w); v };
root_x_vec_truncate(a: [u64; 2]) -> Vec<u64> = { let mut v = a.to_vec(); v.truncate(1); v };
root_x_vec_retain(a: [u64; 2], k: u64) -> Vec<u64> = { let mut v = a.to_vec(); v.retain(|x| *x != k); v };
root_x_vec_dedup(a: [u64; 2]) -> Vec<u64> = { let mut v = a.to_vec(); v.dedup(); v };
root_x_vec_drain(a: [u64; 2]) -> Vec<u64> = { let mut v = a.to_vec(); v.drain(..1).collect() };
root_x_vec_clear(a: [u64; 2]) -> usize = { let mut v = a.to_vec(); v.clear(); v.len() };
root_x_vec_is_empty(a: [u64; 2]) -> bool = { let v = a.to_vec(); v.is_empty() };
root_x_vec_into_boxed(a: [u64; 2]) -> usize = { let v = a.to_vec().into_boxed_slice(); v.len() };
root_x_vec_split_off(a: [u64; 2]) -> Vec<u64> = { let mut v = a.to_vec(); v.split_off(1) };
root_x_vec_concat(a: [u64; 2], b: [u64; 2]) -> Vec<u64> = [a, b].concat();
root_x_vec_intoiter_next(a: [u64; 2]) -> u64 = { let mut it = a.to_vec().into_iter(); let x = it.next().unwrap(); let y = it.next().unwrap(); x / 2 + y / 2 };
root_x_vec_macro_rep(a: u64) -> Vec<u64> = vec![a; 3];
root_x_hashset(a: [u64; 2]) -> usize = { let s: HashSet<u64> = a.iter().cloned().collect(); s.len() };
root_x_hashset_ins(a: [u64; 2]) -> bool = { let mut s = HashSet::new(); s.insert(a[0]); s.insert(a[1]) };
root_x_btreeset(a: [u64; 2]) -> Vec<u64> = { let s: BTreeSet<u64> = a.iter().cloned().collect(); s.into_iter().collect() };
root_x_hashmap(a: [u64; 2], k: u64) -> Option<u64> = { let mut m = HashMap::new(); m.insert(a[0], 1); m.insert(a[1], 2); m.get(&k).copied() };
root_x_btreemap(a: [u64; 2], k: u64) -> Option<u64> = { let mut m = BTreeMap::new(); m.insert(a[0], 1u64); m.insert(a[1], 2); m.remove(&k) };
root_x_btreemap_entry(a: [u64; 2]) -> u64 = { let mut m: BTreeMap<u64, u64> = BTreeMap::new(); for x in a { *m.entry(x).or_insert(0) += 1; } m[&a[0]] };
root_x_vecdeque(a: [u64; 2]) -> Option<u64> = { let mut d: VecDeque<u64> = a.into_iter().collect(); d.push_front(9); d.pop_back() };
// --- integers
root_x_u_abs_diff(a: u64, b: u64) -> u64 = a.abs_diff(b);
root_x_u_checked(a: u64, b: u64) -> Option<u64> = a.checked_add(b)?.checked_mul(2)?.checked_sub(b)?.checked_div(b);
root_x_u_sat(a: u64, b: u64) -> u64 = a.saturating_sub(b).saturating_add(a).saturating_mul(b);
root_x_u_over(a: u64, b: u64) -> (u64, bool) = a.overflowing_sub(b);
root_x_u_min(a: u64, b: u64) -> u64 = a.min(b).max(3).clamp(2, 100);
root_x_u_pow(a: u8) -> u64 = 10u64.pow((a % 19) as u32);
root_x_u_rem(a: u64, b: u64) -> u64 = if b == 0 { 0 } else { a % b };
root_x_u_divceil(a: u64, b: u64) -> u64 = if b == 0 { 0 } else { a.div_ceil(b) };
root_x_u_shift(a: u64) -> u64 = (a >> 3) & 0xff;
root_x_u_cmp(a: u64, b: u64) -> i8 = match a.cmp(&b) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 1 };
root_x_u_then(a: u64, b: u64) -> Option<u64> = (a > b).then(|| a - b);
root_x_u_then_some(a: u64, b: u64) -> Option<u64> = (a > b).then_some(a);
root_x_u_tryfrom(a: u64) -> Option<u8> = u8::try_from(a).ok();
root_x_u_asu128(a: u64) -> u128 = a as u128 * a as u128;
root_x_u_from(a: u32) -> u64 = u64::from(a);
root_x_u_max_of(a: u64, b: u64, c: u64) -> u64 = std::cmp::max(a, std::cmp::max(b, c));
root_x_u_lead(a: u64) -> bool = a.is_power_of_two();
root_x_u_tuple_cmp(a: (u64, u64), b: (u64, u64)) -> bool = a < b;
root_x_u_range_contains(a: u64) -> bool = (3..=50).contains(&a);
root_x_u_matches(a: u64) -> bool = matches!(a, 3..=50 | 70);
root_x_u_rangeexcl(a: u64) -> bool = !(3..51).contains(&a);
root_x_u_match_guard(a: u64, b: u64) -> u64 = match a { 0 => 1, x if x > b => x - b, _ => b };
root_x_i_mix(a: i64) -> i64 = if a < 0 { -(a / 2) } else { a };
// --- options, results
root_x_o_map(a: Option<u64>) -> Option<u64> = a.map(|x| x / 2).filter(|x| *x > 3);
root_x_o_and(a: Option<u64>, b: Option<u64>) -> Option<u64> = a.and(b).or(a);
root_x_o_and_then(a: Option<u64>) -> Option<u64> = a.and_then(|x| x.checked_sub(3));
root_x_o_unwrap_or(a: Option<u64>) -> u64 = a.unwrap_or(4);
root_x_o_unwrap_or_default(a: Option<u64>) -> u64 = a.unwrap_or_default();
root_x_o_unwrap_or_else(a: Option<u64>, b: u64) -> u64 = a.unwrap_or_else(|| b / 2);
root_x_o_map_or(a: Option<u64>) -> u64 = a.map_or(7, |x| x / 2);
root_x_o_map_or_else(a: Option<u64>) -> u64 = a.map_or_else(|| 7, |x| x / 2);
root_x_o_is_some_and(a: Option<u64>) -> bool = a.is_some_and(|x| x > 7);
root_x_o_is_none_or(a: Option<u64>) -> bool = a.is_none_or(|x| x > 7);
root_x_o_zip(a: Option<u64>, b: Option<u64>) -> u64 = match a.zip(b) { Some((x, y)) => x / 2 + y / 2, None => 0 };
root_x_o_xor(a: Option<u64>, b: Option<u64>) -> Option<u64> = a.xor(b);
root_x_o_take(a: Option<u64>) -> bool = { let mut b = a; let c = b.take(); b.is_none() && c == a };
root_x_o_replace(a: Option<u64>, k: u64) -> Option<u64> = { let mut b = a; b.replace(k) };
root_x_o_get_or_insert(a: Option<u64>, k: u64) -> u64 = { let mut b = a; *b.get_or_insert(k) };
root_x_o_as_ref(a: Option<String>) -> Option<usize> = a.as_ref().map(|x| x.len());
root_x_o_as_deref(a: Option<String>, b: String) -> bool = a.as_deref() == Some(b.as_str());
root_x_o_as_deref_or(a: Option<String>) -> String = a.as_deref().unwrap_or("none").to_string();
root_x_o_cloned(a: Option<u64>) -> Option<u64> = a.as_ref().cloned();
root_x_o_ok_or(a: Option<u64>) -> Result<u64, u8> = a.ok_or(3);
root_x_o_ok_or_else(a: Option<u64>) -> Result<u64, u8> = a.ok_or_else(|| 3);
root_x_o_iter(a: Option<u64>) -> u64 = { let mut s = 0; for x in a { s = x; } s };
root_x_o_into_iter_chain(a: Option<u64>, b: Option<u64>) -> usize = a.into_iter().chain(b).count();
root_x_o_let_else(a: Option<u64>) -> u64 = { let Some(x) = a else { return 0 }; x };
root_x_o_transpose(a: Option<u64>, k: u64) -> Result<Option<u64>, u8> = a.map(|x| x.checked_sub(k).ok_or(1u8)).transpose();
root_x_o_flatten(a: Option<u64>, k: u64) -> Option<u64> = a.map(|x| x.checked_sub(k)).flatten();
root_x_o_eq(a: Option<u64>, b: Option<u64>) -> bool = a == b;
root_x_o_cmp(a: Option<u64>, b: Option<u64>) -> bool = a < b;
root_x_o_expect(a: Option<u64>) -> u64 = a.expect("x");
root_x_o_ifletchain(a: Option<u64>, b: Option<u64>) -> u64 = if let (Some(x), Some(y)) = (a, b) { x.max(y) } else { 0 };
root_x_o_whilelet(a: u64) -> u64 = { let mut b = Some(a % 3); let mut n = 0; while let Some(x) = b { n += 1; b = x.checked_sub(1); } n };
root_x_r_ok(a: u64, b: u64) -> Option<u64> = f(a, b).ok();
root_x_r_map_err(a: u64, b: u64) -> Result<u64, u16> = f(a, b).map_err(|e| e as u16 + 1);
root_x_r_unwrap_or(a: u64, b: u64) -> u64 = f(a, b).unwrap_or(5);
root_x_r_and_then(a: u64, b: u64) -> Result<u64, u8> = f(a, b).and_then(|x| f(x, b));
root_x_r_or_else(a: u64, b: u64) -> Result<u64, u8> = f(a, b).or_else(|_| f(b, a));
root_x_r_map_or(a: u64, b: u64) -> u64 = f(a, b).map_or(0, |x| x / 2);
root_x_r_is_ok(a: u64, b: u64) -> bool = f(a, b).is_ok() && !f(a, b).is_err();
root_x_r_is_ok_and(a: u64, b: u64) -> bool = f(a, b).is_ok_and(|x| x > 3);
root_x_r_iflet(a: u64, b: u64) -> u64 = if let Ok(x) = f(a, b) { x } else { 1 };
root_x_r_q(a: u64, b: u64) -> Result<u64, u8> = { let x = f(a, b)?; let y = f(x, 1)?; Ok(y) };
root_x_r_closure(a: u64, b: u64) -> u64 = { let g = |x: u64| -> Result<u64, u8> { let y = f(x, b)?; Ok(y / 2) }; g(a).unwrap_or(0) };
root_x_r_unwrap_or_default(a: u64, b: u64) -> u64 = f(a, b).unwrap_or_default();
// --- strings
root_x_s_len(a: String) -> usize = a.len();
root_x_s_eq(a: String, b: String) -> bool = a == b;
root_x_s_ne(a: String, b: String) -> bool = a.as_str() != b.as_str();
root_x_s_eqb(a: String, b: String) -> bool = a.as_bytes() == b.as_bytes();
root_x_s_lt(a: String, b: String) -> bool = a < b;
root_x_s_le(a: String, b: String) -> bool = a.as_bytes() <= b.as_bytes();
root_x_s_cmp(a: String, b: String) -> bool = a.cmp(&b) == std::cmp::Ordering::Greater;
root_x_s_cmpis(a: String, b: String) -> bool = a.as_bytes().cmp(b.as_bytes()).is_le();
root_x_s_max(a: String, b: String) -> String = std::cmp::max(a, b);
root_x_s_sortpair(a: String, b: String) -> Vec<String> = { let mut v = vec![a, b]; v.sort(); v };
root_x_s_concat(a: String, b: String) -> String = format!("{}{}", a, b);
root_x_s_concat2(a: String, b: String) -> String = a + &b;
root_x_s_concat3(a: String, b: String) -> String = { let mut c = a.clone(); c.push_str(&b); c };
root_x_s_concat4(a: String, b: String) -> String = [a.as_str(), b.as_str()].concat();
root_x_s_concat5(a: String, b: String) -> String = [a, b].join("");
root_x_s_inline(a: String, k: u64) -> String = format!("{a}-{k}");
root_x_s_push(a: String) -> String = { let mut c = String::with_capacity(3); c.push_str(&a); c.push('x'); c };
root_x_s_empty(a: String) -> bool = a.is_empty();
root_x_s_bytes(a: String, b: String) -> Vec<u8> = [a.as_bytes(), b.as_bytes()].concat();
root_x_s_bytes2(a: String, b: String) -> Vec<u8> = { let mut v = a.into_bytes(); v.extend_from_slice(b.as_bytes()); v };
root_x_s_bytes3(a: String, b: String) -> Vec<u8> = { let mut v = Vec::with_capacity(a.len() + b.len()); v.extend_from_slice(a.as_bytes()); v.extend_from_slice(b.as_bytes()); v };
root_x_s_bytes4(a: String, b: String) -> Vec<u8> = a.bytes().chain(b.bytes()).collect();
root_x_s_to_owned(a: String) -> String = a.as_str().to_owned();
root_x_s_into(a: String) -> String = { let b: &str = &a; b.into() };
root_x_s_from(a: String) -> String = String::from(a.as_str());
root_x_s_tostr(k: u64) -> String = k.to_string();
root_x_s_char_all(a: String) -> bool = a.chars().all(|c| c.is_ascii_alphabetic() || c == '-');
root_x_s_byte_all(a: String) -> bool = a.bytes().all(|c| c.is_ascii_alphabetic() || c == b'-');
root_x_s_byte_all2(a: String) -> bool = a.as_bytes().iter().all(|c| matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'-'));
root_x_s_byte_any(a: String) -> bool = a.bytes().any(|c| !(c.is_ascii_lowercase() || c.is_ascii_uppercase() || c == 45));
root_x_s_char_any(a: String) -> bool = a.chars().any(|c| !c.is_ascii_alphanumeric());
root_x_s_char_for(a: String) -> bool = { for c in a.chars() { if !c.is_ascii_alphabetic() { return false; } } true };
root_x_s_byte_for(a: String) -> bool = { for c in a.bytes() { if !(65..=90).contains(&c) { return false; } } true };
root_x_s_find_byte(a: String) -> Option<usize> = a.as_bytes().iter().position(|c| *c == b'.');
root_x_s_is_ascii(a: String) -> bool = a.is_ascii();
root_x_s_starts(a: String) -> bool = a.starts_with("ibc/");
root_x_s_addr(a: String) -> String = Addr::unchecked(a).into_string();
root_x_s_addreq(a: String, b: String) -> bool = Addr::unchecked(a) == b;
root_x_s_addreq2(a: String, b: String) -> bool = Addr::unchecked(a).as_str() == b;
root_x_s_addreq3(a: String, b: String) -> bool = Addr::unchecked(a) == Addr::unchecked(b);
root_x_s_addrdisp(a: String) -> String = format!("{}", Addr::unchecked(a));
root_x_s_cow(a: String, b: bool) -> String = { let c: std::borrow::Cow<str> = if b { std::borrow::Cow::Borrowed(&a) } else { std::borrow::Cow::Owned("x".to_string()) }; c.into_owned() };
root_x_s_clone_from(a: String) -> String = { let mut b = String::new(); b.clone_from(&a); b };
root_x_s_memtake(a: String) -> bool = { let mut b = a; let c = std::mem::take(&mut b); b.is_empty() && c.len() < 100 };
root_x_s_memreplace(a: String) -> String = { let mut b = a; std::mem::replace(&mut b, "y".to_string()) };
root_x_s_memswap(a: u64, b: u64) -> bool = { let (mut x, mut y) = (a, b); if x > y { std::mem::swap(&mut x, &mut y); } x <= y };
// --- cosmwasm numbers
root_x_c_checked(a: Uint128, b: Uint128) -> Option<Uint128> = a.checked_add(b).ok()?.checked_mul(b).ok()?.checked_sub(a).ok()?.checked_div(b).ok();
root_x_c_ops(a: Uint128, b: Uint128) -> Uint128 = (a + b) * b / b - a;
root_x_c_rem(a: Uint128, b: Uint128) -> Option<Uint128> = a.checked_rem(b).ok();
root_x_c_sat(a: Uint128, b: Uint128) -> Uint128 = a.saturating_sub(b).saturating_add(b).saturating_mul(b);
root_x_c_wrap(a: Uint128, b: Uint128) -> Uint128 = a.wrapping_sub(b);
root_x_c_absdiff(a: Uint128, b: Uint128) -> Uint128 = a.abs_diff(b);
root_x_c_minmax(a: Uint128, b: Uint128) -> Uint128 = a.min(b).max(Uint128::new(2));
root_x_c_stdmin(a: Uint128, b: Uint128) -> Uint128 = std::cmp::min(a, b);
root_x_c_cmp(a: Uint128, b: Uint128) -> bool = a.gt(&b) || a == b;
root_x_c_iszero(a: Uint128) -> bool = a.is_zero() || a == Uint128::zero() || a == Uint128::one() || a == Uint128::MAX;
root_x_c_u128(a: Uint128) -> u128 = a.u128();
root_x_c_from(a: u64) -> Uint128 = Uint128::from(a) + Uint128::from(3u32) + Uint128::from(5u128);
root_x_c_pow(a: u8) -> Uint128 = Uint128::new(10).pow((a % 19) as u32);
root_x_c_chpow(a: u8) -> Option<Uint128> = Uint128::new(10).checked_pow(a as u32).ok();
root_x_c_sum(a: [Uint128; 2]) -> Uint128 = a.iter().sum();
root_x_c_addassign(a: Uint128, b: Uint128) -> Uint128 = { let mut x = a; x += b; x -= Uint128::new(1); x };
root_x_c_mulratio(a: Uint128, b: Uint128, c: Uint128) -> Uint128 = a.multiply_ratio(b, c);
root_x_c_chmulratio(a: Uint128, b: Uint128, c: Uint128) -> Option<Uint128> = a.checked_multiply_ratio(b, c).ok();
root_x_c_fullmul(a: Uint128, b: Uint128, c: Uint128) -> Option<Uint128> = if c.is_zero() { None } else { Uint128::try_from(a.full_mul(b) / CU256::from(c)).ok() };
root_x_c_u256(a: Uint128, b: Uint128) -> bool = CU256::from(a) * CU256::from(b) >= CU256::from(1000u64);
root_x_c_mulassign(a: Uint128, b: Uint128) -> Uint128 = { let mut x = a; x *= b; x };
root_x_c_str(a: Uint128) -> String = a.to_string();
root_x_c_fmt(a: Uint128, b: Uint128) -> String = format!("{}, {}", a, b);
root_x_c_into_str(a: Uint128) -> String = a.into();
root_x_c_shr(a: Uint128) -> Uint128 = a >> 1u32;
root_x_c_dec_mul(a: Uint128, d: Decimal) -> Uint128 = a * d;
root_x_c_dec_muldec(a: Uint128, d: Decimal) -> Uint128 = d * a;
root_x_c_dec_floor(a: Uint128, d: Decimal) -> Decimal = d.floor();
root_x_c_dec_ratio(a: Uint128, b: Uint128) -> Decimal = Decimal::from_ratio(a, b);
root_x_c_dec_chratio(a: Uint128, b: Uint128) -> Option<Decimal> = Decimal::checked_from_ratio(a, b).ok();
root_x_c_dec_ops(a: Decimal, b: Decimal) -> Decimal = a + b - b;
root_x_c_dec_cmp(a: Decimal, b: Decimal) -> bool = a > b || a == Decimal::one() || a.is_zero() || a > Decimal::percent(50);
root_x_c_dec_mulmul(a: Decimal, b: Decimal) -> Decimal = a * b;
root_x_c_dec_inv(a: Decimal) -> Option<Decimal> = a.inv();
root_x_c_dec_sub1(a: Decimal) -> Option<Decimal> = Decimal::one().checked_sub(a).ok();
root_x_c_dec_atomics(a: Decimal) -> Uint128 = a.atomics();
root_x_c_dec_numer(a: Decimal) -> Uint128 = a.numerator() / a.denominator();
root_x_c_dec_new(a: Uint128) -> Decimal = Decimal::new(a);
root_x_c_dec_fromatomics(a: Uint128) -> Option<Decimal> = Decimal::from_atomics(a, 6).ok();
root_x_c_dec_chmul(a: Decimal, b: Decimal) -> Option<Decimal> = a.checked_mul(b).ok();
root_x_c_dec_str(a: Decimal) -> String = a.to_string();
root_x_c_coin(a: Uint128, b: String) -> Coin = Coin::new(a.u128(), b);
root_x_c_coinfn(a: u128, b: String) -> Vec<Coin> = cosmwasm_std::coins(a, b);
root_x_c_coineq(a: Coin, b: Coin) -> bool = a == b;
root_x_b_ops(a: BU, b: BU) -> BU = a * b + a - b;
root_x_b_cmp(a: BU, b: BU) -> bool = a > b || a <= BU::zero();
root_x_b_max(a: BU, b: BU) -> BU = std::cmp::max(a, b);
root_x_b_ordmin(a: BD, b: BD) -> BD = a.min(b);
root_x_b_into(a: Uint128) -> BU = a.into();
root_x_b_uint(a: BU) -> Uint128 = a.into();
root_x_b_dec(a: Decimal) -> BD = BD::from(a) * BD::percent(50);
root_x_b_div(a: BU, b: BD) -> BU = a / b;
root_x_e_std(a: u64) -> StdResult<u64> = if a > 3 { Err(StdError::generic_err("x")) } else { Ok(a) };
root_x_e_fmt(a: u64) -> StdResult<u64> = if a > 3 { Err(StdError::generic_err(format!("x {} {:?}", a, a))) } else { Ok(a) };
root_x_e_ensure(a: u64) -> StdResult<u64> = { cosmwasm_std::ensure!(a < 3, StdError::generic_err("x")); Ok(a) };
root_x_e_assert(a: u64) -> u64 = { assert!(a > 3, "no"); a };
root_x_e_assert_eq(a: u64, b: u64) -> u64 = { assert_eq!(a, b); a };
root_x_e_unreachable(a: u64) -> u64 = match a % 2 { 0 => 1, 1 => 2, _ => unreachable!() };
root_x_e_dyn(a: u64, b: u64) -> u64 = { let g: Box<dyn Fn(u64) -> u64> = if a > b { Box::new(|x| x / 2) } else { Box::new(move |x| x.max(b)) }; g(a) };
root_x_e_fnptr(a: u64, b: u64) -> u64 = { let g: fn(u64, u64) -> u64 = if a > b { std::cmp::min } else { std::cmp::max }; g(a, b) };
root_x_e_generic(a: u64, b: u64) -> u64 = app(|x| x / 2, a) + app(|x| x / 3, b);
root_x_e_implfn(a: u64, b: u64) -> u64 = adder(b)(a);
root_x_e_struct(a: u64, b: u64) -> bool = { let p = P { x: a, y: b }; let q = P { x: b, ..p.clone() }; p == q && P::default() != p };
root_x_e_tuple(a: u64, b: u64) -> (u64, u64) = if a > b { (b, a) } else { (a, b) };
root_x_e_enum(a: u64) -> u64 = match K::of(a) { K::A => 0, K::B(x) => x, K::C { y } => y / 2 };
root_x_e_trait(a: u64) -> u64 = P { x: a, y: 2 }.half();
root_x_e_const(a: u64) -> u64 = if a > LIM { LIM } else { a };
root_x_e_label(a: [u64; 2], b: [u64; 2]) -> bool = { 'o: for x in a { for y in b { if x == y { continue 'o; } } return false; } true };
root_x_e_shadow(a: u64) -> u64 = { let a = a / 2; let a = { let b = a + 1; b * 2 }; a };
root_x_e_rc(a: u64) -> u64 = { let r = std::rc::Rc::new(std::cell::RefCell::new(a)); { let s = r.clone(); *s.borrow_mut() /= 2; } let x = *r.borrow(); x };
root_x_e_cell(a: u64) -> u64 = { let r = std::cell::Cell::new(a); r.set(r.get() / 2); r.get() };
root_x_e_box(a: u64) -> u64 = { let mut r = Box::new(a); *r /= 2; *r };
root_x_e_dbg(a: u64) -> u64 = { let _x = format!("{:?}", Some(a)); a };
root_x_e_letunder(a: u64) -> u64 = { let _ = a.checked_add(1); let _b = a; a };
root_x_e_iter_succ(a: u64) -> usize = std::iter::successors(Some(a % 5), |x| x.checked_sub(1)).count();
root_x_e_repeat(a: u64) -> Vec<u64> = std::iter::repeat(a).take(2).collect();
root_x_e_rangemap(a: u64) -> Vec<u64> = (0..3u64).map(|k| a / (k + 1)).collect();
}
const LIM: u64 = 1_000;
fn f(a: u64, b: u64) -> Result<u64, u8> { if a >= b { Ok(a - b) } else { Err(7) } }
fn app<F: Fn(u64) -> u64>(f: F, a: u64) -> u64 { f(a) }
fn adder(b: u64) -> impl Fn(u64) -> u64 { move |x| x.wrapping_add(b) }
#[derive(Clone, PartialEq, Debug, Default)] pub struct P { x: u64, y: u64 }
trait H { fn half(&self) -> u64; fn dbl(&self) -> u64 { self.half() } }
impl H for P { fn half(&self) -> u64 { self.x / 2 } }
enum K { A, B(u64), C { y: u64 } }
impl K { fn of(a: u64) -> K { if a == 0 { K::A } else if a < 10 { K::B(a) } else { K::C { y: a } } } }
