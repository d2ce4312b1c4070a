//! Plain generic replacements for a few standard-library loops whose library bodies work on raw
//! pointers. They are the trusted specification of those library functions.
use std::alloc::Allocator;
use std::ops::{ControlFlow, Try};

pub fn model_extend<T, A: Allocator, I: IntoIterator<Item = T>>(v: &mut Vec<T, A>, it: I) {
    for x in it { v.push(x); }
}
pub fn model_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it { v.push(x); }
    v
}
pub fn model_result_from_iter<A, E, V: FromIterator<A>, I: IntoIterator<Item = Result<A, E>>>(it: I) -> Result<V, E> {
    let mut v: Vec<A> = Vec::new();
    for x in it {
        match x { Ok(y) => v.push(y), Err(e) => return Err(e) }
    }
    Ok(V::from_iter(v))
}
pub fn model_option_from_iter<A, V: FromIterator<A>, I: IntoIterator<Item = Option<A>>>(it: I) -> Option<V> {
    let mut v: Vec<A> = Vec::new();
    for x in it {
        match x { Some(y) => v.push(y), None => return None }
    }
    Some(V::from_iter(v))
}
pub fn model_it_find<'a, T, P: FnMut(&&T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut p: P) -> Option<&'a T> {
    while let Some(x) = it.next() { if p(&x) { return Some(x); } }
    None
}
pub fn model_it_find_map<'a, T, B, F: FnMut(&T) -> Option<B>>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { let r = f(x); if r.is_some() { return r; } }
    None
}
pub fn model_it_any<'a, T, F: FnMut(&T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn model_it_all<'a, T, F: FnMut(&T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn model_it_position<'a, T, P: FnMut(&T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; }
    None
}
pub fn model_it_for_each<'a, T, F: FnMut(&T)>(mut it: std::slice::Iter<'a, T>, mut f: F) {
    while let Some(x) = it.next() { f(x) }
}
pub fn model_it_fold<'a, T, B, F: FnMut(B, &T) -> B>(mut it: std::slice::Iter<'a, T>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn model_it_last<'a, T>(mut it: std::slice::Iter<'a, T>) -> Option<&'a T> { it.next_back() }
pub fn model_it_nth<'a, T>(it: &mut std::slice::Iter<'a, T>, n: usize) -> Option<&'a T> {
    let mut i = 0;
    while i < n { if it.next().is_none() { return None; } i += 1; }
    it.next()
}
pub fn model_vit_fold<T, A: Allocator, B, F: FnMut(B, T) -> B>(mut it: std::vec::IntoIter<T, A>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn model_vit_try_fold<T, A: Allocator, B, F: FnMut(B, T) -> R, R: Try<Output = B>>(it: &mut std::vec::IntoIter<T, A>, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).branch() { ControlFlow::Continue(c) => acc = c, ControlFlow::Break(r) => return R::from_residual(r) }
    }
    R::from_output(acc)
}
pub fn model_bytes_all<F: FnMut(u8) -> bool>(it: &mut std::str::Bytes<'_>, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn model_bytes_any<F: FnMut(u8) -> bool>(it: &mut std::str::Bytes<'_>, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn model_bytes_find<P: FnMut(&u8) -> bool>(it: &mut std::str::Bytes<'_>, mut p: P) -> Option<u8> {
    while let Some(x) = it.next() { if p(&x) { return Some(x); } }
    None
}
pub fn model_bytes_position<P: FnMut(u8) -> bool>(it: &mut std::str::Bytes<'_>, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; }
    None
}
pub fn model_ait_fold<T, const N: usize, B, F: FnMut(B, T) -> B>(mut it: std::array::IntoIter<T, N>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn model_ait_try_fold<T, const N: usize, B, F: FnMut(B, T) -> R, R: Try<Output = B>>(it: &mut std::array::IntoIter<T, N>, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).branch() { ControlFlow::Continue(c) => acc = c, ControlFlow::Break(r) => return R::from_residual(r) }
    }
    R::from_output(acc)
}
pub fn model_it_rposition<'a, T, P: FnMut(&T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut p: P) -> Option<usize> {
    let mut n = it.len();
    while let Some(x) = it.next_back() { n -= 1; if p(x) { return Some(n); } }
    None
}
pub fn model_btreeset_from_iter<T: Ord, I: IntoIterator<Item = T>>(it: I) -> std::collections::BTreeSet<T> {
    let mut s = std::collections::BTreeSet::new();
    for x in it { s.insert(x); }
    s
}
pub fn model_hashset_from_iter<T: Eq + std::hash::Hash, S: std::hash::BuildHasher + Default, I: IntoIterator<Item = T>>(it: I) -> std::collections::HashSet<T, S> {
    let mut s = std::collections::HashSet::default();
    for x in it { s.insert(x); }
    s
}
pub fn model_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut [T], mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && f(&v[j - 1], &v[j]) == std::cmp::Ordering::Greater { v.swap(j - 1, j); j -= 1; }
        i += 1;
    }
}
pub fn model_sort<T: Ord>(v: &mut [T]) { model_sort_by(v, |a, b| a.cmp(b)) }
pub fn model_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) { model_sort_by(v, |a, b| f(a).cmp(&f(b))) }
