"""Further standard-library functions, used by the usual alternative ways of writing the same code (iterator
adapters, array and vector helpers, characters of text)."""
from term import *
from values import *
from path import *
from interp import native, NATIVE
from natives import rx, out_ty, some, none, ok, mk_variant, UNIT, deep_ref, seqval, sort_of_s, norm_vec, iter_elem, iter_next, \
    call_closure, slice_range, search_native, flat_int, ok_ty, index_ref, sym_iter, veq_deep


def concrete_index(I, i, n):
    """a concrete value of i, 0 <= i <= n, by case distinction; None when i > n"""
    if is_c(i):
        return i if i <= n else None
    for k in range(n + 1):
        if I.p.branch(ieq(i, k)):
            return k
    return None


def vecv(I, r, what):
    v = I.deep(r)
    if not isinstance(v, VecV):
        raise Unsupported("%s of %s" % (what, short(v)))
    return v


# ---------------------------------------------------------------- iterators
@rx(r"^<std::(slice::Iter(Mut)?|vec::(IntoIter|Drain)|array::IntoIter|str::Bytes|str::Chars|slice::Windows|slice::Chunks(Exact)?)(<.*>)? as std::iter::Iterator>::size_hint$")
def n_size_hint(I, fn, a, c):
    it = I.deep(a[0])
    n = sub(it.hi, it.lo)
    ty = out_ty(I, fn)
    return Agg(ty, 0, (n, some(I, I.mir.types[ty].d["ts"][1], n)))


@rx(r"^<std::(slice::Iter(Mut)?|vec::IntoIter|array::IntoIter|str::Bytes)(<.*>)? as std::iter::Iterator>::__iterator_get_unchecked$")
def n_get_unchecked(I, fn, a, c):
    it = I.deep(a[0])
    return iter_elem(I, it, add(it.lo, a[1]))


@rx(r"^<std::(vec::Drain|slice::Windows|slice::Chunks|slice::ChunksExact)(<.*>)? as std::iter::(Iterator>::next|DoubleEndedIterator>::next_back)$")
def n_next2(I, fn, a, c):
    return iter_next(I, fn, a[0], fn.df.endswith("back"))


@rx(r"^<std::(vec::Drain|slice::Windows|slice::Chunks|slice::ChunksExact|str::Bytes|array::IntoIter)(<.*>)? as std::iter::(ExactSizeIterator>::len|Iterator>::count)$")
def n_len2(I, fn, a, c):
    it = I.deep(a[0])
    return sub(it.hi, it.lo)


@native("core::slice::<impl [T]>::windows", "core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_exact")
def n_windows(I, fn, a, c):
    op = fn.df.rsplit("::", 1)[1]
    v = seqval(I, a[0])
    w = a[1]
    if not is_c(w):
        raise Unsupported("%s of a symbolic size" % op)
    if w == 0:
        raise Panic("%s of size zero" % op)
    n = I.vlen(v)
    if isinstance(v, SeqV) and op == "windows":
        if not I.p.branch(ge(n, w)):
            return IterV("val", VecV(()), 0, 0)
        s = SeqV(I.mir, v.ety, sub(n, w - 1), v.base + "[windows]", v.args, lambda i: Ref(Cell(VecV([v.elem(add(i, k)) for k in range(w)]))))
        return IterV("val", s, 0, s.len)
    if not is_c(n):
        raise Unsupported("%s of symbolic text" % op)
    r = deep_ref(I, a[0]) if type(a[0]) is Ref else Ref(Cell(v))
    lo = range(0, n - w + 1) if op == "windows" else range(0, n, w) if op == "chunks" else range(0, n - w + 1, w)
    e = [Ref(r.cell, r.path + (("s", k, min(w, n - k)),)) for k in lo]
    return IterV("val", VecV(e), 0, len(e))


@native("std::iter::Iterator::peekable")
def n_peekable(I, fn, a, c):
    return a[0] if isinstance(a[0], IterV) else I.run(fn, a)


@rx(r"^<std::iter::Peekable<I> as std::iter::(Iterator>::next|DoubleEndedIterator>::next_back)$")
def n_peek_next(I, fn, a, c):
    return iter_next(I, fn, a[0], fn.df.endswith("back")) if isinstance(I.deep(a[0]), IterV) else I.run(fn, a)


@rx(r"^std::iter::Peekable::<I>::peek$")
def n_peek(I, fn, a, c):
    it = I.deep(a[0])
    if not isinstance(it, IterV):
        return I.run(fn, a)
    if not I.p.branch(lt(it.lo, it.hi)):
        return none(I, out_ty(I, fn))
    return some(I, out_ty(I, fn), Ref(Cell(iter_elem(I, it, it.lo))))


@rx(r"^<std::str::Chars(<.*>)? as std::iter::Iterator>::count$")
def n_chars_count(I, fn, a, c):
    it = I.deep(a[0])
    return sub(it.hi, it.lo)


# ---------------------------------------------------------------- arrays
@native("std::array::<impl [T; N]>::map", "core::array::<impl [T; N]>::map")
def n_arr_map(I, fn, a, c):
    v = vecv(I, a[0], "map")
    f = a[1] if type(a[1]) is Ref else Ref(Cell(a[1]))
    return VecV([call_closure(I, f, [x]) for x in v.e])


@native("std::array::from_fn", "core::array::from_fn")
def n_from_fn(I, fn, a, c):
    f = a[0] if type(a[0]) is Ref else Ref(Cell(a[0]))
    return VecV([call_closure(I, f, [k]) for k in range(I.mir.types[out_ty(I, fn)].d["n"])])


@rx(r"<impl std::convert::TryFrom<std::vec::Vec<T, A>> for \[T; N\]>::try_from$")
def n_arr_try_from(I, fn, a, c):
    ty = out_ty(I, fn)
    v = seqval(I, a[0])
    n = I.mir.types[ok_ty(I, ty)].d["n"]
    if not I.p.branch(ieq(I.vlen(v), n)):
        return mk_variant(I, ty, "Err", a[0])
    return ok(I, ty, v if isinstance(v, (VecV, bytes)) or sort_of_s(v) else VecV([v.elem(i) for i in range(n)]))


@rx(r"<impl std::convert::TryFrom<&(mut )?\[T\]> for (&(mut )?)?\[T; N\]>::try_from$")
def n_arr_try_from_slice(I, fn, a, c):
    ty = out_ty(I, fn)
    v = seqval(I, a[0])
    t = I.mir.types[ok_ty(I, ty)]
    byref = t.k == "ref"
    n = (I.mir.types[t.d["t"]] if byref else t).d["n"]
    if not I.p.branch(ieq(I.vlen(v), n)):
        return mk_variant(I, ty, "Err", UNIT)
    if isinstance(v, SeqV):
        v = VecV([v.elem(i) for i in range(n)])
        return ok(I, ty, Ref(Cell(v)) if byref else v)
    return ok(I, ty, a[0] if byref else v)


# ---------------------------------------------------------------- vectors
@native("std::vec::Vec::<T, A>::truncate", "std::string::String::truncate")
def n_truncate(I, fn, a, c):
    if fn.df.startswith("std::string"):
        raise Unsupported("truncate of text")
    v = vecv(I, a[0], "truncate")
    k = concrete_index(I, a[1], len(v.e))
    if k is not None:
        I.store_ref(a[0], VecV(v.e[:k]))
    return UNIT


@native("std::vec::Vec::<T, A>::split_off")
def n_split_off(I, fn, a, c):
    v = vecv(I, a[0], "split_off")
    k = concrete_index(I, a[1], len(v.e))
    if k is None:
        raise Panic("split_off")
    I.store_ref(a[0], VecV(v.e[:k]))
    return VecV(v.e[k:])


@native("std::vec::Vec::<T, A>::swap_remove")
def n_swap_remove(I, fn, a, c):
    v = vecv(I, a[0], "swap_remove")
    k = concrete_index(I, a[1], len(v.e) - 1) if v.e else None
    if k is None:
        raise Panic("swap_remove")
    e = list(v.e)
    x, e[k] = e[k], e[-1]
    I.store_ref(a[0], VecV(e[:-1]))
    return x


@native("std::vec::Vec::<T, A>::drain")
def n_drain(I, fn, a, c):
    v = vecv(I, a[0], "drain")
    s = I.deep(slice_range(I, a[0], a[1]))
    if not isinstance(s, VecV):
        raise Unsupported("drain")
    rng = a[1]
    nm = I.mir.types[rng.tid].d["name"]
    lo = 0 if nm.endswith("RangeFull") or nm.endswith("RangeTo") else rng.f[0]
    I.store_ref(a[0], VecV(v.e[:lo] + v.e[lo + len(s.e):]))
    return IterV("val", s, 0, len(s.e))


@native("std::vec::Vec::<T, A>::retain", "std::vec::Vec::<T, A>::retain_mut")
def n_retain(I, fn, a, c):
    v = vecv(I, a[0], "retain")
    f = a[1] if type(a[1]) is Ref else Ref(Cell(a[1]))
    o = []
    for x in v.e:
        cell = Cell(x)
        if I.p.branch(call_closure(I, f, [Ref(cell)])):
            o.append(cell.v)
    I.store_ref(a[0], VecV(o))
    return UNIT


@native("std::vec::Vec::<T, A>::into_boxed_slice", "std::slice::<impl [T]>::into_vec")
def n_boxed(I, fn, a, c):
    return seqval(I, a[0])


@native("std::vec::from_elem")
def n_from_elem(I, fn, a, c):
    if not is_c(a[1]):
        raise Unsupported("vector of a symbolic length")
    return norm_vec(I, out_ty(I, fn), VecV([a[0]] * a[1]))


@native("std::vec::Vec::<T, A>::push_mut")
def n_push_mut(I, fn, a, c):
    v = vecv(I, a[0], "push_mut")
    r = deep_ref(I, a[0])
    I.store_ref(r, VecV(v.e + (a[1],)))
    return Ref(r.cell, r.path + (("i", len(v.e)),))


@rx(r"^<std::(vec::Vec<T, A>|string::String) as std::iter::Extend<.*>>::(extend_reserve)$|^std::(vec::Vec::<T, A>|string::String)::(reserve|reserve_exact|shrink_to_fit)$")
def n_reserve(I, fn, a, c):
    return UNIT


@rx(r"^<std::vec::Vec<T, A> as std::iter::Extend<T>>::(extend_one|extend_one_unchecked)$")
def n_extend_one(I, fn, a, c):
    v = vecv(I, a[0], "extend_one")
    I.store_ref(a[0], VecV(v.e + (a[1],)))
    return UNIT


def sorted_map(I, m):
    """entries of an ordered map in the order of their keys"""
    o = []
    for k, v in m.data:
        x = I.deep(k)
        while type(x) is Agg and len(x.f) == 1:
            x = I.deep(x.f[0])
        if not isinstance(x, (int, bytes, T)):
            raise Unsupported("order of map keys")
        i = 0
        while i < len(o) and not I.p.branch(not_(sle(o[i][0], x)) if sort_of_s(x) else lt(x, o[i][0])):
            i += 1
        o.insert(i, (x, k, v))
    return [(k, v) for _, k, v in o]


@rx(r"^<(&('a )?)?std::collections::BTreeSet<.*> as std::iter::IntoIterator>::into_iter$|^std::collections::BTreeSet::<.*>::iter$")
def n_bset_iter(I, fn, a, c):
    m = I.deep(a[0])
    if not isinstance(m, Opaque) or m.what != "map" or (m.data and m.data[0] == "sym"):
        raise Unsupported("iteration over %s" % short(m))
    byref = type(a[0]) is Ref
    e = VecV([Ref(Cell(k)) if byref else k for k, _ in sorted_map(I, m)])
    return IterV("val", e, 0, len(e.e))


@rx(r"^<std::collections::btree_set::(IntoIter|Iter)<.*> as std::iter::(Iterator>::next|DoubleEndedIterator>::next_back)$")
def n_bset_next(I, fn, a, c):
    return iter_next(I, fn, a[0], fn.df.endswith("back"))


@native("std::vec::Vec::<T, A>::first_mut", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def n_first_mut(I, fn, a, c):
    v = seqval(I, a[0])
    n = I.vlen(v)
    if not I.p.branch(gt(n, 0)):
        return none(I, out_ty(I, fn))
    return some(I, out_ty(I, fn), index_ref(I, a[0], sub(n, 1) if fn.df.endswith("last_mut") else 0))


@native("core::slice::<impl [T]>::get_mut")
def n_get_mut(I, fn, a, c):
    if not isinstance(a[1], (int, T)):
        raise Unsupported("get_mut range")
    if I.p.branch(lt(a[1], I.vlen(seqval(I, a[0])))):
        return some(I, out_ty(I, fn), index_ref(I, a[0], a[1]))
    return none(I, out_ty(I, fn))


@native("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def n_split_first(I, fn, a, c):
    v = seqval(I, a[0])
    n = I.vlen(v)
    oty = out_ty(I, fn)
    if not I.p.branch(gt(n, 0)):
        return none(I, oty)
    first = fn.df.endswith("first")
    x = index_ref(I, a[0], 0 if first else sub(n, 1))
    if isinstance(v, SeqV):
        rest = Ref(Cell(v.view(1 if first else 0, sub(n, 1))))
    elif is_c(n) and not sort_of_s(v):
        r = deep_ref(I, a[0]) if type(a[0]) is Ref else Ref(Cell(v))
        rest = Ref(r.cell, r.path + (("s", 1 if first else 0, n - 1),))
    else:
        raise Unsupported("split of text")
    return some(I, oty, Agg(I.mir.types[oty].d["vs"][1]["f"][0][1], 0, (x, rest)))


# ---------------------------------------------------------------- text
@rx(r"^(std|alloc)::string::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$|^<std::string::String as std::cmp::PartialEq<.*>>::(eq|ne)$")
def n_streq2(I, fn, a, c):
    r = seq(I.sval(a[0]), I.sval(a[1]))
    return not_(r) if fn.df.endswith("ne") else r


@rx(r"^<std::(string::String|vec::Vec<T, A>) as std::clone::Clone>::clone_from$|^std::clone::Clone::clone_from$")
def n_clone_from(I, fn, a, c):
    I.store_ref(a[0], I.deep(a[1]))
    return UNIT


def non_ascii(I, s):
    """position of the first byte >= 128 of the text, or None"""
    if isinstance(s, bytes):
        return next((i for i, b in enumerate(s) if b >= 128), None)
    from seqs import search
    return search(I, I.vlen(s), lambda j: ge(I.proj(s, ("i", j)), 128))


@native("core::str::<impl str>::is_ascii", "core::slice::ascii::<impl [u8]>::is_ascii")
def n_is_ascii(I, fn, a, c):
    return non_ascii(I, I.sval(a[0])) is None


@native("core::str::<impl str>::bytes", "core::str::<impl str>::chars")
def n_strbytes(I, fn, a, c):
    s = I.sval(a[0])
    if fn.df.endswith("chars"):
        return char_iter(I, s)
    if isinstance(s, bytes):
        return IterV("val", VecV(list(s)), 0, len(s))
    return IterV("val", s, 0, I.vlen(s))


def char_iter(I, s):
    """iterator over the characters of text"""
    if isinstance(s, bytes):
        e = [ord(ch) for ch in s.decode()]
        return IterV("val", VecV(e), 0, len(e))
    if non_ascii(I, s) is not None:
        # characters of text that is not ASCII: an unknown sequence with at least one character >= 128
        from seqs import position
        n = app("char.count", (s,), "I", 1, 2 ** 32)
        w = app("char.wide", (s,), "I", 0, 2 ** 32)
        at = lambda i: app("char.at", (s, i), "I", 0, 0x10FFFF)
        I.p.assume(and_(lt(n, I.vlen(s)), lt(w, n), ge(at(w), 128)))
        position(I.p, w)
        return IterV("val", SeqV(I.mir, None, n, "chars", (s,), at), 0, n)
    return IterV("val", s, 0, I.vlen(s))


for _k in ("all", "any", "find", "position"):
    NATIVE["probe::models::model_bytes_" + _k] = search_native(_k)


@native("core::str::<impl str>::eq_ignore_ascii_case")
def n_eq_case(I, fn, a, c):
    low = lambda s: s.lower() if isinstance(s, bytes) else app("str.to_ascii_lowercase", (s,), "S")
    return seq(low(I.sval(a[0])), low(I.sval(a[1])))


@native("cosmwasm_std::Binary::to_base64")
def n_to_base64(I, fn, a, c):
    return b64(I.sval(a[0]))


@rx(r"^<I as cosmwasm_std::Isqrt>::isqrt$|^<cosmwasm_std::Uint\d+ as cosmwasm_std::Isqrt>::isqrt$")
def n_cw_isqrt(I, fn, a, c):
    x = isqrt(flat_int(I, a[0]))
    wrap = lambda t: x if I.mir.types[t].k == "uint" or I.mir.types[t].d["name"].endswith("U256") else Agg(t, 0, (wrap(I.mir.types[t].d["vs"][0]["f"][0][1]),))
    return wrap(out_ty(I, fn))


# ---------------------------------------------------------------- fixed-point numbers of cosmwasm_std
E18 = 10 ** 18


@rx(r"^<cosmwasm_std::Decimal as std::ops::Mul>::mul$|^cosmwasm_std::Decimal::checked_mul$|^<&cosmwasm_std::Decimal as std::ops::Mul(<.*>)?>::mul$")
def n_dec_mul(I, fn, a, c):
    x, y = flat_int(I, a[0]), flat_int(I, a[1])
    r = fdiv(mul(x, y), E18)
    fits = I.p.branch(lt(r, 1 << 128))
    ty = out_ty(I, fn)
    wrap = lambda t: Agg(t, 0, (Agg(I.mir.types[t].d["vs"][0]["f"][0][1], 0, (r,)),))
    if fn.df.endswith("checked_mul"):
        if fits:
            return ok(I, ty, wrap(ok_ty(I, ty)))
        return mk_variant(I, ty, "Err", Opaque("OverflowError"))
    if not fits:
        raise Panic("attempt to multiply with overflow")
    return wrap(ty)
