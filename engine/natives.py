"""Trusted specifications of library functions (std, bigint, cosmwasm host interface, cw-storage-plus).
Everything here is part of the trusted base and is listed in the evidence."""
import re
from term import *
import term as tm
from values import *
from interp import native, NATIVE, NATIVE_RX, norm_df
import fmtspec


def rx(pat):
    def d(f):
        NATIVE_RX.append((re.compile(pat), f))
        return f
    return d


def out_ty(I, fn):
    if fn.blocks is not None:
        return fn.locals[0]
    return fn.sig["out"]


def mk_variant(I, ty, name, *fields):
    return Agg(ty, I.mir.variant_index(ty, name), tuple(fields))


def some(I, ty, v):
    return mk_variant(I, ty, "Some", v)


def none(I, ty):
    return mk_variant(I, ty, "None")


def ok(I, ty, v):
    return mk_variant(I, ty, "Ok", v)


def err_ty(I, ty):
    t = I.mir.types[ty]
    return t.d["vs"][I.mir.variant_index(ty, "Err")]["f"][0][1]


def ok_ty(I, ty):
    t = I.mir.types[ty]
    return t.d["vs"][I.mir.variant_index(ty, "Ok")]["f"][0][1]


def opaque_val(I, ty, what):
    """an unspecified value of a type"""
    return fresh(I.mir, ty, "%s#%d" % (what, I.p.fresh_id()))


def std_err(I, ty, what):
    """Err(StdError::...) of a Result type: the content of error values is unspecified"""
    et = err_ty(I, ty)
    t = I.mir.types[et]
    if t.k == "adt" and t.d["name"].endswith("StdError"):
        v = I.mir.variant_index(et, "NotFound" if what == "notfound" else "GenericErr")
        fs = t.d["vs"][v]["f"]
        return mk_variant(I, ty, "Err", Agg(et, v, tuple(app("errmsg#%d" % I.p.fresh_id(), (), "S") for _ in fs)))
    return mk_variant(I, ty, "Err", Opaque("error", what))


# ---------------------------------------------------------------- panics
@native("core::panicking::panic", "core::panicking::panic_fmt", "std::rt::panic_fmt", "std::rt::begin_panic", "core::panicking::panic_nounwind",
        "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed", "core::panicking::unreachable_display",
        "core::panicking::assert_failed_inner", "core::panicking::assert_failed", "core::num::imp::overflow_panic::pow", "core::panicking::panic_explicit",
        "core::panicking::panic_display", "core::panicking::panic_bounds_check", "core::slice::index::slice_index_fail", "core::slice::copy_from_slice_impl::len_mismatch_fail",
        "std::process::abort", "core::panicking::panic_const::panic_const_div_by_zero")
def n_panic(I, fn, a, c):
    raise Panic(fn.df)


@rx(r"::(overflow_panic|panic_const)::")
def n_panic2(I, fn, a, c):
    raise Panic(fn.df)


# ---------------------------------------------------------------- identity-like functions
@native("<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes",
        "std::string::String::into_bytes", "std::str::<impl str>::into_string", "<str as std::convert::AsRef<[u8]>>::as_ref", "std::string::String::into_boxed_str",
        "std::str::<impl std::borrow::ToOwned for str>::to_owned", "<std::string::String as std::convert::From<&str>>::from", "<std::string::String as std::convert::AsRef<str>>::as_ref",
        "<std::string::String as std::convert::AsRef<[u8]>>::as_ref", "core::str::converts::from_utf8_unchecked", "std::str::from_utf8_unchecked",
        "<std::string::String as std::borrow::Borrow<str>>::borrow", "<std::string::String as std::convert::From<&std::string::String>>::from",
        "<std::string::String as std::clone::Clone>::clone", "std::string::String::as_mut_str", "<str as std::string::SpecToString>::spec_to_string",
        "<std::string::String as std::string::SpecToString>::spec_to_string", "core::str::<impl std::convert::AsRef<[u8]> for str>::as_ref",
        "<std::borrow::Cow<'_, B> as std::convert::AsRef<T>>::as_ref", "std::string::String::leak")
def n_sval(I, fn, a, c):
    return I.sval(a[0])


@native("std::hint::must_use", "std::hint::black_box", "std::convert::identity", "std::intrinsics::black_box", "<T as std::convert::From<T>>::from",
        "<I as std::iter::IntoIterator>::into_iter", "std::boxed::Box::<T>::into_inner")
def n_id(I, fn, a, c):
    return a[0]


@native("std::intrinsics::cold_path", "std::intrinsics::assert_inhabited", "std::intrinsics::assert_zero_valid", "std::mem::drop", "std::mem::forget")
def n_unit(I, fn, a, c):
    return UNIT


@rx(r"^std::ptr::drop_in_place|^core::ptr::drop_glue|^std::ptr::drop_glue")
def n_drop(I, fn, a, c):
    return UNIT


@native("std::any::type_name")
def n_type_name(I, fn, a, c):
    return ("type:" + I.mir.tyname(fn.args[0])).encode()


@native("std::mem::swap", "std::intrinsics::typed_swap_nonoverlapping")
def n_swap(I, fn, a, c):
    x, y = I.load(a[0]), I.load(a[1])
    I.store_ref(a[0], y)
    I.store_ref(a[1], x)
    return UNIT


@native("std::mem::replace")
def n_replace(I, fn, a, c):
    x = I.load(a[0])
    I.store_ref(a[0], a[1])
    return x


@native("std::mem::take")
def n_take(I, fn, a, c):
    x = I.load(a[0])
    if isinstance(x, VecV) or isinstance(x, SeqV):
        I.store_ref(a[0], VecV(()))
    elif sort_of(x) == "S":
        I.store_ref(a[0], b"")
    else:
        raise Unsupported("mem::take")
    return x


@native("intrinsic:discriminant_value", "std::intrinsics::discriminant_value")
def n_discr(I, fn, a, c):
    v = I.discr(I.load(a[0]))
    t = I.mir.types[out_ty(I, fn)]
    if isinstance(v, int) and t.k == "int" and v >= 1 << (t.d["w"] - 1):
        v -= 1 << t.d["w"]
    return v


@native("intrinsic:three_way_compare")
def n_3way(I, fn, a, c):
    return I.ordering(out_ty(I, fn), a[0], a[1])


@native("intrinsic:saturating_sub")
def n_satsub(I, fn, a, c):
    r = sub(a[0], a[1])
    return r if I.p.branch(ge(r, 0)) else 0


@native("intrinsic:integer_min")
def n_imin(I, fn, a, c):
    return imin(a[0], a[1])


@native("std::cmp::min", "std::cmp::max", "std::cmp::Ord::min", "std::cmp::Ord::max")
def n_min(I, fn, a, c):
    x, y = flat_int(I, a[0]), flat_int(I, a[1])
    t = I.mir.types[fn.args[0]]
    if x is None or y is None or t.d.get("name", "").startswith(("halo", "bignumber")):
        return I.run(fn, a)
    # min keeps the first of equal values, max the second
    first = I.p.branch(le(x, y)) if fn.df.endswith("min") else I.p.branch(lt(y, x))
    return a[0] if first else a[1]


@native("intrinsic:is_val_statically_known")
def n_false(I, fn, a, c):
    return False


@native("intrinsic:select_unpredictable")
def n_select(I, fn, a, c):
    return a[1] if I.p.branch(a[0]) else a[2]


@native("std::boxed::Box::<T>::new")
def n_box(I, fn, a, c):
    return Ref(Cell(a[0]))


@native("std::boxed::Box::<T>::new_uninit")
def n_box_uninit(I, fn, a, c):
    return Ref(Cell(Agg(None, 0, (UNIT, Agg(None, 0, (Agg(None, 0, (UNINIT,)),))))))


def unwrap_uninit(v):
    while isinstance(v, Agg) and v.tid is None:
        v = v.f[-1]
    return v


@native("std::boxed::box_assume_init_into_vec_unsafe")
def n_box_vec(I, fn, a, c):
    v = unwrap_uninit(a[0].cell.v)
    if not isinstance(v, VecV):
        raise Unsupported("box into vec %s" % short(v))
    return to_vec(I, fn, v)


def to_vec(I, fn, v):
    """Vec<u8> from concrete bytes is a byte string"""
    ty = out_ty(I, fn)
    return norm_vec(I, ty, v)


def norm_vec(I, ty, v):
    if ty is not None and I.mir.types[ty].k == "adt" and is_bytes_vec(I.mir, ty) and isinstance(v, VecV):
        if all(isinstance(b, int) for b in v.e):
            return bytes(v.e)
        raise Unsupported("vector of symbolic bytes")
    return v


# ---------------------------------------------------------------- clone, equality, order
@rx(r"as std::clone::Clone>::clone$|<impl std::clone::Clone for .*>::clone$")
def n_clone(I, fn, a, c):
    return I.load(a[0]) if type(a[0]) is Ref else a[0]


@native("core::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "std::slice::<impl [T]>::into_vec",
        "std::boxed::<impl std::convert::From<&[T]> for std::boxed::Box<[T]>>::from")
def n_to_vec(I, fn, a, c):
    return norm_vec(I, out_ty(I, fn), seqval(I, a[0]))


def seqval(I, x):
    """sequence value behind vec / slice / array references"""
    v = I.deep(x)
    while type(v) is Agg and len(v.f) == 1:
        v = I.deep(v.f[0])
    if isinstance(v, (VecV, SeqV, bytes)) or (isinstance(v, T) and v.sort == "S"):
        return v
    raise Unsupported("sequence value of %s" % short(v))


def veq_deep(I, a, b):
    """structural equality -> term"""
    a, b = I.deep(a), I.deep(b)
    if a is b:
        return True
    if isinstance(a, (int, bytes, T)) or isinstance(b, (int, bytes, T)):
        while type(a) is Agg and len(a.f) == 1:
            a = I.deep(a.f[0])
        while type(b) is Agg and len(b.f) == 1:
            b = I.deep(b.f[0])
        if isinstance(a, VecV):
            a = I.sval(a)
        if isinstance(b, VecV):
            b = I.sval(b)
        if not isinstance(a, (int, bytes, T)) or not isinstance(b, (int, bytes, T)):
            raise Unsupported("equality of %s and %s" % (short(a), short(b)))
        return veq(a, b)
    if isinstance(a, VecV) and isinstance(b, VecV):
        if len(a.e) != len(b.e):
            return False
        return and_(*[veq_deep(I, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        if a.base == b.base and a.args == b.args and a.fn is None and b.fn is None:
            return True
        if a.root is b.root and veq(a.off, b.off) is True and veq(a.len, b.len) is True:
            return True
        if not I.p.branch(ieq(a.len, b.len)):
            return False
        from seqs import search
        return search(I, a.len, lambda j: not_(veq_deep(I, a.elem(j), b.elem(j)))) is None
    if isinstance(a, SeqV) or isinstance(b, SeqV):
        if isinstance(b, SeqV):
            a, b = b, a
        return and_(ieq(a.len, len(b.e)), *[veq_deep(I, a.elem(i), y) for i, y in enumerate(b.e)]) if I.p.branch(ieq(a.len, len(b.e))) else False
    va, vb = I.variant(a), I.variant(b)
    if va != vb:
        return False
    t = I.mir.types[a.tid if type(a) is Agg else a.tid] if a.tid is not None else None
    n = len(a.f) if type(a) is Agg else len(b.f) if type(b) is Agg else len(t.d["vs"][va]["f"])
    r = True
    for i in range(n):
        r = and_(r, veq_deep(I, I.vfield(a, va, i), I.vfield(b, va, i)))
        if r is False:
            return False
    return r


def has_user_eq(I, ty):
    return False


@native("<std::string::String as std::cmp::PartialEq>::eq", "<std::string::String as std::cmp::PartialEq<str>>::eq", "<std::string::String as std::cmp::PartialEq<&'a str>>::eq",
        "<str as std::cmp::PartialEq<std::string::String>>::eq", "core::str::traits::<impl std::cmp::PartialEq for str>::eq", "<&'a str as std::cmp::PartialEq<std::string::String>>::eq")
def n_streq(I, fn, a, c):
    return seq(I.sval(a[0]), I.sval(a[1]))


@rx(r"^(std|core|alloc)::.*<impl std::cmp::PartialEq<.*> for (\[.*\]|std::vec::Vec<.*>|&\[.*\]|std::collections::VecDeque.*)>::(eq|ne)$|<impl std::cmp::PartialEq for \[.*\]>::eq$|^<std::option::Option<T> as std::cmp::PartialEq>::eq$")
def n_seqeq(I, fn, a, c):
    r = veq_deep(I, a[0], a[1])
    return not_(r) if fn.df.endswith("ne") else r


@native("intrinsic:raw_eq")
def n_raweq(I, fn, a, c):
    return veq_deep(I, a[0], a[1])


@native("<std::string::String as std::cmp::Ord>::cmp", "core::str::traits::<impl std::cmp::Ord for str>::cmp", "core::slice::cmp::<impl std::cmp::Ord for [T]>::cmp")
def n_strcmp(I, fn, a, c):
    x, y = I.sval(a[0]), I.sval(a[1])
    ty = out_ty(I, fn)
    d = ite(seq(x, y), 1, ite(sle(x, y), 0, 2))
    return Agg(ty, d, ()) if isinstance(d, int) else SymEnum(I.mir, ty, d, "ordering", ())


@rx(r"<(std::string::String|str) as std::cmp::PartialOrd.*>::partial_cmp$|<impl std::cmp::PartialOrd for (\[T\]|str)>::partial_cmp$")
def n_strpcmp(I, fn, a, c):
    oty = out_ty(I, fn)
    ty = I.mir.types[oty].d["vs"][1]["f"][0][1]
    x, y = I.sval(a[0]), I.sval(a[1])
    d = ite(seq(x, y), 1, ite(sle(x, y), 0, 2))
    return some(I, oty, Agg(ty, d, ()) if isinstance(d, int) else SymEnum(I.mir, ty, d, "ordering", ()))


@rx(r"<impl std::cmp::PartialOrd for (\[T\]|str)>::(lt|le|gt|ge)$|^<std::(string::String|vec::Vec<T, A1?>) as std::cmp::PartialOrd.*>::(lt|le|gt|ge)$")
def n_strord(I, fn, a, c):
    t = fn.args[0] if fn.args else None
    if "str" not in fn.df.split("::lt")[0] and t is not None and I.mir.types[t].d.get("w") != 8:
        return I.run(fn, a)
    op = fn.df.rsplit("::", 1)[1]
    x, y = I.sval(a[0]), I.sval(a[1])
    return {"le": lambda: sle(x, y), "ge": lambda: sle(y, x), "lt": lambda: not_(sle(y, x)), "gt": lambda: not_(sle(x, y))}[op]()


def flat_int(I, x):
    x = I.deep(x)
    while type(x) is Agg and len(x.f) == 1:
        x = I.deep(x.f[0])
    return x if isinstance(x, (int, T)) and sort_of(x) == "I" else None


@native("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def n_pord(I, fn, a, c):
    # comparison of single-integer values whose partial_cmp is derived or belongs to the standard library
    x, y = flat_int(I, a[0]), flat_int(I, a[1])
    t = I.mir.types[fn.args[0]]
    nm = t.d.get("name", "")
    if x is not None and y is not None and not nm.startswith(("halo", "bignumber")):
        op = fn.df.rsplit("::", 1)[1]
        return {"lt": lt, "le": le, "gt": gt, "ge": ge}[op](x, y)
    return I.run(fn, a)


@rx(r"core::cmp::impls::<impl std::cmp::(PartialOrd|PartialEq) for [ui](8|16|32|64|128|size)>::(lt|le|gt|ge|eq|ne)$|std::cmp::impls::<impl std::cmp::(PartialOrd|PartialEq) for [ui](8|16|32|64|128|size)>::(lt|le|gt|ge|eq|ne)$")
def n_intcmp(I, fn, a, c):
    op = fn.df.rsplit("::", 1)[1]
    return {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": ieq, "ne": lambda x, y: not_(ieq(x, y))}[op](I.load(a[0]), I.load(a[1]))


@rx(r"cmp::impls::<impl std::cmp::PartialOrd for .*>::partial_cmp$")
def n_intpcmp(I, fn, a, c):
    oty = out_ty(I, fn)
    ty = I.mir.types[oty].d["vs"][1]["f"][0][1]
    x, y = flat_int(I, a[0]), flat_int(I, a[1])
    if x is None or y is None:
        return I.run(fn, a)
    return some(I, oty, I.ordering(ty, x, y))


@rx(r"cmp::impls::<impl std::cmp::Ord for [ui](8|16|32|64|128|size)>::(cmp|min|max)$")
def n_intord(I, fn, a, c):
    op = fn.df.rsplit("::", 1)[1]
    if op == "cmp":
        return I.ordering(out_ty(I, fn), I.load(a[0]), I.load(a[1]))
    if op == "min":
        return a[0] if I.p.branch(le(a[0], a[1])) else a[1]
    return a[1] if I.p.branch(le(a[0], a[1])) else a[0]


@native("<bigint::U256 as std::cmp::Ord>::cmp")
def n_u256cmp(I, fn, a, c):
    return I.ordering(out_ty(I, fn), flat_int(I, a[0]), flat_int(I, a[1]))


@native("<bigint::U256 as std::cmp::PartialEq>::eq")
def n_u256eq(I, fn, a, c):
    return ieq(flat_int(I, a[0]), flat_int(I, a[1]))


@native("<bigint::U256 as std::cmp::PartialOrd>::partial_cmp")
def n_u256pcmp(I, fn, a, c):
    oty = out_ty(I, fn)
    ty = I.mir.types[oty].d["vs"][1]["f"][0][1]
    return some(I, oty, I.ordering(ty, flat_int(I, a[0]), flat_int(I, a[1])))


# ---------------------------------------------------------------- machine integers
def int_range(I, ty):
    t = I.mir.types[ty]
    w = t.d["w"]
    return (0, (1 << w) - 1) if t.k == "uint" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


@rx(r"^core::num::<impl [ui](8|16|32|64|128|size)>::(checked|wrapping|saturating|overflowing)_(add|sub|mul|div|rem|pow|neg|next_power_of_two)$")
def n_num(I, fn, a, c):
    m = re.search(r"::(checked|wrapping|saturating|overflowing)_(\w+)$", fn.df)
    mode, op = m.group(1), m.group(2)
    ty = fn.sig["in"][0] if fn.sig else fn.locals[1]
    l, h = int_range(I, ty)
    x = a[0]
    y = a[1] if len(a) > 1 else None
    if op in ("div", "rem"):
        if I.p.branch(ieq(y, 0)):
            if mode == "checked":
                return none(I, out_ty(I, fn))
            raise Panic("division by zero")
        if l < 0:
            raise Unsupported("signed division")
        r = fdiv(x, y) if op == "div" else mod(x, y)
        return some(I, out_ty(I, fn), r) if mode == "checked" else r
    if op == "pow":
        if not (is_c(x) or is_c(y)):
            raise Unsupported("pow")
        if is_c(y):
            r = 1
            for _ in range(y):
                r = mul(r, x)
        else:
            r = ipow(x, y)
    else:
        r = {"add": add, "sub": sub, "mul": mul}[op](x, y)
    if I.p.branch(and_(ge(r, l), le(r, h))):
        v, o = r, False
    else:
        o = True
        if mode == "saturating":
            v = h if I.p.branch(gt(r, h)) else l
        else:
            v = I.wrap_fork(ty, r)
    if mode == "checked":
        return none(I, out_ty(I, fn)) if o else some(I, out_ty(I, fn), v)
    if mode == "overflowing":
        return Agg(out_ty(I, fn), 0, (v, o))
    return v


@rx(r"^core::num::<impl u(8|16|32|64|128|size)>::pow$")
def n_pow(I, fn, a, c):
    ty = fn.sig["in"][0] if fn.sig else fn.locals[1]
    l, h = int_range(I, ty)
    x, y = a
    if is_c(y):
        r = 1
        for _ in range(y):
            r = mul(r, x)
    elif is_c(x):
        r = ipow(x, y)
    else:
        raise Unsupported("pow")
    if I.p.branch(le(r, h)):
        return r
    raise Panic("pow overflow")


@rx(r"^core::num::<impl u(8|16|32|64|128)>::to_be_bytes$")
def n_be(I, fn, a, c):
    w = int(re.search(r"u(\d+)", fn.df).group(1)) // 8
    if is_c(a[0]):
        return VecV(list(a[0].to_bytes(w, "big")))
    return VecV([mod(fdiv(a[0], 1 << (8 * (w - 1 - i))), 256) for i in range(w)])


@native("<T as integer_sqrt::IntegerSquareRoot>::integer_sqrt_checked", "<T as integer_sqrt::IntegerSquareRoot>::integer_sqrt", "integer_sqrt::IntegerSquareRoot::integer_sqrt")
def n_isqrt(I, fn, a, c):
    x = a[0] if not isinstance(a[0], Ref) else I.ival(a[0])
    r = isqrt(x)
    if fn.df.endswith("checked"):
        return some(I, out_ty(I, fn), r)
    return r


@rx(r"^core::num::<impl u(8|16|32|64|128|size)>::isqrt$")
def n_isqrt2(I, fn, a, c):
    return isqrt(a[0])


@native("core::num::<impl u128>::abs_diff", "core::num::<impl u64>::abs_diff")
def n_absdiff(I, fn, a, c):
    return sub(a[0], a[1]) if I.p.branch(ge(a[0], a[1])) else sub(a[1], a[0])


# ---------------------------------------------------------------- 256-bit integers (bigint crate, uint crate): exact, abort on overflow
B256 = 1 << 256


def u256_arith(I, op, x, y):
    if op in ("div", "rem"):
        if I.p.branch(ieq(y, 0)):
            return None
        return fdiv(x, y) if op == "div" else mod(x, y)
    r = {"add": add, "sub": sub, "mul": mul}[op](x, y)
    if op == "sub":
        return r if I.p.branch(ge(r, 0)) else None
    return r if I.p.branch(lt(r, B256)) else None


@rx(r"^<(bigint::U256|cosmwasm_std::math::uint256::uints::U256) as std::ops::(Add|Sub|Mul|Div|Rem)(<.*>)?>::(add|sub|mul|div|rem)$")
def n_u256(I, fn, a, c):
    op = fn.df.rsplit("::", 1)[1]
    r = u256_arith(I, op, flat_int(I, a[0]), flat_int(I, a[1]))
    if r is None:
        raise Panic("256-bit " + op)
    return r


@rx(r"^(bigint::U256|cosmwasm_std::math::uint256::uints::U256)::(checked|overflowing|saturating)_(add|sub|mul|div|rem)$")
def n_u256c(I, fn, a, c):
    m = re.search(r"::(checked|overflowing|saturating)_(\w+)$", fn.df)
    x, y = flat_int(I, a[0]), flat_int(I, a[1])
    mode, op = m.groups()
    r = u256_arith(I, op, x, y)
    if mode == "checked":
        return none(I, out_ty(I, fn)) if r is None else some(I, out_ty(I, fn), r)
    if mode == "saturating":
        return r if r is not None else (0 if op == "sub" else B256 - 1)
    if r is not None:
        return Agg(out_ty(I, fn), 0, (r, False))
    r = {"add": add, "sub": sub, "mul": mul}[op](x, y)
    return Agg(out_ty(I, fn), 0, (mod(r, B256) if op != "sub" else add(r, B256), True))


@rx(r"^(bigint::U256|cosmwasm_std::math::uint256::uints::U256)::(is_zero|zero|one|max_value|low_u64|as_u64|as_u128|low_u32|pow|from_dec_str)$")
def n_u256m(I, fn, a, c):
    op = fn.df.rsplit("::", 1)[1]
    if op == "zero":
        return 0
    if op == "one":
        return 1
    if op == "max_value":
        return B256 - 1
    if op == "from_dec_str":
        return parse_dec(I, fn, I.sval(a[0]), B256, "bigint")
    x = flat_int(I, a[0])
    if op == "is_zero":
        return ieq(x, 0)
    if op in ("low_u64", "low_u32"):
        return mod(x, 1 << int(op[5:]))
    if op in ("as_u64", "as_u128"):
        if I.p.branch(lt(x, 1 << int(op[4:]))):
            return x
        raise Panic("integer overflow in as_")
    if op == "pow":
        e = flat_int(I, a[1])
        if is_c(e):
            r = 1
            for _ in range(e):
                r = mul(r, x)
        elif is_c(x):
            r = ipow(x, e)
        else:
            raise Unsupported("pow")
        if I.p.branch(lt(r, B256)):
            return r
        raise Panic("pow overflow")


@rx(r"^<(bigint::U256|cosmwasm_std::math::uint256::uints::U256) as std::convert::From<([ui]\w+|bigint::.*|bool)>>::from$")
def n_u256from(I, fn, a, c):
    x = flat_int(I, a[0])
    if re.search(r"From<i", fn.df):
        if I.p.branch(lt(x, 0)):
            raise Panic("negative to unsigned")
    return x


@rx(r"^<u(32|64|128) as std::convert::From<bigint::U256>>::from$|<impl std::convert::From<bigint::U256> for u(32|64|128)>::from$")
def n_u256to(I, fn, a, c):
    x = flat_int(I, a[0])
    w = re.search(r"u(32|64|128)", fn.df).group(1)
    if I.p.branch(lt(x, 1 << int(w))):
        return x
    raise Panic("conversion overflow")


# cosmwasm_std::Uint256 byte conversions
@native("cosmwasm_std::Uint256::from_be_bytes", "cosmwasm_std::Uint256::to_be_bytes")
def n_cw256bytes(I, fn, a, c):
    raise Unsupported("byte conversion of Uint256")


@rx(r"^<cosmwasm_std::Uint128 as std::convert::TryFrom<cosmwasm_std::Uint256>>::try_from$")
def n_cwtry(I, fn, a, c):
    x = flat_int(I, a[0])
    ty = out_ty(I, fn)
    if I.p.branch(lt(x, 1 << 128)):
        return ok(I, ty, Agg(ok_ty(I, ty), 0, (x,)))
    return mk_variant(I, ty, "Err", Opaque("ConversionOverflowError"))


@rx(r"^<cosmwasm_std::Uint256 as std::convert::From<(cosmwasm_std::Uint128|cosmwasm_std::Uint64|u\d+)>>::from$")
def n_cwfrom(I, fn, a, c):
    return Agg(out_ty(I, fn), 0, (flat_int(I, a[0]),))


# ---------------------------------------------------------------- text
def isdigits(s):
    """all characters are digits, and there is at least one"""
    if isinstance(s, bytes):
        return s.isdigit()
    if s.op == "dec":
        return True
    if s.op == "num":
        return gt(s.a[1], 0)
    return app("isdigits", (s,), "B")


def strval(s):
    if isinstance(s, bytes):
        return int(s)
    if s.op in ("dec", "num"):
        return s.a[0]
    return app("strval", (s,), "I", 0, None)


def parse_dec(I, fn, s, bound, style):
    """decimal digits -> number. bigint's from_dec_str: non-empty?, digits only, no overflow"""
    ty = out_ty(I, fn)
    if style == "bigint":
        # the bigint crate accepts the empty string as 0
        if I.p.branch(seq(s, b"")):
            return ok(I, ty, 0)
    if not I.p.branch(isdigits(s)):
        return mk_variant(I, ty, "Err", Opaque("parse error"))
    v = strval(s)
    if I.p.branch(lt(v, bound)):
        return ok(I, ty, v)
    return mk_variant(I, ty, "Err", Opaque("parse overflow"))


@rx(r"^core::str::<impl str>::parse$")
def n_parse(I, fn, a, c):
    t = I.mir.types[fn.args[0]]
    if t.k == "uint":
        s = I.sval(a[0])
        ty = out_ty(I, fn)
        if isinstance(s, bytes):
            try:
                v = int(s.decode().lstrip("+")) if s.lstrip(b"+").isdigit() else None
            except ValueError:
                v = None
            if v is None or v >= 1 << t.d["w"]:
                return mk_variant(I, ty, "Err", Opaque("parse error"))
            return ok(I, ty, v)
        if s.op == "dec":
            return ok(I, ty, s.a[0]) if I.p.branch(lt(s.a[0], 1 << t.d["w"])) else mk_variant(I, ty, "Err", Opaque("overflow"))
        raise Unsupported("parse of symbolic text")
    return I.run(fn, a)


@native("core::str::<impl str>::len", "std::string::String::len", "std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def n_len(I, fn, a, c):
    return I.vlen(seqval(I, a[0]))


@native("core::str::<impl str>::is_empty", "std::string::String::is_empty", "std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def n_is_empty(I, fn, a, c):
    v = seqval(I, a[0])
    if isinstance(v, T):
        return seq(v, b"")
    return ieq(I.vlen(v), 0)


@native("std::string::String::new")
def n_strnew(I, fn, a, c):
    return b""


@native("std::string::String::with_capacity")
def n_strcap(I, fn, a, c):
    return b""


@native("std::string::String::push_str")
def n_push_str(I, fn, a, c):
    I.store_ref(a[0], cat(I.sval(I.load(a[0])), I.sval(a[1])))
    return UNIT


@native("std::string::String::push")
def n_push_char(I, fn, a, c):
    if not is_c(a[1]):
        raise Unsupported("push of a symbolic character")
    I.store_ref(a[0], cat(I.sval(I.load(a[0])), chr(a[1]).encode()))
    return UNIT


@native("<std::string::String as std::ops::Add<&str>>::add")
def n_stradd(I, fn, a, c):
    return cat(I.sval(a[0]), I.sval(a[1]))


@native("std::str::<impl str>::repeat")
def n_repeat(I, fn, a, c):
    s, n = I.sval(a[0]), a[1]
    if isinstance(s, bytes) and is_c(n):
        return s * n
    if s == b"0":
        return tm.num(0, n)
    raise Unsupported("repeat")


@native("std::string::String::from_utf8", "std::str::from_utf8")
def n_from_utf8(I, fn, a, c):
    s = I.sval(a[0])
    ty = out_ty(I, fn)
    if isinstance(s, bytes):
        try:
            s.decode()
            return ok(I, ty, s)
        except UnicodeDecodeError:
            return mk_variant(I, ty, "Err", Opaque("utf8"))
    if I.p.branch(app("utf8", (s,), "B")):
        return ok(I, ty, s)
    return mk_variant(I, ty, "Err", Opaque("utf8"))


@native("std::string::String::from_utf8_lossy")
def n_lossy(I, fn, a, c):
    s = I.sval(a[0])
    ty = out_ty(I, fn)
    return mk_variant(I, ty, "Borrowed", s if isinstance(s, bytes) else app("lossy", (s,), "S"))


@native("core::str::<impl str>::trim", "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end", "std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_uppercase",
        "std::str::<impl str>::to_ascii_lowercase", "std::str::<impl str>::to_ascii_uppercase")
def n_trim(I, fn, a, c):
    s = I.sval(a[0])
    op = fn.df.rsplit("::", 1)[1]
    if isinstance(s, bytes):
        if op in ("to_lowercase", "to_uppercase"):
            return getattr(s.decode(), op[3:-4])().encode()
        return {"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}.get(op, s.lower if "lower" in op else s.upper)()
    return app("str." + op, (s,), "S")


@native("core::str::<impl str>::trim_end_matches")
def n_trim_end(I, fn, a, c):
    s, ch = I.sval(a[0]), a[1]
    if isinstance(s, bytes) and is_c(ch):
        return s.rstrip(chr(ch).encode())
    if ch == ord("0"):
        d = tm.as_num(s)
        if d is not None and is_c(d[1]):
            v, L = d
            # number of trailing zeros: case split
            for t in range(0, L):
                if I.p.branch(not_(ieq(mod(v, 10 ** (t + 1)), 0))):
                    return tm.num(fdiv(v, 10 ** t), L - t)
            return b""
    raise Unsupported("trim_end_matches")


def expand_dectext(I, s):
    """digits of a decimal number, by cases on the number of fractional digits"""
    n, places = s.a
    w, f = fdiv(n, 10 ** places), mod(n, 10 ** places)
    if I.p.branch(ieq(f, 0)):
        return dec(w)
    for t in range(places):
        if I.p.branch(not_(ieq(mod(f, 10 ** (t + 1)), 0))):
            return cat(dec(w), b".", tm.num(fdiv(f, 10 ** t), places - t))
    raise Infeasible()


@rx(r"^<cosmwasm_std::Decimal as std::str::FromStr>::from_str$")
def n_cwdec_from_str(I, fn, a, c):
    s = I.sval(a[0])
    ty = out_ty(I, fn)
    if isinstance(s, T) and s.op == "dectext" and s.a[1] == 18:
        if I.p.branch(lt(s.a[0], 1 << 128)):
            return ok(I, ty, Agg(ok_ty(I, ty), 0, (Agg(I.mir.types[ok_ty(I, ty)].d["vs"][0]["f"][0][1], 0, (s.a[0],)),)))
        return std_err(I, ty, "generic")
    if isinstance(s, bytes):
        m = re.match(rb"^(\d+)(?:\.(\d{1,18}))?$", s)
        v = int(m.group(1)) * 10 ** 18 + int((m.group(2) or b"").ljust(18, b"0") or 0) if m else None
        if v is None or v >= 1 << 128:
            return std_err(I, ty, "generic")
        return ok(I, ty, Agg(ok_ty(I, ty), 0, (Agg(I.mir.types[ok_ty(I, ty)].d["vs"][0]["f"][0][1], 0, (v,)),)))
    raise Unsupported("Decimal::from_str of symbolic text")


@native("core::str::<impl str>::split")
def n_split(I, fn, a, c):
    s, pat = I.sval(a[0]), a[1]
    if isinstance(s, T) and s.op == "dectext":
        s = expand_dectext(I, s)
    if not is_c(pat):
        raise Unsupported("split pattern")
    p = chr(pat).encode() if isinstance(pat, int) else pat
    if not isinstance(p, bytes):
        raise Unsupported("split pattern")
    parts = split_text(I, s, p)
    return IterV("val", VecV(parts), 0, len(parts))


def split_text(I, s, p):
    if isinstance(s, bytes):
        return s.split(p)
    ps = list(s.a) if s.op == "cat" else [s]
    out, cur = [], []
    for x in ps:
        if isinstance(x, bytes):
            q = x.split(p)
            cur.append(q[0])
            for y in q[1:]:
                out.append(cat(*cur))
                cur = [y]
        elif x.op in ("dec", "num"):
            cur.append(x)
        else:
            if cur or len(ps) > 1:
                raise Unsupported("split of symbolic concatenation")
            # unknown text: number of separators 0, 1, or more
            cnt = app("count:" + p.decode(), (s,), "I", 0, None)
            if I.p.branch(ieq(cnt, 0)):
                return [s]
            if I.p.branch(ieq(cnt, 1)):
                return [app("part0:" + p.decode(), (s,), "S"), app("part1:" + p.decode(), (s,), "S")]
            I.p.bounded_note = True
            return [app("part%d:%s" % (i, p.decode()), (s,), "S") for i in range(3)]
    out.append(cat(*cur))
    return out


@native("<std::str::Split<'a, P> as std::iter::Iterator>::next", "<std::str::Split<'_, P> as std::iter::Iterator>::next")
def n_split_next(I, fn, a, c):
    return iter_next(I, fn, a[0])


# ---------------------------------------------------------------- formatting
class FArg:
    def __init__(self, kind, ty, val):
        self.kind, self.ty, self.val = kind, ty, val


@rx(r"^core::fmt::rt::Argument::new_(\w+)$|^core::fmt::rt::Argument::<'_>::new_(\w+)$|^core::fmt::rt::Argument::from_usize$")
def n_arg(I, fn, a, c):
    kind = fn.df.rsplit("::", 1)[1].replace("new_", "")
    return Opaque("fmtarg", FArg(kind, fn.args[-1] if fn.args else None, a[0]))


@rx(r"^std::fmt::Arguments(::<'a>)?::(new|from_str|new_const|from_str_nonconst)$")
def n_args(I, fn, a, c):
    if fn.df.endswith("from_str") or fn.df.endswith("nonconst"):
        return Opaque("fmtargs", (None, I.sval(a[0])))
    tpl = I.deep(a[0])
    args = I.deep(a[1]) if len(a) > 1 else VecV(())
    return Opaque("fmtargs", (bytes(tpl.e) if isinstance(tpl, VecV) else tpl, args.e))


def fmt_text(I, o):
    tpl, args = o.data
    if tpl is None:
        return args
    parts = []
    for p in fmtspec.decode(tpl):
        if p[0] == "lit":
            parts.append(p[1])
        else:
            i, opts = p[1], p[2]
            fa = args[i].data
            if fa.kind == "display":
                t = display(I, fa.ty, fa.val)
            elif fa.kind == "debug":
                t = app("debug#%d" % I.p.fresh_id(), (), "S")
            else:
                raise Unsupported("format " + fa.kind)
            if opts:
                t = fmtspec.pad(t, opts)
            parts.append(t)
    return cat(*parts)


def display(I, ty, v):
    """text of a value under Display"""
    t = I.mir.types[ty]
    while t.k == "ref":
        d = I.deep(v)
        it = I.mir.types[t.d["t"]]
        if it.k == "str":
            return I.sval(d)
        v = I.load(v) if type(v) is Ref and it.k == "ref" else v
        t = it
        ty = t.id
    if t.k == "str":
        return I.sval(v)
    if t.k == "uint":
        return dec(I.ival(v))
    if t.k == "int":
        return dec(I.ival(v))
    if t.k == "bool":
        return b"true" if I.p.branch(I.deep(v)) else b"false"
    if t.k == "char":
        x = I.deep(v)
        if is_c(x):
            return chr(x).encode()
        raise Unsupported("char text")
    if t.k == "adt":
        nm = t.d["name"]
        if nm == "std::string::String":
            return I.sval(v)
        if nm == "bigint::U256" or nm.endswith("uints::U256"):
            return dec(I.ival(v))
        if nm in ("cosmwasm_std::Decimal", "cosmwasm_std::Decimal256"):
            return dectext(I.ival(v), 18)
        if nm in ("cosmwasm_std::Uint128", "cosmwasm_std::Uint64", "cosmwasm_std::Uint256", "cosmwasm_std::Uint512"):
            return dec(I.ival(v))
        if nm.startswith("std::borrow::Cow"):
            x = I.deep(v)
            return I.sval(x.f[0])
        l = I.mir.by_def.get("<%s as std::fmt::Display>::fmt" % nm, [])
        l = [f for f in l if f.blocks is not None]
        if len(l) >= 1:
            buf = Cell(Opaque("fmt", b""))
            if type(v) is not Ref:
                v = Ref(Cell(v))
            try:
                I.call_fn(l[0], [v, Ref(buf)], l[0].df)
            except Unsupported:
                if nm.endswith("Error"):
                    return app("text#%d" % I.p.fresh_id(), (), "S")
                raise
            return buf.v.data
        return app("text#%d" % I.p.fresh_id(), (), "S")
    raise Unsupported("text of %s" % I.mir.tyname(ty))


@native("std::fmt::format", "alloc::fmt::format")
def n_format(I, fn, a, c):
    return fmt_text(I, a[0])


@native("<T as std::string::ToString>::to_string")
def n_to_string(I, fn, a, c):
    return display(I, fn.args[0], a[0])


def fmt_write(I, f, s):
    v = I.load(f)
    if not isinstance(v, Opaque) or v.what != "fmt":
        raise Unsupported("formatter %s" % short(v))
    I.store_ref(f, Opaque("fmt", cat(v.data, s)))


@rx(r"^std::fmt::Formatter(::<'a>)?::(write_str|pad|write_fmt)$|^<std::fmt::Formatter(<'_>)? as std::fmt::Write>::(write_str|write_char|write_fmt)$")
def n_fwrite(I, fn, a, c):
    op = fn.df.rsplit("::", 1)[1]
    if op in ("write_str", "pad"):
        s = I.sval(a[1])
    elif op == "write_char":
        if not is_c(a[1]):
            raise Unsupported("write_char")
        s = chr(a[1]).encode()
    else:
        s = fmt_text(I, a[1])
    fmt_write(I, a[0], s)
    ty = out_ty(I, fn)
    return ok(I, ty, UNIT)


@rx(r"as std::fmt::Display>::fmt$|<impl std::fmt::Display for .*>::fmt$")
def n_disp(I, fn, a, c):
    if fn.blocks is not None and not re.match(r"<(cosmwasm_std::(Decimal|Uint)\w* |std::|core::|alloc::|&)|(std|core|alloc)::", fn.df):
        return I.run(fn, a)
    ty = fn.sig["in"][0]
    fmt_write(I, a[1], display(I, ty, a[0]))
    return ok(I, out_ty(I, fn), UNIT)


@rx(r"as std::fmt::Debug>::fmt$|<impl std::fmt::Debug for .*>::fmt$")
def n_debug(I, fn, a, c):
    fmt_write(I, a[1], app("debug#%d" % I.p.fresh_id(), (), "S"))
    return ok(I, out_ty(I, fn), UNIT)


# ---------------------------------------------------------------- vectors, slices, iterators
@native("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default", "std::vec::Vec::<T, A>::new_in")
def n_vecnew(I, fn, a, c):
    return norm_vec(I, out_ty(I, fn), VecV(()))


@native("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
        "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow", "<std::vec::Vec<T, A> as std::convert::AsRef<std::vec::Vec<T, A>>>::as_ref",
        "core::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref", "core::array::<impl [T; N]>::as_slice", "core::slice::<impl std::convert::AsRef<[T]> for [T]>::as_ref")
def n_vecderef(I, fn, a, c):
    v = I.deep(a[0])
    if sort_of_s(v):
        return v
    return deep_ref(I, a[0])


def deep_ref(I, r):
    while True:
        v = I.get(r.cell.v, r.path)
        if type(v) is Ref:
            r = v
        else:
            return r


def sort_of_s(v):
    return isinstance(v, bytes) or (isinstance(v, T) and v.sort == "S")


@native("std::vec::Vec::<T, A>::push")
def n_push(I, fn, a, c):
    v = I.load(a[0])
    if isinstance(v, VecV):
        I.store_ref(a[0], VecV(v.e + (a[1],)))
    elif sort_of_s(v):
        if not is_c(a[1]):
            raise Unsupported("push of a symbolic byte")
        I.store_ref(a[0], cat(v, bytes([a[1]])))
    elif isinstance(v, SeqV):
        x = a[1]
        I.store_ref(a[0], SeqV(I.mir, v.ety, add(v.len, 1), v.base + "+1", v.args, lambda i: x if I.p.branch(ieq(i, v.len)) else v.elem(i), (v, x)))
    else:
        raise Unsupported("push to %s" % short(v))
    return UNIT


@native("std::vec::Vec::<T, A>::pop")
def n_pop(I, fn, a, c):
    v = I.load(a[0])
    if isinstance(v, VecV):
        if not v.e:
            return none(I, out_ty(I, fn))
        I.store_ref(a[0], VecV(v.e[:-1]))
        return some(I, out_ty(I, fn), v.e[-1])
    if isinstance(v, SeqV):
        if not I.p.branch(gt(v.len, 0)):
            return none(I, out_ty(I, fn))
        n = sub(v.len, 1)
        I.store_ref(a[0], v.view(0, n))
        return some(I, out_ty(I, fn), v.elem(n))
    raise Unsupported("pop")


@native("std::vec::Vec::<T, A>::remove")
def n_vremove(I, fn, a, c):
    v = I.load(a[0])
    if isinstance(v, VecV) and is_c(a[1]):
        if a[1] >= len(v.e):
            raise Panic("remove")
        I.store_ref(a[0], VecV(v.e[:a[1]] + v.e[a[1] + 1:]))
        return v.e[a[1]]
    if isinstance(v, SeqV):
        k = a[1]
        if not I.p.branch(lt(k, v.len)):
            raise Panic("remove")
        n = sub(v.len, 1)
        I.store_ref(a[0], v.view(1, n) if is_c(k) and k == 0 else SeqV(
            I.mir, v.ety, n, v.base + "-x", v.args, lambda i: v.elem(i) if I.p.branch(lt(i, k)) else v.elem(add(i, 1))))
        return v.elem(k)
    raise Unsupported("remove")


@native("std::vec::Vec::<T, A>::insert")
def n_vinsert(I, fn, a, c):
    v = I.load(a[0])
    if isinstance(v, VecV) and is_c(a[1]):
        if a[1] > len(v.e):
            raise Panic("insert")
        I.store_ref(a[0], VecV(v.e[:a[1]] + (a[2],) + v.e[a[1]:]))
        return UNIT
    if isinstance(v, SeqV):
        k, x = a[1], a[2]
        if not I.p.branch(le(k, v.len)):
            raise Panic("insert")
        I.store_ref(a[0], SeqV(I.mir, v.ety, add(v.len, 1), v.base + "+x", v.args, lambda i: v.elem(i) if I.p.branch(lt(i, k)) else (
            x if I.p.branch(ieq(i, k)) else v.elem(sub(i, 1)))))
        return UNIT
    raise Unsupported("insert")


@native("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def n_clear(I, fn, a, c):
    v = I.load(a[0])
    I.store_ref(a[0], b"" if sort_of_s(v) else VecV(()))
    return UNIT


def elem_at(I, v, i):
    """element i of a sequence (i is within its length)"""
    if isinstance(v, SeqV):
        return v.elem(i)
    if is_c(i):
        return v.e[i]
    for k in range(len(v.e)):
        if I.p.branch(ieq(i, k)):
            return v.e[k]
    raise Infeasible()


def seq_cat(I, v, w):
    """concatenation of two sequences"""
    if isinstance(v, VecV) and isinstance(w, VecV):
        return VecV(v.e + w.e)
    n = I.vlen(v)
    if is_c(n) and n == 0:
        return w
    m = I.vlen(w)
    if is_c(m) and m == 0:
        return v
    s = v if isinstance(v, SeqV) else w
    return SeqV(I.mir, s.ety, add(n, m), s.base + "++", s.args, lambda i: elem_at(I, v, i) if I.p.branch(lt(i, n)) else elem_at(I, w, sub(i, n)))


@native("std::vec::Vec::<T, A>::extend_from_slice", "std::vec::Vec::<T, A>::append")
def n_extend_slice(I, fn, a, c):
    v, w = I.load(a[0]), seqval(I, a[1])
    if sort_of_s(v):
        I.store_ref(a[0], cat(v, I.sval(w)))
    elif isinstance(v, VecV) and isinstance(w, VecV):
        I.store_ref(a[0], VecV(v.e + w.e))
    elif isinstance(v, (VecV, SeqV)) and isinstance(w, (VecV, SeqV)):
        I.store_ref(a[0], seq_cat(I, v, w))
    else:
        raise Unsupported("extend_from_slice")
    if fn.df.endswith("append"):
        I.store_ref(a[1], VecV(()))
    return UNIT


@native("std::slice::<impl [T]>::concat", "std::slice::<impl [T]>::join")
def n_concat(I, fn, a, c):
    v = seqval(I, a[0])
    if isinstance(v, VecV):
        parts = [seqval(I, x) for x in v.e]
        if fn.df.endswith("join"):
            sep = I.sval(a[1])
            o = []
            for i, x in enumerate(parts):
                if i:
                    o.append(sep)
                o.append(I.sval(x))
            return cat(*o)
        rt = I.mir.types[out_ty(I, fn)]
        octets = rt.d.get("name") == "std::string::String" or rt.d.get("args") and I.mir.types[rt.d["args"][0]].d.get("w") == 8
        if octets and all(sort_of_s(x) or isinstance(x, VecV) and all(isinstance(y, int) for y in x.e) for x in parts):
            return cat(*[I.sval(x) for x in parts])
        if all(isinstance(x, VecV) for x in parts):
            return VecV([y for x in parts for y in x.e])
    raise Unsupported("concat")


@native("core::slice::<impl [T]>::swap")
def n_sswap(I, fn, a, c):
    r = deep_ref(I, a[0])
    v = I.load(r)
    i, j = a[1], a[2]
    if isinstance(v, VecV) and is_c(i) and is_c(j):
        if i >= len(v.e) or j >= len(v.e):
            raise Panic("swap bounds")
        e = list(v.e)
        e[i], e[j] = e[j], e[i]
        I.store_ref(r, VecV(e))
        return UNIT
    raise Unsupported("swap")


@native("core::slice::<impl [T]>::reverse")
def n_reverse(I, fn, a, c):
    r = deep_ref(I, a[0])
    v = I.load(r)
    if isinstance(v, VecV):
        I.store_ref(r, VecV(v.e[::-1]))
        return UNIT
    if isinstance(v, SeqV):
        n = sub(v.len, 1)
        I.store_ref(r, SeqV(I.mir, v.ety, v.len, v.base + "[rev]", v.args, lambda i: v.elem(sub(n, i))))
        return UNIT
    raise Unsupported("reverse")


def index_ref(I, r, i):
    """&seq[i] with a bounds check"""
    v = I.deep(r)
    n = I.vlen(v)
    if not I.p.branch(lt(i, n)):
        raise Panic("index out of bounds")
    if sort_of_s(v):
        return Ref(Cell(I.proj(v, ("i", i))))
    if isinstance(i, T) and isinstance(v, VecV):
        for k in range(len(v.e)):
            if I.p.branch(ieq(i, k)):
                i = k
                break
        else:
            raise Infeasible()
    r = deep_ref(I, r) if type(r) is Ref else Ref(Cell(v))
    return Ref(r.cell, r.path + (("i", i),))


@native("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut", "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
        "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut", "core::array::<impl std::ops::Index<I> for [T; N]>::index", "std::array::<impl std::ops::Index<I> for [T; N]>::index")
def n_index(I, fn, a, c):
    i = a[1]
    if isinstance(i, (int, T)):
        return index_ref(I, a[0], i)
    return slice_range(I, a[0], i)


def slice_range(I, r, rng):
    v = seqval(I, r)
    nm = I.mir.types[rng.tid].d["name"] if isinstance(rng, Agg) and rng.tid is not None else ""
    n = I.vlen(v)
    if nm.endswith("RangeFull"):
        lo_, hi_ = 0, n
    elif nm.endswith("RangeFrom"):
        lo_, hi_ = rng.f[0], n
    elif nm.endswith("RangeTo"):
        lo_, hi_ = 0, rng.f[0]
    elif nm.endswith("::Range"):
        lo_, hi_ = rng.f[0], rng.f[1]
    else:
        raise Unsupported("slice index %s" % nm)
    if not (is_c(lo_) and is_c(hi_) and is_c(n)):
        if isinstance(v, SeqV):
            if not I.p.branch(and_(le(lo_, hi_), le(hi_, n))):
                raise Panic("slice bounds")
            return Ref(Cell(v.view(lo_, sub(hi_, lo_))))
        raise Unsupported("symbolic slice")
    if lo_ > hi_ or hi_ > n:
        raise Panic("slice bounds")
    if isinstance(v, bytes):
        return v[lo_:hi_]
    r = deep_ref(I, r)
    return Ref(r.cell, r.path + (("s", lo_, hi_ - lo_),))


@native("core::slice::<impl [T]>::get")
def n_get(I, fn, a, c):
    v = seqval(I, a[0])
    i = a[1]
    if not isinstance(i, (int, T)):
        raise Unsupported("get range")
    if I.p.branch(lt(i, I.vlen(v))):
        return some(I, out_ty(I, fn), index_ref(I, a[0], i))
    return none(I, out_ty(I, fn))


@native("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def n_last(I, fn, a, c):
    v = seqval(I, a[0])
    n = I.vlen(v)
    if not I.p.branch(gt(n, 0)):
        return none(I, out_ty(I, fn))
    return some(I, out_ty(I, fn), index_ref(I, a[0], sub(n, 1) if fn.df.endswith("last") else 0))


@native("core::slice::<impl [T]>::contains")
def n_contains(I, fn, a, c):
    v = seqval(I, a[0])
    if isinstance(v, VecV):
        x = I.deep(a[1])
        return or_(*[veq_deep(I, y, x) for y in v.e])
    if isinstance(v, SeqV):
        from seqs import search
        return search(I, v.len, lambda j: veq_deep(I, v.elem(j), a[1])) is not None
    raise Unsupported("contains")


@native("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with", "core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::str::<impl str>::contains")
def n_startswith(I, fn, a, c):
    s = I.sval(a[0])
    p = a[1]
    if isinstance(p, (Agg, FnV)) and fn.df.endswith("contains"):
        # a predicate on characters
        from natives_std import char_iter
        from seqs import search
        it = char_iter(I, s)
        return search(I, it.hi, lambda j: call_closure(I, p, [iter_elem(I, it, j)])) is not None
    p = chr(p).encode() if isinstance(p, int) and not isinstance(p, bool) else I.sval(p)
    op = fn.df.rsplit("::", 1)[1]
    if isinstance(s, bytes) and isinstance(p, bytes):
        return {"starts_with": s.startswith, "ends_with": s.endswith, "contains": lambda q: q in s}[op](p)
    return app("str." + op, (s, p), "B")


@native("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
        "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
        "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
        "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter")
def n_iter(I, fn, a, c):
    v = I.deep(a[0])
    r = a[0]
    if sort_of_s(v):
        r = Ref(Cell(v))
    else:
        r = deep_ref(I, r)
    return IterV("ref", r, 0, I.vlen(v))


@native("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<std::array::IntoIter<T, N> as std::iter::IntoIterator>::into_iter", "std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter",
        "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter", "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def n_vec_into_iter(I, fn, a, c):
    v = seqval(I, a[0])
    return IterV("val", v, 0, I.vlen(v))


def iter_elem(I, it, i):
    if it.by == "val":
        v = it.src
        if isinstance(v, VecV):
            return v.e[i]
        if isinstance(v, SeqV):
            return v.elem(i)
        return I.proj(v, ("i", i))
    v = I.load(it.src)
    if sort_of_s(v):
        return Ref(Cell(I.proj(v, ("i", i))))
    return Ref(it.src.cell, it.src.path + (("i", i),))


def iter_next(I, fn, r, back=False):
    it = I.load(r)
    while type(it) is Ref:
        r = it
        it = I.load(r)
    ty = out_ty(I, fn)
    if isinstance(it, Opaque) and it.what == "maprange":
        return it.data.next(I, ty)
    if not isinstance(it, IterV):
        raise Unsupported("iterator %s" % short(it))
    if not I.p.branch(lt(it.lo, it.hi)):
        return none(I, ty)
    if not back:
        I.iter_step(r, it)
        x = iter_elem(I, it, it.lo)
        I.store_ref(r, IterV(it.by, it.src, add(it.lo, 1), it.hi, it.extra))
    else:
        I.iter_step(r, it)
        h = sub(it.hi, 1)
        x = iter_elem(I, it, h)
        I.store_ref(r, IterV(it.by, it.src, it.lo, h, it.extra))
    return some(I, ty, x)


@rx(r"^<std::(slice::Iter(Mut)?(<'_, T>|<'a, T>|<T>)|vec::IntoIter<T, A>|array::IntoIter<T, N>|str::Bytes.*|str::Chars.*) as std::iter::(Iterator>::next|DoubleEndedIterator>::next_back)$")
def n_next(I, fn, a, c):
    return iter_next(I, fn, a[0], fn.df.endswith("back"))


@rx(r"^<std::(slice::Iter(Mut)?(<'_, T>|<'a, T>|<T>)|vec::IntoIter<T, A>|array::IntoIter<T, N>) as std::iter::ExactSizeIterator>::len$|^<std::(slice::Iter(<'_, T>|<'a, T>|<T>)|vec::IntoIter<T, A>) as std::iter::Iterator>::count$")
def n_itlen(I, fn, a, c):
    it = I.deep(a[0])
    return sub(it.hi, it.lo)


@rx(r"^std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$|^core::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$")
def n_range_next(I, fn, a, c):
    v = I.load(a[0])
    ty = out_ty(I, fn)
    if not I.p.branch(lt(v.f[0], v.f[1])):
        return none(I, ty)
    I.iter_step(a[0], v)
    I.store_ref(a[0], Agg(v.tid, 0, (add(v.f[0], 1), v.f[1])))
    return some(I, ty, v.f[0])


@rx(r"range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back$")
def n_range_next_back(I, fn, a, c):
    v = I.load(a[0])
    ty = out_ty(I, fn)
    if not I.p.branch(lt(v.f[0], v.f[1])):
        return none(I, ty)
    I.iter_step(a[0], v)
    h = sub(v.f[1], 1)
    I.store_ref(a[0], Agg(v.tid, 0, (v.f[0], h)))
    return some(I, ty, h)


def text_of(I, x):
    x = I.deep(x)
    return I.sval(x)


def sort_seq(I, ref, v):
    """the elements of a sequence of texts in ascending order: a permutation"""
    n_ = I.p.__dict__["sorts"] = I.p.__dict__.get("sorts", 0) + 1

    def elem(i):
        j = app("sorted#%d" % n_, (i,), "I", 0, 2 ** 32)
        I.p.assume(lt(j, v.len))
        seqs.position(I.p, j)
        return v.elem(j)
    r = SeqV(I.mir, v.ety, v.len, "sorted(%s)" % v.base, v.args, elem)
    r.of = v
    I.store_ref(ref, r)


@native("probe::models::model_sort")
def n_sort(I, fn, a, c):
    v = I.load(a[0])
    if not isinstance(v, SeqV):
        return I.run(fn, a)
    sort_seq(I, a[0], v)
    return UNIT


def dedup_seq(I, ref, v):
    """a sorted sequence without its repetitions: its length is the number of different elements"""
    o = v.of
    if not I.p.branch(gt(o.len, 0)):
        I.store_ref(ref, v)
        return
    reg = I.p.__dict__.setdefault("distincts", [])
    f = lambda i: text_of(I, o.elem(i))
    d = app("distinct#%d" % len(reg), (), "I", 0, 2 ** 32)
    I.p.assume(and_(ge(d, 1), le(d, o.len)))
    reg.append((o.len, f, d))
    r = SeqV(I.mir, v.ety, d, "distinct(%s)" % v.base, v.args, v.elem)
    I.store_ref(ref, r)


@native("std::vec::Vec::<T, A>::dedup")
def n_dedup(I, fn, a, c):
    v = I.load(a[0])
    if isinstance(v, SeqV) and v.of is not None:
        dedup_seq(I, a[0], v)
        return UNIT
    if not isinstance(v, VecV):
        raise Unsupported("dedup")
    o = []
    for x in v.e:
        if o and I.p.branch(veq_deep(I, o[-1], x)):
            continue
        o.append(x)
    I.store_ref(a[0], VecV(o))
    return UNIT


# ---------------------------------------------------------------- hash maps (as association lists)
@rx(r"^std::collections::(HashMap|hash_map::HashMap|HashSet|BTreeMap|BTreeSet|hash_set::HashSet)::<.*>::(new|with_capacity)$|^<std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)<.*> as std::default::Default>::default$")
def n_hmnew(I, fn, a, c):
    return Opaque("map", ())


def sym_map(I, a, m, op, ty, isset):
    """a map that a summarised loop has filled; only its keys are tracked (see loops.map_has)"""
    from loops import map_has
    d = m.data[1]
    if op == "len":
        return app("maplen", (d,), "I", 0, 2 ** 32)
    if op == "is_empty":
        return ieq(app("maplen", (d,), "I", 0, 2 ** 32), 0)
    k = I.sval(a[1])
    if op in ("contains", "contains_key"):
        return map_has(d, k)
    if op == "get":
        raise Unsupported("value of a map filled by a loop")
    I.store_ref(a[0], Opaque("map", ("sym", app("mapins" if op == "insert" else "maprem", (d, k), "S"))))
    if isset:
        return not_(map_has(d, k)) if op == "insert" else map_has(d, k)
    return Opaque("former value")


def hm_find(I, m, k):
    for i, (kk, vv) in enumerate(m.data):
        if I.p.branch(veq_deep(I, kk, k)):
            return i
    return None


@rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::(insert|remove|contains_key|contains|get|len|is_empty)$")
def n_hm(I, fn, a, c):
    m = I.load(a[0])
    if not isinstance(m, Opaque) or m.what != "map":
        raise Unsupported("map %s" % short(m))
    op = fn.df.rsplit("::", 1)[1]
    ty = out_ty(I, fn)
    isset = "Set" in fn.df.split("<")[0]
    if m.data and m.data[0] == "sym":
        return sym_map(I, a, m, op, ty, isset)
    if op == "len":
        return len(m.data)
    if op == "is_empty":
        return len(m.data) == 0
    i = hm_find(I, m, a[1])
    if op in ("contains_key", "contains"):
        return i is not None
    if op == "get":
        if i is None:
            return none(I, ty)
        return some(I, ty, Ref(Cell(m.data[i][1])))
    if op == "insert":
        val = UNIT if isset else a[2]
        if i is None:
            I.store_ref(a[0], Opaque("map", m.data + ((a[1], val),)))
            return True if isset else none(I, ty)
        old = m.data[i][1]
        I.store_ref(a[0], Opaque("map", m.data[:i] + ((m.data[i][0], val),) + m.data[i + 1:]))
        return False if isset else some(I, ty, old)
    if i is None:
        return False if isset else none(I, ty)
    I.store_ref(a[0], Opaque("map", m.data[:i] + m.data[i + 1:]))
    return True if isset else some(I, ty, m.data[i][1])


@rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::(keys|values|into_keys|into_values|iter)$")
def n_hmkeys(I, fn, a, c):
    m = I.deep(a[0])
    op = fn.df.rsplit("::", 1)[1]
    if m.data and m.data[0] == "sym":
        return IterV("val", UNINIT, 0, app("maplen", (m.data[1],), "I", 0, 2 ** 32), "unordered")
    if op == "iter" and "Map" in fn.df:
        raise Unsupported("map iteration")
    e = VecV([Ref(Cell(k if "keys" in op or op == "iter" else v)) for k, v in m.data])
    if op.startswith("into"):
        e = VecV([x.cell.v for x in e.e])
    if len(e.e) > 1:
        # iteration order is unspecified: the verifier only supports order-insensitive uses (len)
        return IterV("val", e, 0, len(e.e), "unordered")
    return IterV("val", e, 0, len(e.e))


@rx(r"^<std::collections::(hash_map|btree_map|hash_set)::(Keys|Values|Iter|IntoIter|IntoKeys|IntoValues)<.* as std::iter::(ExactSizeIterator>::len|Iterator>::count)$")
def n_keyslen(I, fn, a, c):
    it = I.deep(a[0])
    if not isinstance(it, IterV):
        raise Unsupported("length of %s" % short(it))
    return sub(it.hi, it.lo)


@rx(r"^<std::collections::(hash_map|btree_map)::(Keys|Values|IntoKeys).* as std::iter::Iterator>::next$")
def n_keysnext(I, fn, a, c):
    it = I.deep(a[0])
    if it.extra == "unordered":
        raise Unsupported("iteration over a hash map")
    return iter_next(I, fn, a[0])


# ---------------------------------------------------------------- searches in sequences of symbolic length
def sym_iter(I, ref):
    """the iterator behind a reference when its length is symbolic"""
    r = deep_ref(I, ref)
    it = I.load(r)
    if isinstance(it, IterV) and it.by in ("ref", "val") and not (is_c(it.lo) and is_c(it.hi)):
        return r, it
    return None


def call_closure(I, f, args):
    """call of a closure passed by value or by reference"""
    g = I.deep(f)
    if isinstance(g, FnV):
        fn = I.mir.fns.get(g.key)
        return I.call_fn(fn, args, fn.df)
    ref = f if type(f) is Ref else Ref(Cell(f))
    fn = closure_fn(I, g.tid)
    t = I.mir.types[fn.locals[1]]
    self_ = ref if t.k in ("ref", "ptr") else g
    return I.run(fn, [self_] + list(args))


def closure_fn(I, tid):
    c = I.mir.__dict__.setdefault("_closures", None)
    if c is None:
        c = {}
        for fn in I.mir.fns.values():
            if fn.closure and fn.blocks is not None:
                t = I.mir.types[fn.locals[1]]
                while t.k in ("ref", "ptr"):
                    t = I.mir.types[t.d["t"]]
                c.setdefault(t.id, []).append(fn)
        I.mir.__dict__["_closures"] = c
    l = c.get(tid, [])
    if len(l) != 1:
        raise Unsupported("closure body (%d)" % len(l))
    return l[0]


def search_native(kind):
    def f(I, fn, a, c):
        s_ = sym_iter(I, a[0])
        if s_ is None or is_c(s_[1].lo) is False:
            return I.run(fn, a)
        from seqs import search
        r, it = s_
        oty = out_ty(I, fn)
        at = lambda j: iter_elem(I, it, add(j, it.lo))
        byref = kind == "find"

        def pred(j):
            x = at(j)
            v = call_closure(I, a[1], [Ref(Cell(x)) if byref else x])
            if kind == "find_map":
                return I.variant(v) == 1
            return not_(v) if kind == "all" else v
        ln = sub(it.hi, it.lo)
        k = search(I, ln, pred)
        I.store_ref(r, IterV(it.by, it.src, it.hi if k is None else add(add(k, it.lo), 1), it.hi, it.extra))
        if kind == "any":
            return k is not None
        if kind == "all":
            return k is None
        if k is None:
            return none(I, oty)
        if kind == "position":
            return some(I, oty, k)
        if kind == "find":
            return some(I, oty, at(k))
        return call_closure(I, a[1], [at(k)])
    return f


for _k in ("find", "find_map", "any", "all", "position"):
    NATIVE["probe::models::model_it_" + _k] = search_native(_k)

import natives_std  # noqa
