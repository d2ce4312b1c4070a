"""Functional specifications of the bignumber package (C20, C21)."""
from term import *
import term as tm
from values import *
from natives import out_ty, ok_ty, ok, flat_int, mk_variant, isdigits, strval, split_text, expand_dectext, some
from world import mk_int
from verify import Contract, SpecErr

W = 10 ** 18
B = 1 << 256
CONTRACTS = {}


def contract(df):
    def d(f):
        CONTRACTS[df] = Contract(df, f)
        return f
    return d


def out(I, fn, v):
    return mk_int(I.mir, out_ty(I, fn), v)


def fits(I, v, b=B):
    if not I.p.branch(lt(v, b)):
        raise Panic("does not fit")
    return v


def fi(I, x):
    return flat_int(I, x)


def binary(ty, tr, spec, rhs=None):
    df = "<%s as std::ops::%s%s>::%s" % (ty, tr, "<%s>" % rhs if rhs else "", {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "AddAssign": "add_assign"}[tr])

    def f(I, fn, a):
        return out(I, fn, spec(I, fi(I, a[0]), fi(I, a[1])))
    CONTRACTS[df] = Contract(df, f, text=spec.__doc__)


def s_add(I, a, b):
    """a + b, aborting at 2^256"""
    return fits(I, add(a, b))


def s_sub(I, a, b):
    """a - b, aborting below zero"""
    if not I.p.branch(ge(a, b)):
        raise Panic("below zero")
    return sub(a, b)


def s_mul(I, a, b):
    """a * b, aborting at 2^256"""
    return fits(I, mul(a, b))


def s_ratio(I, a, b, c):
    """floor(a*b/c), aborting when a*b does not fit or c = 0"""
    if I.p.branch(ieq(c, 0)):
        raise Panic("division by zero")
    return fdiv(fits(I, mul(a, b)), c)


U, D = "bignumber::Uint256", "bignumber::Decimal256"
binary(U, "Add", s_add)
binary(U, "Sub", s_sub)
binary(U, "Mul", s_mul)
binary(U, "Mul", lambda I, a, b: 0 if I.p.branch(or_(ieq(a, 0), ieq(b, 0))) else s_ratio(I, a, b, W), D)
binary(U, "Div", lambda I, a, b: udivdec(I, a, b), D)
binary(D, "Add", s_add)
binary(D, "Sub", s_sub)
binary(D, "Mul", lambda I, a, b: s_ratio(I, a, b, W))
binary(D, "Div", lambda I, a, b: s_ratio(I, a, W, b))
binary(D, "Mul", lambda I, a, b: 0 if I.p.branch(or_(ieq(a, 0), ieq(b, 0))) else s_ratio(I, a, b, W), U)


def udivdec(I, a, b):
    """floor(a*10^18/b), aborting for b = 0"""
    if I.p.branch(ieq(b, 0)):
        raise Panic("division by zero")
    if I.p.branch(ieq(a, 0)):
        return 0
    return s_ratio(I, a, W, b)


def addassign(ty):
    df = "<%s as std::ops::AddAssign>::add_assign" % ty

    def f(I, fn, a):
        """x += b, aborting at 2^256"""
        x = I.deep(a[0])
        t = I.mir.types[fn.locals[1]].d["t"]
        I.store_ref(a[0], mk_int(I.mir, t, s_add(I, fi(I, x), fi(I, a[1]))))
        return UNIT
    CONTRACTS[df] = Contract(df, f)


addassign(U)
addassign(D)


@contract("bignumber::Uint256::multiply_ratio")
def c_mr(I, fn, a):
    """floor(self*nominator/denominator), aborting when the product does not fit or the denominator is 0"""
    x, n, d = fi(I, a[0]), fi(I, a[1]), fi(I, a[2])
    return out(I, fn, s_ratio(I, x, n, d))


@contract("bignumber::Decimal256::from_ratio")
def c_fr(I, fn, a):
    """floor(n*10^18/d), aborting when the product does not fit or d is 0"""
    return out(I, fn, s_ratio(I, fi(I, a[0]), W, fi(I, a[1])))


@contract("bignumber::Decimal256::from_uint256")
def c_fu(I, fn, a):
    """n as a decimal: n*10^18, aborting at 2^256"""
    return out(I, fn, fits(I, mul(fi(I, a[0]), W)))


@contract("bignumber::Decimal256::percent")
def c_pc(I, fn, a):
    """x percent"""
    return out(I, fn, mul(a[0], 10 ** 16))


@contract("bignumber::Decimal256::permille")
def c_pm(I, fn, a):
    """x permille"""
    return out(I, fn, mul(a[0], 10 ** 15))


for nm, v in (("Decimal256::one", W), ("Decimal256::zero", 0), ("Uint256::one", 1), ("Uint256::zero", 0)):
    CONTRACTS["bignumber::" + nm] = Contract("bignumber::" + nm, (lambda v: lambda I, fn, a: out(I, fn, v))(v), text="constant")
for nm in ("Decimal256", "Uint256"):
    CONTRACTS["bignumber::%s::is_zero" % nm] = Contract("bignumber::%s::is_zero" % nm, lambda I, fn, a: ieq(fi(I, a[0]), 0), text="value = 0")
    for op, f in (("PartialEq>::eq", ieq),):
        df = "<bignumber::%s as std::cmp::%s" % (nm, op)
        CONTRACTS[df] = Contract(df, lambda I, fn, a: ieq(fi(I, a[0]), fi(I, a[1])), text="equality of values")
    df = "<bignumber::%s as std::cmp::PartialOrd>::partial_cmp" % nm
    CONTRACTS[df] = Contract(df, lambda I, fn, a: some(I, out_ty(I, fn), I.ordering(I.mir.types[out_ty(I, fn)].d["vs"][1]["f"][0][1], fi(I, a[0]), fi(I, a[1]))), text="order of values")
    df = "<bignumber::%s as std::cmp::Ord>::cmp" % nm
    CONTRACTS[df] = Contract(df, lambda I, fn, a: I.ordering(out_ty(I, fn), fi(I, a[0]), fi(I, a[1])), text="order of values")


# the same operations of the host library, on 128 bits (verified like the others)
@contract("cosmwasm_std::Uint128::multiply_ratio")
def c_mr128(I, fn, a):
    """floor(self*numerator/denominator), aborting when the result does not fit or the denominator is 0"""
    x, n, d = (fi(I, y) for y in a)
    if I.p.branch(ieq(d, 0)):
        raise Panic("division by zero")
    return out(I, fn, fits(I, fdiv(mul(x, n), d), 1 << 128))


@contract("cosmwasm_std::Decimal::from_ratio")
def c_dfr128(I, fn, a):
    """floor(numerator*10^18/denominator), aborting when the result does not fit or the denominator is 0"""
    x, d = (fi(I, y) for y in a)
    if I.p.branch(ieq(d, 0)):
        raise Panic("division by zero")
    return out(I, fn, fits(I, fdiv(mul(x, W), d), 1 << 128))


# text
@contract("bignumber::math::<impl std::convert::From<bignumber::Uint256> for std::string::String>::from")
def c_ustr(I, fn, a):
    """decimal digits"""
    return dec(fi(I, a[0]))


def writer(ty, text):
    df = "<%s as std::fmt::Display>::fmt" % ty

    def f(I, fn, a):
        from natives import fmt_write
        fmt_write(I, a[1], text(fi(I, a[0])))
        return ok(I, out_ty(I, fn), UNIT)
    CONTRACTS[df] = Contract(df, f, text="decimal text of the value")


writer(U, dec)
writer(D, lambda n: dectext(n, 18))


def number(I, s):
    """value of a digit string (0 for the empty one, as the existing tests require); refused otherwise, or when it does not fit"""
    if I.p.branch(seq(s, b"")):
        return 0
    if not I.p.branch(isdigits(s)):
        raise SpecErr()
    v = strval(s)
    if not I.p.branch(lt(v, B)):
        raise SpecErr()
    return v


@contract("<bignumber::Uint256 as std::str::FromStr>::from_str")
def c_ufs(I, fn, a):
    """the number written (the empty text is read as 0)"""
    return ok(I, out_ty(I, fn), mk_int(I.mir, ok_ty(I, out_ty(I, fn)), number(I, I.sval(a[0]))))


@contract("<bignumber::Uint256 as std::convert::TryFrom<&str>>::try_from")
def c_utf(I, fn, a):
    """the number written (the empty text is read as 0)"""
    return c_ufs(I, fn, a)


@contract("<bignumber::Decimal256 as std::str::FromStr>::from_str")
def c_dfs(I, fn, a):
    """the number written: digits, or digits '.' digits with at most 18 fractional digits; an empty part counts as 0; anything else is refused or aborts"""
    s = I.sval(a[0])
    o = out_ty(I, fn)
    mk = lambda v: ok(I, o, mk_int(I.mir, ok_ty(I, o), v))
    if isinstance(s, T) and s.op == "dectext" and s.a[1] == 18:
        return mk(s.a[0])
    parts = split_text(I, s, b".")
    if len(parts) == 1:
        return mk(fits(I, mul(number(I, parts[0]), W)))
    if len(parts) != 2:
        raise SpecErr()
    w, f = number(I, parts[0]), number(I, parts[1])
    L = slen(parts[1]) if not (isinstance(parts[1], T) and parts[1].op == "num") else parts[1].a[1]
    if not I.p.branch(le(L, 18)):
        raise SpecErr()
    wa = fits(I, mul(w, W))
    return mk(fits(I, add(wa, fits(I, mul(f, ipow(10, sub(18, L)))))))


# conversions: the value is preserved, or the call aborts
def conv(df, bound=None):
    def f(I, fn, a):
        v = fi(I, a[0])
        return out(I, fn, v if bound is None else fits(I, v, bound))
    CONTRACTS[df] = Contract(df, f, text="same value" + ("" if bound is None else ", aborting when it does not fit"))


conv("<bignumber::Uint256 as std::convert::From<bigint::U256>>::from")
conv("<bignumber::Uint256 as std::convert::From<cosmwasm_std::Uint128>>::from")
conv("<bignumber::Uint256 as std::convert::From<u128>>::from")
conv("<bignumber::Uint256 as std::convert::From<u64>>::from")
conv("<bignumber::Decimal256 as std::convert::From<cosmwasm_std::Decimal>>::from")
conv("bignumber::math::<impl std::convert::From<bignumber::Uint256> for bigint::U256>::from")
conv("bignumber::math::<impl std::convert::From<bignumber::Uint256> for cosmwasm_std::Uint128>::from", 1 << 128)
conv("bignumber::math::<impl std::convert::From<bignumber::Uint256> for u128>::from", 1 << 128)
conv("bignumber::math::<impl std::convert::From<bignumber::Decimal256> for cosmwasm_std::Decimal>::from", 1 << 128)




def fmt_args(I, fn):
    return [fresh(I.mir, fn.locals[1], "a0"), Ref(Cell(Opaque("fmt", b"")))]


ARGGEN = {"<%s as std::fmt::Display>::fmt" % t: fmt_args for t in (U, D)}


# ---------------------------------------------------------------- the public operations, as their users call them (C20, C21)
ROOTS = {
    "C20": {
        "u_add": "<%s as std::ops::Add>::add" % U, "u_addassign": "<%s as std::ops::Add>::add" % U, "u_sub": "<%s as std::ops::Sub>::sub" % U,
        "u_mul": "<%s as std::ops::Mul>::mul" % U, "u_muldec": "<%s as std::ops::Mul<%s>>::mul" % (U, D), "u_divdec": "<%s as std::ops::Div<%s>>::div" % (U, D),
        "u_multiply_ratio": U + "::multiply_ratio", "u_is_zero": U + "::is_zero", "u_zero": U + "::zero", "u_one": U + "::one",
        "u_from_u256": "<%s as std::convert::From<bigint::U256>>::from" % U, "u_into_u256": "bignumber::math::<impl std::convert::From<bignumber::Uint256> for bigint::U256>::from",
        "u_from_u128": "<%s as std::convert::From<u128>>::from" % U, "u_from_uint128": "<%s as std::convert::From<cosmwasm_std::Uint128>>::from" % U,
        "u_from_u64": "<%s as std::convert::From<u64>>::from" % U, "u_into_u128": "bignumber::math::<impl std::convert::From<bignumber::Uint256> for u128>::from",
        "u_into_uint128": "bignumber::math::<impl std::convert::From<bignumber::Uint256> for cosmwasm_std::Uint128>::from",
        "d_add": "<%s as std::ops::Add>::add" % D, "d_addassign": "<%s as std::ops::Add>::add" % D, "d_sub": "<%s as std::ops::Sub>::sub" % D,
        "d_mul": "<%s as std::ops::Mul>::mul" % D, "d_div": "<%s as std::ops::Div>::div" % D, "d_mulu": "<%s as std::ops::Mul<%s>>::mul" % (D, U),
        "d_from_ratio": D + "::from_ratio", "d_from_uint256": D + "::from_uint256", "d_percent": D + "::percent", "d_permille": D + "::permille",
        "d_is_zero": D + "::is_zero", "d_zero": D + "::zero", "d_one": D + "::one",
        "d_from_decimal": "<%s as std::convert::From<cosmwasm_std::Decimal>>::from" % D,
        "d_into_decimal": "bignumber::math::<impl std::convert::From<bignumber::Decimal256> for cosmwasm_std::Decimal>::from",
        "u_eq": None, "d_eq": None, "u_cmp": None, "d_cmp": None},
    "C21": {
        "u_into_string": "bignumber::math::<impl std::convert::From<bignumber::Uint256> for std::string::String>::from",
        "u_to_string": None, "d_to_string": None,
        "u_from_str": "<%s as std::str::FromStr>::from_str" % U, "u_try_from": "<%s as std::convert::TryFrom<&str>>::try_from" % U,
        "d_from_str": "<%s as std::str::FromStr>::from_str" % D,
        # as part of a message: the text Serialize hands over, what Deserialize makes of a text
        "u_written": None, "d_written": None,
        "u_read": "<%s as std::str::FromStr>::from_str" % U, "d_read": "<%s as std::str::FromStr>::from_str" % D},
}
PLAIN = {"u_eq": lambda I, fn, a: ieq(fi(I, a[0]), fi(I, a[1])), "d_eq": lambda I, fn, a: ieq(fi(I, a[0]), fi(I, a[1])),
         "u_cmp": lambda I, fn, a: lt(fi(I, a[0]), fi(I, a[1])), "d_cmp": lambda I, fn, a: lt(fi(I, a[0]), fi(I, a[1])),
         "u_written": lambda I, fn, a: ok(I, out_ty(I, fn), dec(fi(I, a[0]))), "d_written": lambda I, fn, a: ok(I, out_ty(I, fn), dectext(fi(I, a[0]), 18)),
         "u_to_string": lambda I, fn, a: dec(fi(I, a[0])), "d_to_string": lambda I, fn, a: dectext(fi(I, a[0]), 18)}
ROOTS["C21"]["d_round_trip"] = None
ROOTS["C21"]["u_round_trip"] = None
PLAIN["d_round_trip"] = PLAIN["u_round_trip"] = lambda I, fn, a: ok(I, out_ty(I, fn), a[0])
DECIDES, REQUIRED = {}, set()
for pid, roots in ROOTS.items():
    for nm_, df_ in roots.items():
        k_ = "probe::root_bn_" + nm_
        f_ = PLAIN.get(nm_) or CONTRACTS[df_].spec
        CONTRACTS[k_] = Contract(k_, f_, text=CONTRACTS[df_].text if df_ else "as stated")
        DECIDES.setdefault(pid, []).append(k_)
        REQUIRED.add(k_)
