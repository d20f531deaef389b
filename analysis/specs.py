"""Function summaries.

One table serves two purposes: it is the summary used at call sites (modular
interprocedural analysis) and the obligation the function's own body is analysed
against.  A summary is a function (ctx, *argument normal forms) -> expected
result; results may be case lists [(predicate, result), ...].  How arguments are
passed and what is returned is read from the compiled signature."""
from engine import *
from expr import *
from ctx import *

UBI = 'hmath::ubigint::UBigInt'
BI = 'hmath::bigint::BigInt'
RAT = 'hmath::ratio::Ratio'
CPX = 'hmath::complex::Complex'
MAT = 'hmath::matrix::Matrix'
POL = 'hmath::poly::Polynomial'


class Mark:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


PANIC = Mark('PANIC')
ANY = Mark('ANY')        # unconstrained (documented precondition not met)
ERR = Mark('ERR')
NONEV = Mark('NONE')
W32 = 1 << 32
SPECS = {}


def S(names, fn):
    for n in names.split():
        SPECS[n] = fn


def X_(name, fn):
    SPECS[name] = fn


# ---------------------------------------------------------------- helpers
def nonneg(a, b):
    return p_le(b, a)


def usub(c, a, b):
    return [(p_le(b, a), a - b), (p_lt(a, b), PANIC)]


def udiv(c, a, b):
    return [(p_ge(b - 1), lambda c2: c2.mk_div(a, b)), (p_eq(b), PANIC)]


def urem(c, a, b):
    return [(p_ge(b - 1), lambda c2: c2.mk_mod(a, b)), (p_eq(b), PANIC)]


def _tq(c, a, b):
    """truncated quotient, b != 0; a case list on the signs"""
    A, B = p_ge(a), p_ge(b - 1)
    nA, nB = p_ge(-a - 1), p_ge(-b - 1)
    return [
        (p_and(A, B), lambda c2: c2.mk_div(a, b)),
        (p_and(A, nB), lambda c2: -c2.mk_div(a, -b)),
        (p_and(nA, B), lambda c2: -c2.mk_div(-a, b)),
        (p_and(nA, nB), lambda c2: c2.mk_div(-a, -b)),
    ]


def tdiv(c, a, b):
    return _tq(c, a, b) + [(p_eq(b), PANIC)]


def trem(c, a, b):
    return [(q, (lambda c2, r=r: a - b * r(c2))) for q, r in _tq(c, a, b)] + [(p_eq(b), PANIC)]


def cmp_(c, a, b):
    return [(p_lt(a, b), LESS), (p_eq(a - b), EQUAL), (p_lt(b, a), GREATER)]


def absd(c, a, b):
    return [(p_le(b, a), a - b), (p_lt(a, b), b - a)]


def fits(lo, hi):
    return lambda c, a: [(p_and(p_ge(a - lo), p_ge(P(hi) - a)), ('ok', a)), (p_not(p_and(p_ge(a - lo), p_ge(P(hi) - a))), ERR)]


def shl_limbs(c, a, n):
    return a * mk_pow2(n * 32)


def shr_limbs(c, a, n):
    return [(p_lt(n, c.mk_len_(a)), lambda c2: c2.mk_div(a, mk_pow2(n * 32))), (p_le(c.mk_len_(a), n), ZERO)]


def slice_limbs(c, a, n):
    return [(p_le(n, c.mk_len_(a)), lambda c2: c2.mk_mod(a, mk_pow2(n * 32))), (p_lt(c.mk_len_(a), n), PANIC)]


def _len(self, p):
    return self.mk_len(self.mk_abs(p))


Ctx.mk_len_ = _len


def upow(c, a, n):
    return [(p_eq(n), ONE), (p_and(p_ge(n - 1), p_eq(a)), ZERO), (p_and(p_ge(n - 1), p_ge(a - 1)), lambda c2: mk_pow(a, n))]


# --------------------------------------------------------------- UBigInt
S('UBigInt::add UBigInt::add_mut UBigInt::add_u32 UBigInt::add_u32_mut', lambda c, a, b: a + b)
S('UBigInt::sub UBigInt::sub_mut UBigInt::sub_u32 UBigInt::sub_u32_mut', usub)
S('UBigInt::abs_diff UBigInt::abs_diff_u32', absd)
S('UBigInt::mul UBigInt::mul_mut UBigInt::mul_u32 UBigInt::mul_u32_mut', lambda c, a, b: a * b)
S('UBigInt::div UBigInt::div_mut UBigInt::div_u32 UBigInt::div_u32_mut', udiv)
S('UBigInt::rem UBigInt::rem_mut UBigInt::rem_u32 UBigInt::rem_u32_mut', urem)
S('UBigInt::mul_pow2 UBigInt::mul_pow2_mut', lambda c, a, n: a * mk_pow2(n))
S('UBigInt::pow_u32 UBigInt::pow_u32_mut', upow)
S('UBigInt::pow2', lambda c, n: mk_pow2(n))
S('UBigInt::shift_left UBigInt::shift_left_mut', shl_limbs)
S('UBigInt::shift_right UBigInt::shift_right_mut', shr_limbs)
S('UBigInt::slice_right UBigInt::slice_right_mut', slice_limbs)
S('UBigInt::len', lambda c, a: c.mk_len(a))
S('UBigInt::zero', lambda c: ZERO)
S('UBigInt::one', lambda c: ONE)
X_('<UBigInt as Default>::default', lambda c: ZERO)
S('UBigInt::is_zero', lambda c, a: p_eq(a))
S('UBigInt::is_one', lambda c, a: p_eq(a - 1))
for suf in ('', '_u32'):
    S('UBigInt::lt' + suf, lambda c, a, b: p_lt(a, b))
    S('UBigInt::gt' + suf, lambda c, a, b: p_lt(b, a))
    S('UBigInt::leq' + suf, lambda c, a, b: p_le(a, b))
    S('UBigInt::geq' + suf, lambda c, a, b: p_le(b, a))
    S('UBigInt::eq' + suf, lambda c, a, b: p_eq(a - b))
    S('UBigInt::neq' + suf, lambda c, a, b: p_not(p_eq(a - b)))
    S('UBigInt::comp' + suf, cmp_)
X_('<UBigInt as PartialEq>::eq', lambda c, a, b: p_eq(a - b))
X_('<UBigInt as Ord>::cmp', cmp_)
X_('<UBigInt as PartialOrd>::partial_cmp', lambda c, a, b: [(q, ('some', r)) for q, r in cmp_(c, a, b)])
X_('<UBigInt as Clone>::clone', lambda c, a: a)
S('UBigInt::from_u32 UBigInt::from_u64 UBigInt::from_u128', lambda c, n: n)
S('UBigInt::to_u32', fits(0, (1 << 32) - 1))
S('UBigInt::to_u64', fits(0, (1 << 64) - 1))
S('UBigInt::to_u128', fits(0, (1 << 128) - 1))
S('gcd_ubi', lambda c, a, b: lambda c2: c2.mk_gcd(a, b))
S('UBigInt::sqrt', lambda c, a: P(atom('isqrt', (a,), 0, INF)) if not a.is_const else P(_isq(a.const)))
S('UBigInt::log2', lambda c, a: [(p_eq(a), ZERO), (p_ge(a - 1), lambda c2: c2.mk_ilog2(a))])
S('log2_u32', lambda c, a: [(p_eq(a), ZERO), (p_ge(a - 1), lambda c2: c2.mk_ilog2(a))])


def _isq(x):
    import math
    return math.isqrt(x)


# ---------------------------------------------------------------- BigInt
for suf in ('', '_mut', '_i32', '_i32_mut'):
    S('BigInt::add' + suf, lambda c, a, b: a + b)
    S('BigInt::sub' + suf, lambda c, a, b: a - b)
    S('BigInt::mul' + suf, lambda c, a, b: a * b)
    S('BigInt::div' + suf, tdiv)
    S('BigInt::rem' + suf, trem)
S('BigInt::mul_pow2 BigInt::mul_pow2_mut', lambda c, a, n: a * mk_pow2(n))


def even(c, n):
    return p_eq(c.mk_mod(n, P(2)))


def zpow(c, a, n):
    ev = even(c, n)
    return [(p_eq(n), ONE),
            (p_and(p_ge(n - 1), p_eq(a)), ZERO),
            (p_and(p_ge(n - 1), p_ge(a - 1)), lambda c2: mk_pow(a, n)),
            (p_and(p_and(p_ge(n - 1), p_ge(-a - 1)), ev), lambda c2: mk_pow(-a, n)),
            (p_and(p_and(p_ge(n - 1), p_ge(-a - 1)), p_not(ev)), lambda c2: -mk_pow(-a, n))]


S('BigInt::pow_u32 BigInt::pow_u32_mut', zpow)
S('BigInt::pow2', lambda c, n: mk_pow2(n))
S('BigInt::exp2', lambda c, n: mk_pow2(n))
S('UBigInt::exp2', lambda c, n: mk_pow2(n))
S('BigInt::len', lambda c, a: [(p_ge(a), lambda c2: c2.mk_len(a)), (p_ge(-a - 1), lambda c2: c2.mk_len(-a))])
S('BigInt::zero', lambda c: ZERO)
S('BigInt::one', lambda c: ONE)
X_('<BigInt as Default>::default', lambda c: ZERO)
S('BigInt::is_zero', lambda c, a: p_eq(a))
S('BigInt::is_one', lambda c, a: p_eq(a - 1))
S('BigInt::is_neg', lambda c, a: p_ge(-a - 1))
for suf in ('', '_i32'):
    S('BigInt::lt' + suf, lambda c, a, b: p_lt(a, b))
    S('BigInt::gt' + suf, lambda c, a, b: p_lt(b, a))
    S('BigInt::leq' + suf, lambda c, a, b: p_le(a, b))
    S('BigInt::geq' + suf, lambda c, a, b: p_le(b, a))
    S('BigInt::eq' + suf, lambda c, a, b: p_eq(a - b))
    S('BigInt::neq' + suf, lambda c, a, b: p_not(p_eq(a - b)))
    S('BigInt::comp' + suf, cmp_)
X_('<BigInt as PartialEq>::eq', lambda c, a, b: p_eq(a - b))
X_('<BigInt as Ord>::cmp', cmp_)
X_('<BigInt as PartialOrd>::partial_cmp', lambda c, a, b: [(q, ('some', r)) for q, r in cmp_(c, a, b)])
X_('<BigInt as Clone>::clone', lambda c, a: a)
S('BigInt::from_i32 BigInt::from_i64 BigInt::from_i128', lambda c, n: n)
S('BigInt::to_i32', fits(-(1 << 31), (1 << 31) - 1))
S('BigInt::to_i64', fits(-(1 << 63), (1 << 63) - 1))
S('BigInt::to_i128', fits(-(1 << 127), (1 << 127) - 1))
S('BigInt::from_ubi', lambda c, a, neg: [(p_not(neg), a), (neg, -a)])
S('BigInt::to_ubi', lambda c, a: [(p_ge(a), ('ok', a)), (p_ge(-a - 1), ERR)])
S('BigInt::neg BigInt::neg_mut', lambda c, a: -a)
S('BigInt::abs BigInt::abs_mut', lambda c, a: [(p_ge(a), a), (p_ge(-a - 1), -a)])


def signed_of(f):
    """lift a natural-number summary to sign * f(|a|)"""
    def g(c, a, *r):
        out = []
        for q, s in ((p_ge(a), 1), (p_ge(-a - 1), -1)):
            for q2, v in as_cases(f(c, a * s, *r)):
                if isinstance(v, Mark):
                    out.append((p_and(q, q2), v))
                else:
                    out.append((p_and(q, q2), (lambda c2, v=v, s=s: (v(c2) if callable(v) else v) * s)))
        return out
    return g


def as_cases(r):
    if isinstance(r, list):
        return r
    return [(True, r)]


S('BigInt::shift_left BigInt::shift_left_mut', signed_of(shl_limbs))
S('BigInt::shift_right BigInt::shift_right_mut', signed_of(shr_limbs))
S('BigInt::slice_right BigInt::slice_right_mut', signed_of(slice_limbs))
S('gcd_bi', lambda c, a, b: lambda c2: c2.mk_gcd(a, b))
S('BigInt::sqrt', signed_of(SPECS['UBigInt::sqrt']))
S('BigInt::log2', lambda c, a: [(p_eq(a), ZERO), (p_ge(a - 1), lambda c2: c2.mk_ilog2(a)), (p_ge(-a - 1), lambda c2: c2.mk_ilog2(-a))])

# -------------------------------------------------- primitive conversions
IW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
SW = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}
RNG = {}
for k, w in IW.items():
    RNG[k] = (0, (1 << w) - 1)
for k, w in SW.items():
    RNG[k] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
for t, (lo, hi) in RNG.items():
    for r in ('', '&'):
        for big in ('UBigInt', 'BigInt'):
            X_('<%s as TryFrom<%s%s>>::try_from' % (t, r, big), fits(lo, hi))
            X_('<%s as From<%s%s>>::from' % (big, r, t), lambda c, n: n)
        X_('<UBigInt as TryFrom<%s%s>>::try_from' % (r, t), lambda c, n: [(p_ge(n), ('ok', n)), (p_ge(-n - 1), ERR)])
        X_('<Ratio as From<%s%s>>::from' % (r, t), lambda c, n: Q(n, ONE))
for r in ('', '&'):
    X_('<UBigInt as TryFrom<%sBigInt>>::try_from' % r, SPECS['BigInt::to_ubi'])
    X_('<BigInt as From<%sUBigInt>>::from' % r, lambda c, n: n)
    X_('<Ratio as From<%sUBigInt>>::from' % r, lambda c, n: Q(n, ONE))
    X_('<Ratio as From<%sBigInt>>::from' % r, lambda c, n: Q(n, ONE))
    for big in ('UBigInt', 'BigInt'):
        X_('<bool as From<%s%s>>::from' % (r, big), lambda c, a: p_not(p_eq(a)))
        X_('<%s as From<%sbool>>::from' % (big, r), lambda c, b: [(b, ONE), (p_not(b), ZERO)])


# ----------------------------------------------------------------- Ratio
NOCONTRACT = set()


def qz(x):
    return x if isinstance(x, Q) else Q(x, ONE)


def qadd(c, a, b):
    a, b = qz(a), qz(b)
    if a.d == b.d:
        return Q(a.n + b.n, a.d)
    return Q(a.n * b.d + b.n * a.d, a.d * b.d)


def qsub(c, a, b):
    b = qz(b)
    return qadd(c, a, Q(-b.n, b.d))


def qmul(c, a, b):
    a, b = qz(a), qz(b)
    return Q(a.n * b.n, a.d * b.d)


def qdiv(c, a, b):
    a, b = qz(a), qz(b)
    return [(p_ge(b.n - 1), Q(a.n * b.d, a.d * b.n)),
            (p_ge(-b.n - 1), Q(-a.n * b.d, -(a.d * b.n))),
            (p_eq(b.n), PANIC)]


def qdiff(a, b):
    a, b = qz(a), qz(b)
    return a.n * b.d - b.n * a.d


for suf in ('', '_mut', '_bi', '_bi_mut', '_i32', '_i32_mut'):
    S('Ratio::add' + suf, qadd)
    S('Ratio::sub' + suf, qsub)
    S('Ratio::mul' + suf, qmul)
    S('Ratio::div' + suf, qdiv)


def qcmp(c, a, b):
    d = qdiff(a, b)
    return [(p_ge(-d - 1), LESS), (p_eq(d), EQUAL), (p_ge(d - 1), GREATER)]


for suf in ('', '_i32'):
    S('Ratio::lt' + suf, lambda c, a, b: p_ge(-qdiff(a, b) - 1))
    S('Ratio::gt' + suf, lambda c, a, b: p_ge(qdiff(a, b) - 1))
    S('Ratio::leq' + suf, lambda c, a, b: p_ge(-qdiff(a, b)))
    S('Ratio::geq' + suf, lambda c, a, b: p_ge(qdiff(a, b)))
    S('Ratio::eq' + suf, lambda c, a, b: p_eq(qdiff(a, b)))
    S('Ratio::neq' + suf, lambda c, a, b: p_not(p_eq(qdiff(a, b))))
    S('Ratio::comp' + suf, qcmp)
X_('<Ratio as PartialEq>::eq', lambda c, a, b: p_eq(qdiff(a, b)))
X_('<Ratio as Ord>::cmp', qcmp)
X_('<Ratio as PartialOrd>::partial_cmp', lambda c, a, b: [(q, ('some', r)) for q, r in qcmp(c, a, b)])
S('Ratio::lt_one', lambda c, a: p_ge(a.d - a.n - 1))
S('Ratio::gt_one', lambda c, a: p_ge(a.n - a.d - 1))
X_('<Ratio as Clone>::clone', lambda c, a: a)
X_('<Ratio as Default>::default', lambda c: Q(ZERO, ONE))
S('Ratio::zero', lambda c: Q(ZERO, ONE))
S('Ratio::one', lambda c: Q(ONE, ONE))
S('Ratio::is_zero', lambda c, a: p_eq(a.n))
S('Ratio::is_one', lambda c, a: p_eq(a.n - a.d))
S('Ratio::is_neg', lambda c, a: p_ge(-a.n - 1))


def qisint(c, a):
    """d divides n"""
    if (a.n, a.d) in c.cop or a.d.is_const and a.d.const == 1:
        return p_eq(a.d - 1)
    g = c.mk_gcd(a.n, a.d)
    return p_eq(a.d - g)


S('Ratio::is_integer', qisint)
S('Ratio::neg Ratio::neg_mut', lambda c, a: Q(-a.n, a.d))
S('Ratio::abs Ratio::abs_mut', lambda c, a: [(p_ge(a.n), a), (p_ge(-a.n - 1), Q(-a.n, a.d))])
S('Ratio::reci Ratio::reci_mut', lambda c, a: qdiv(c, Q(ONE, ONE), a))


def qpow(c, a, e):
    out = [(p_eq(e), Q(ONE, ONE)),
           (p_and(p_eq(a.n), p_ge(e - 1)), Q(ZERO, ONE)),
           (p_and(p_eq(a.n), p_ge(-e - 1)), PANIC)]
    ev = even(c, e)
    for sn in (1, -1):
        m = a.n * sn
        for par, q in ((0, ev), (1, p_not(ev))):
            sg = -1 if sn < 0 and par else 1
            base = p_and(p_ge(m - 1), q)
            out.append((p_and(p_ge(e - 1), base), lambda c2, m=m, sg=sg: Q(mk_pow(m, e) * sg, mk_pow(a.d, e))))
            out.append((p_and(p_ge(-e - 1), base), lambda c2, m=m, sg=sg: Q(mk_pow(a.d, -e) * sg, mk_pow(m, -e))))
    return out


S('Ratio::pow_i32 Ratio::pow_i32_mut', qpow)


def qtrunc(c, a):
    return [(p_ge(a.n), lambda c2: c2.mk_div(a.n, a.d)), (p_ge(-a.n - 1), lambda c2: -c2.mk_div(-a.n, a.d))]


def qfloor(c, a):
    return [(p_ge(a.n), lambda c2: c2.mk_div(a.n, a.d)),
            (p_and(p_ge(-a.n - 1), qisint(c, a)), lambda c2: -c2.mk_div(-a.n, a.d)),
            (p_and(p_ge(-a.n - 1), p_not(qisint(c, a))), lambda c2: -c2.mk_div(-a.n, a.d) - 1)]


def qround(c, a):
    def half(n, s):
        def f(c2):
            t = c2.mk_div(n, a.d)
            r = n - a.d * t
            return [(p_ge(a.d - 2 * r - 1), t * s), (p_ge(2 * r - a.d), (t + 1) * s)]
        return f
    return [(p_ge(a.n), half(a.n, 1)), (p_ge(-a.n - 1), half(-a.n, -1))]


def mapres(f, g):
    """post-compose every result of a case list"""
    def h(c, *a):
        def go(r):
            if isinstance(r, Mark):
                return r
            if isinstance(r, list):
                return [(q, go(v)) for q, v in r]
            if callable(r):
                return lambda c2: go(r(c2))
            return g(r, *a)
        r = f(c, *a)
        return go(r)
    return h


toq = lambda f: mapres(f, lambda r, *a: Q(r, ONE))
S('Ratio::truncate_bi', qtrunc)
S('Ratio::truncate Ratio::truncate_mut', toq(qtrunc))
S('Ratio::frac Ratio::frac_mut', mapres(qtrunc, lambda t, a: Q(a.n - a.d * t, a.d)))
S('Ratio::truncate_and_frac', mapres(qtrunc, lambda t, a: ('seq', t, Q(a.n - a.d * t, a.d))))
S('Ratio::floor_bi', qfloor)
S('Ratio::floor', toq(qfloor))
S('Ratio::round_bi', qround)
S('Ratio::round', toq(qround))
S('Ratio::from_bi Ratio::from_ubi Ratio::from_i32 Ratio::from_i64 Ratio::from_i128', lambda c, n: Q(n, ONE))
S('Ratio::from_denom_and_numer Ratio::from_denom_and_numer_i32',
  lambda c, d, n: [(p_ge(d - 1), Q(n, d)), (p_ge(-d - 1), Q(-n, -d)), (p_eq(d), PANIC)])
S('Ratio::get_denom', lambda c, a: qreduced(c, a)[1])
S('Ratio::get_numer', lambda c, a: qreduced(c, a)[0])


def qreduced(c, a):
    if (a.n, a.d) in c.cop or (a.d.is_const and a.d.const == 1):
        return a.n, a.d
    g = c.mk_gcd(a.n, a.d)
    return c.mk_div_exact(a.n, g), c.mk_div_exact(a.d, g)


S('gcd_i32', lambda c, a, b: lambda c2: c2.mk_gcd(a, b))


class Rel:
    """a relation the result must satisfy: fn(ctx, got) -> list of predicates"""

    def __init__(self, fn):
        self.fn = fn


def common(c, a, b):
    def rel(ctx, got):
        _, v1, v2, v3 = got
        return [p_ge(v3 - 1), p_eq(v1 * a.d - a.n * v3), p_eq(v2 * b.d - b.n * v3)]
    return Rel(rel)


S('common_denom', common)
NOCONTRACT.add('common_denom')
for t, (lo, hi) in RNG.items():
    for r in ('', '&'):
        X_('<%s as TryFrom<%sRatio>>::try_from' % (t, r), mapres(qtrunc, lambda v, a, lo=lo, hi=hi: fits(lo, hi)(None, v)))
for r in ('', '&'):
    X_('<BigInt as From<%sRatio>>::from' % r, qtrunc)
    X_('<UBigInt as TryFrom<%sRatio>>::try_from' % r, mapres(qtrunc, lambda v, a: SPECS['BigInt::to_ubi'](None, v)))
    X_('<Ratio as From<%sbool>>::from' % r, lambda c, b: [(b, Q(ONE, ONE)), (p_not(b), Q(ZERO, ONE))])


def _rempow2(sign):
    def fn(c, a, b):
        b = c.simp(b)
        if not b.is_const or b.const < 1 or int(b.const) & (int(b.const) - 1):
            return ANY
        if not sign:
            return c.mk_mod(a, b)
        return [(p_ge(a), lambda c2: c2.mk_mod(a, b)), (True, lambda c2: -c2.mk_mod(-a, b))]
    return fn


S('UBigInt::rem_pow2', _rempow2(False))
S('BigInt::rem_pow2', _rempow2(True))


class Upd:
    """result together with the new values of mutable arguments (by position)"""

    def __init__(self, new, res):
        self.new, self.res = new, res


# ------------------------------------------------------ matrices over the rationals
QZ, QO = Q(ZERO, ONE), Q(ONE, ONE)


def qa(a, b):
    if a.n.is_const and a.n.const == 0:
        return b
    if b.n.is_const and b.n.const == 0:
        return a
    if a.d == b.d:
        return Q(a.n + b.n, a.d)
    return Q(a.n * b.d + b.n * a.d, a.d * b.d)


def qm(a, b):
    return Q(a.n * b.n, a.d * b.d)


def qneg(a):
    return Q(-a.n, a.d)


def qsum(xs):
    r = QZ
    for x in xs:
        r = qa(r, x)
    return r


def mk_mat(rows, cols, f):
    return ('mat', rows, cols, tuple(tuple(f(i, j) for j in range(cols)) for i in range(rows)))


def det(g):
    """Laplace expansion along the last row, minors memoised"""
    n = len(g)
    memo = {}

    def go(k, cols):
        # determinant of rows 0..k-1 restricted to cols
        if k == 0:
            return QO
        r = memo.get(cols)
        if r is None:
            acc = QZ
            for idx, c in enumerate(cols):
                t = qm(g[k - 1][c], go(k - 1, cols[:idx] + cols[idx + 1:]))
                acc = qa(acc, t if (k - 1 + idx) % 2 == 0 else qneg(t))
            r = memo[cols] = acc
        return r
    return go(n, tuple(range(n)))


def minor(g, i, j):
    return tuple(tuple(x for c, x in enumerate(row) if c != j) for r, row in enumerate(g) if r != i)


def cofac(g, i, j):
    d = det(minor(g, i, j))
    return d if (i + j) % 2 == 0 else qneg(d)


def m_from_vec(c, data):
    rows = [r[1:] for r in data[1:]]
    if not rows:
        return ('ok', ('mat', 0, 0, ()))
    if any(len(r) != len(rows[0]) for r in rows):
        return ERR
    return ('ok', ('mat', len(rows), len(rows[0]), tuple(rows)))


def cint(p):
    return p.const


def m_add(c, a, b):
    if (a[1], a[2]) != (b[1], b[2]):
        return ERR
    return ('ok', mk_mat(a[1], a[2], lambda i, j: qa(a[3][i][j], b[3][i][j])))


def m_mul(c, a, b):
    if a[2] != b[1]:
        return ERR
    return ('ok', mk_mat(a[1], b[2], lambda i, j: qsum(qm(a[3][i][k], b[3][k][j]) for k in range(a[2]))))


def m_det(c, a):
    if a[1] != a[2] or a[1] == 0:
        return ERR
    return ('ok', det(a[3]))


def m_inv(c, a):
    if a[1] != a[2] or a[1] == 0:
        return ERR
    n = a[1]
    d = det(a[3])

    def inv(s):
        return lambda c2: ('ok', mk_mat(n, n, lambda i, j: qm(cofac(a[3], j, i) if n > 1 else QO, Q(d.d * s, d.n * s))))
    return [(p_eq(d.n), ERR), (p_ge(d.n - 1), inv(1)), (p_ge(-d.n - 1), inv(-1))]


def m_eq(c, a, b):
    if (a[1], a[2]) != (b[1], b[2]):
        return False
    q = True
    for i in range(a[1]):
        for j in range(a[2]):
            q = p_and(q, p_eq(qdiff(a[3][i][j], b[3][i][j])))
    return q


def kdet(n):
    return lambda c, a: det(a[3])


S('Matrix::from_vec Matrix::from_vec_generic', m_from_vec)
S('Matrix::from_raw', lambda c, data, cols, rows: ('mat', cint(rows), cint(cols), tuple(r[1:] for r in data[1:])))
S('Matrix::empty', lambda c: ('mat', 0, 0, ()))
S('Matrix::zeros', lambda c, cols, rows: mk_mat(cint(rows), cint(cols), lambda i, j: QZ) if cols.is_const and rows.is_const else ANY)
S('Matrix::identity', lambda c, n: mk_mat(cint(n), cint(n), lambda i, j: QO if i == j else QZ) if n.is_const else ANY)
S('Matrix::is_square', lambda c, a: a[1] == a[2])
S('Matrix::get', lambda c, a, i, j: a[3][cint(i)][cint(j)])
S('Matrix::get_mut', lambda c, a, i, j: Upd({0: a}, a[3][cint(i)][cint(j)]))
S('Matrix::add', m_add)
S('Matrix::add_mut', lambda c, a, b: Upd({0: a}, ERR) if m_add(c, a, b) is ERR else Upd({0: m_add(c, a, b)[1]}, ('ok', UNIT)))
S('Matrix::mul_k Matrix::mul_k_mut', lambda c, a, k: mk_mat(a[1], a[2], lambda i, j: qm(a[3][i][j], k)))
S('Matrix::mul', m_mul)
S('Matrix::transpose Matrix::transpose_mut', lambda c, a: mk_mat(a[2], a[1], lambda i, j: a[3][j][i]))
S('Matrix::determinant', m_det)
for n_ in (2, 3, 4):
    S('Matrix::determinant_%d_by_%d' % (n_, n_), kdet(n_))
S('Matrix::inverse', m_inv)
X_('<Matrix as Clone>::clone', lambda c, a: a)
X_('<Matrix as PartialEq>::eq', m_eq)
for n_ in ('Matrix::get', 'Matrix::get_mut', 'Matrix::from_raw'):
    NOCONTRACT.add(n_)


# --------------------------------------------------------------------- polynomials
def pcalc(cs, x):
    r = QZ
    n = len(cs)
    out = QZ
    pw = QO
    for i in range(n - 1, -1, -1):
        out = qa(out, qm(cs[i], pw))
        pw = qm(pw, x)
    return out


def pdiff(cs):
    n = len(cs)
    r = tuple(Q(x.n * (n - 1 - i), x.d) for i, x in enumerate(cs[:-1]))
    return r or (QZ,)


def p_mulk(c, a, k):
    return [(p_eq(k.n), ('pol', (QZ,))), (p_not(p_eq(k.n)), ('pol', tuple(qm(x, k) for x in a[1])))]


def p_through(conds, ok=False):
    """relation: the polynomial satisfies f^(order)(x) = y for every (order, x, y)"""
    def rel(ctx, got):
        if ok:
            if not (isinstance(got, tuple) and got[0] == 'ok'):
                return [False]
            got = got[1]
        cs = got[1]
        d1 = pdiff(cs)
        return [p_eq(qdiff(pcalc(d1 if o else cs, x), y)) for o, x, y in conds]
    return Rel(rel)


def p_newton(c, a, x, pr):
    d = pr[1][1] if pr is not NONEV else pdiff(a[1])
    f, g = pcalc(a[1], x), pcalc(d, x)
    res = lambda s: (lambda c2: qa(x, qneg(qm(f, Q(g.d * s, g.n * s)))))
    return [(p_eq(g.n), PANIC), (p_ge(g.n - 1), res(1)), (p_ge(-g.n - 1), res(-1))]


def ne(a, b):
    return p_not(p_eq(qdiff(a, b)))


def p_points(c, pts):
    pts = [(q[1], q[2]) for q in pts[1:]]
    dist = True
    for i in range(len(pts)):
        for j in range(i):
            dist = p_and(dist, ne(pts[i][0], pts[j][0]))
    if not pts:
        return ANY
    return [(dist, p_through([(0, x, y) for x, y in pts], ok=True)), (p_not(dist), ERR)]


# value only: that leading zeros are dropped is the canonical-form obligation of the body
S('Polynomial::from_vec Polynomial::from_vec_generic', lambda c, v: ('pol', tuple(v[1:]) or (QZ,), 'trim'))
S('Polynomial::to_vec', lambda c, a: ('seq',) + tuple(a[1]))
S('Polynomial::calc', lambda c, a, x: pcalc(a[1], x))
S('Polynomial::differentiate Polynomial::differentiate_mut', lambda c, a: ('pol', pdiff(a[1])))
S('Polynomial::mul_k Polynomial::mul_k_mut', p_mulk)
S('Polynomial::newton_method', p_newton)
X_('<Polynomial as Clone>::clone', lambda c, a: a)
S('linear_2_points', lambda c, a, b, v, w: [(ne(a, b), p_through([(0, a, v), (0, b, w)])), (p_not(ne(a, b)), p_through([(0, a, v), (1, a, QZ)]))])
S('quadratic_3_points', lambda c, x, y, z, u, v, w: [(p_and(p_and(ne(x, y), ne(y, z)), ne(x, z)), p_through([(0, x, u), (0, y, v), (0, z, w)])), (True, ANY)])
S('cubic_2_points', lambda c, a, b, u, v, w, z: [(ne(a, b), p_through([(0, a, u), (0, b, v), (1, a, w), (1, b, z)])), (p_not(ne(a, b)), p_through([(0, a, u), (1, a, w)]))])
S('from_points', p_points)
X_('from_points_generic::<hmath::ratio::Ratio>', p_points)
for n_ in ('linear_2_points', 'quadratic_3_points', 'cubic_2_points', 'from_points'):
    NOCONTRACT.add(n_)
