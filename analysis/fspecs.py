"""Summaries of the 192-bit floating point type.

A nonzero number is (sign, m, e): digits = sign*2^127 + m with 0 <= m < 2^127, and its value is
+-(2^127 + m) * 2^(e - EXP); zero is (0, 0)."""
from specs import *
import specs as SP

M = 1 << 127
EXP = 1 << 48
FP = 'hmath::fp192::F192'
FZ = ('seq', ZERO, ZERO)
FNAMES = set()


def F(names, fn):
    for n in names.split('|'):
        n = n.strip()
        SPECS[n] = fn
        NOCONTRACT.add(n)
        FNAMES.add(n)


def fz(a):
    return p_and(p_eq(a[1]), p_eq(a[2]))


def neg(a):
    return p_ge(a[1] - M)


def parts(fn):
    """dispatch on zero / negative / positive; fn(c, s, D, e) with s in (0, 1)"""
    def g(c, a, *r):
        return [(fz(a), lambda c2: fn(c2, None, None, None, *r)),
                (neg(a), lambda c2: fn(c2, 1, a[1], a[2], *r)),
                (True, lambda c2: fn(c2, 0, a[1] + M, a[2], *r))]
    return g


def mk(s, D, e):
    return ('seq', D - M + s * M, e)


def flat(c, r):
    return r(c) if callable(r) else r


def two(fn):
    def g(c, a, b, *r):
        def inner(c2, s, D, e):
            return parts(lambda c3, t, D2, e2: fn(c3, s, D, e, t, D2, e2, *r))(c2, b)
        return parts(inner)(c, a)
    return g


F('F192::neg', parts(lambda c, s, D, e: FZ if s is None else mk(1 - s, D, e)))
F('F192::abs', parts(lambda c, s, D, e: FZ if s is None else mk(0, D, e)))
F('F192::shl', lambda c, a, n: parts(lambda c, s, D, e: FZ if s is None else mk(s, D, e + n))(c, a))
F('F192::shr', lambda c, a, n: parts(lambda c, s, D, e: FZ if s is None else [(p_ge(n - e - 1), FZ), (p_eq(n - e), ANY), (True, mk(s, D, e - n))])(c, a))
F('F192::step_epsilon', parts(lambda c, s, D, e: ANY if s is None else [(p_eq(D - (2 * M - 1)), mk(s, P(M), e + 1)), (True, mk(s, D + 1, e))]))
F('F192::from_pow2', lambda c, n: [(p_and(p_ge(n + (1 << 45)), p_ge(P(1 << 45) - n)), ('seq', ZERO, n + (EXP - 127))), (True, ANY)])
F('<F192 as Default>::default', lambda c: FZ)
F('<F192 as Clone>::clone', lambda c, a: a)
F('<F192 as PartialEq>::eq', lambda c, a, b: p_and(p_eq(a[1] - b[1]), p_eq(a[2] - b[2])))


def _cmp(c, s, D, e, t, D2, e2):
    if s is None:
        return EQUAL if t is None else GREATER if t else LESS
    if t is None:
        return LESS if s else GREATER
    if s != t:
        return LESS if s else GREATER
    lo, hi = (GREATER, LESS) if s else (LESS, GREATER)
    return [(p_lt(e, e2), lo), (p_lt(e2, e), hi), (p_lt(D, D2), lo), (p_lt(D2, D), hi), (True, EQUAL)]


def wrapsome(r):
    if callable(r):
        return lambda c: wrapsome(r(c))
    if isinstance(r, list):
        return [(q, wrapsome(v)) for q, v in r]
    return ('some', r)


F('<F192 as Ord>::cmp', two(_cmp))
F('<F192 as PartialOrd>::partial_cmp', lambda c, a, b: wrapsome(two(_cmp)(c, a, b)))


def E_(c, e):
    """the exponent as a number, or None"""
    e = c.simp(e - EXP)
    return e.const if e.is_const else None


def _isint(c, s, D, e):
    if s is None:
        return True
    k = E_(c, e)
    if k is None:
        return [(p_ge(e - EXP), True), (p_ge(P(EXP - 128) - e), False), (True, ANY)]
    return True if k >= 0 else False if k < -127 else p_eq(c.mk_mod(D, P(1 << -k)))


F('F192::is_integer', parts(_isint))


def _trunc(c, s, D, e):
    if s is None:
        return FZ
    k = E_(c, e)
    if k is None:
        return [(p_ge(e - EXP), mk(s, D, e)), (p_ge(P(EXP - 128) - e), FZ), (True, ANY)]
    return mk(s, D, e) if k >= 0 else FZ if k < -127 else mk(s, D - c.mk_mod(D, P(1 << -k)), e)


F('F192::truncate', parts(_trunc))


def integer(s, r):
    """the result denotes (-1)^s * r"""
    def rel(ctx, got):
        gd, ge = got[1], ctx.simp(got[2] - EXP)
        zero = p_and(p_eq(got[1]), p_eq(got[2]))
        if ctx.decide(p_eq(r)) is True:
            return [zero]
        if not ge.is_const:
            return [('opq', 'exponent of the result')]
        k = ge.const
        G = gd - s * M + M
        ok = p_and(p_ge(gd - s * M), p_ge(P((s + 1) * M - 1) - gd))
        if k < -100000:
            return [p_and(p_eq(r), zero)]
        eq = p_eq(G * (1 << k) - r) if k >= 0 else p_eq(G - r * (1 << -k))
        return [p_or(p_and(p_eq(r), zero), p_and(ok, eq))]
    return Rel(rel)


def _round(mode):
    def fn(c, s, D, e):
        if s is None:
            return FZ
        k = E_(c, e)
        one = mk(s, P(M), P(EXP - 127))
        if k is None:
            small = FZ if (mode == 'floor' and not s) or (mode == 'ceil' and s) or mode == 'round' else one
            return [(p_ge(e - EXP), mk(s, D, e)), (p_ge(P(EXP - 129) - e), small), (True, ANY)]
        if k >= 0:
            return mk(s, D, e)
        w = P(1 << -k)
        if mode == 'round':
            r = c.mk_div(D * 2 + w, w * 2)
        elif (mode == 'floor') == (s == 1):
            r = c.mk_div(D + w - 1, w)
        else:
            r = c.mk_div(D, w)
        return integer(s, r)
    return fn


F('F192::floor', parts(_round('floor')))
F('F192::ceil', parts(_round('ceil')))
F('F192::round', parts(_round('round')))


# ------------------------------------------------------------ conversions
def _fromint(c, n):
    """cells fix the bit length of n"""
    def go(c2, s, a):
        lo, hi = c2.range(a)
        if lo >= 1 and hi < INF and int(lo).bit_length() == int(hi).bit_length():
            k = int(lo).bit_length()
            return mk(s, a * (1 << (128 - k)), P(EXP - 128 + k))
        return ANY
    return [(p_eq(n), FZ), (p_ge(n - 1), lambda c2: go(c2, 0, n)), (True, lambda c2: go(c2, 1, -n))]


INTS = {}
for b_ in (8, 16, 32, 64, 128):
    INTS['u%d' % b_] = (0, (1 << b_) - 1)
    INTS['i%d' % b_] = (-(1 << (b_ - 1)), (1 << (b_ - 1)) - 1)
INTS['usize'], INTS['isize'] = INTS['u64'], INTS['i64']


def _toint(lo, hi):
    def fn(c, s, D, e):
        if s is None:
            return ('ok', ZERO)
        k = E_(c, e)
        if k is None:
            if s and lo == 0:
                return ERR
            return [(p_ge(e - EXP - 1), ERR), (p_ge(P(EXP - 128) - e), ('ok', ZERO)), (True, ANY)]
        if s and lo == 0:
            return ERR
        if k > 0:
            # 2^127 * 2 and more, except -2^127 itself, which has exponent 0 or less
            return ERR
        v = c.mk_div(D, P(1 << -k)) if k > -128 else ZERO
        v = -v if s else v
        return [(p_and(p_ge(v - lo), p_ge(P(hi) - v)), ('ok', v)), (True, ERR)]
    return parts(fn)


for t_, (lo_, hi_) in INTS.items():
    F('<F192 as From<%s>>::from' % t_, _fromint)
    F('<%s as TryFrom<F192>>::try_from' % t_, _toint(lo_, hi_))


def _toratio(c, s, D, e):
    if s is None:
        return Q(ZERO, ONE)
    k = E_(c, e)
    if k is None:
        return ANY
    n = -D if s else D
    return Q(n * (1 << k), ONE) if k >= 0 else Q(n, P(1 << -k))


F('<Ratio as From<&F192>>::from|<Ratio as From<F192>>::from', parts(_toratio))


# --------------------------------------------------------------- accuracy
def near(s, base, X, den, ulps, up=False):
    """|result| = G*2^(ge - base) is within `ulps` units in the last place of X/den, and has sign s"""
    def rel(ctx, got):
        gd, ge = got[1], ctx.simp(got[2] - base)
        if not ge.is_const:
            return [('opq', 'exponent of the result')]
        G = gd - s * M + M
        t = ge.const
        ok = p_and(p_ge(gd - s * M), p_ge(P((s + 1) * M - 1) - gd))
        if t > 4000 or t < -4000:
            return [False]
        if t >= 0:
            g, u, x = G * den * (1 << t), den * (1 << t) * ulps, X
        else:
            g, u, x = G * den, den * ulps, X * (1 << -t)
        return [ok, p_ge(g - x + u), p_ge(x - g + u)]
    return Rel(rel)


def _add(c, s, D, e, t, D2, e2):
    if s is None:
        return FZ if t is None else mk(t, D2, e2)
    if t is None:
        return mk(s, D, e)
    d = c.simp(e - e2)
    if s != t or not d.is_const:
        if s == t:
            return [(p_ge(e - e2 - 129), mk(s, D, e)), (p_ge(e2 - e - 129), mk(s, D2, e2)), (True, ANY)]
        return ANY
    d = d.const
    if d >= 0:
        return near(s, e2, D * (1 << d) + D2, ONE, 1)
    return near(s, e, D + D2 * (1 << -d), ONE, 1)


F('F192::add', two(_add))


def _mul(c, s, D, e, t, D2, e2):
    if s is None or t is None:
        return FZ
    return near(s ^ t, e + e2 - EXP, D * D2, ONE, 8)


F('F192::mul', two(_mul))


def _muli(c, s, D, e, n):
    if s is None:
        return FZ
    return [(p_eq(n), FZ), (p_ge(n - 1), lambda c2: near(s, e, D * n, ONE, 2)), (True, lambda c2: near(1 - s, e, D * -n, ONE, 2))]


def _divi(c, s, D, e, n):
    if s is None:
        return [(p_eq(n), PANIC), (True, FZ)]
    return [(p_eq(n), PANIC), (p_ge(n - 1), lambda c2: near(s, e, D, n, 2)), (True, lambda c2: near(1 - s, e, D, -n, 2))]


F('F192::mul_i32', lambda c, a, n: parts(lambda c, s, D, e: _muli(c, s, D, e, n))(c, a))
F('F192::div_i32', lambda c, a, n: parts(lambda c, s, D, e: _divi(c, s, D, e, n))(c, a))


def _fromratio(c, x):
    """cells fix the binary magnitude"""
    def go(c2, s, n):
        return near(s, P(EXP), n, x.d, 1)
    return [(p_eq(x.n), FZ), (p_ge(x.n - 1), lambda c2: go(c2, 0, x.n)), (True, lambda c2: go(c2, 1, -x.n))]


F('<F192 as From<&Ratio>>::from|<F192 as From<Ratio>>::from', _fromratio)


def _sub(c, s, D, e, t, D2, e2):
    if t is None:
        return FZ if s is None else mk(s, D, e)
    if s is None:
        return mk(1 - t, D2, e2)
    if s != t:
        return _add(c, s, D, e, s, D2, e2)
    d = c.simp(e - e2)
    if not d.is_const:
        return ANY
    d = d.const
    x, base = (D * (1 << d) - D2, e2) if d >= 0 else (D - D2 * (1 << -d), e)
    return [(p_eq(x), FZ), (p_ge(x - 1), near(s, base, x, ONE, 1)), (True, near(1 - s, base, -x, ONE, 1))]


F('F192::sub', two(_sub))


def _frac(c, s, D, e):
    if s is None:
        return FZ
    k = E_(c, e)
    if k is None:
        return [(p_ge(e - EXP), FZ), (p_ge(P(EXP - 128) - e), mk(s, D, e)), (True, ANY)]
    if k >= 0:
        return FZ
    if k < -127:
        return mk(s, D, e)
    r = c.mk_mod(D, P(1 << -k))
    return [(p_eq(r), FZ), (True, near(s, e, r, ONE, 0))]


F('F192::frac', parts(_frac))


def _ilog2(c, s, D, e):
    if s is None or s:
        return PANIC
    k = E_(c, e)
    if k is None:
        return ANY
    k += 127
    return integer(int(k < 0), P(abs(k)))


F('F192::ilog2', parts(_ilog2))


# ---------------------------------------------------------------- IEEE 754
IEEE = {32: (23, 8), 64: (52, 11)}


def fields(c, b):
    m, eb = IEEE[b.w]
    s = c.mk_div(b.p, P(1 << (b.w - 1)))
    E = c.mk_mod(c.mk_div(b.p, P(1 << m)), P(1 << eb))
    f = c.mk_mod(b.p, P(1 << m))
    return c.simp(s), c.simp(E), c.simp(f), m, (1 << eb) - 1, (1 << (eb - 1)) - 1


def decoded(fn):
    """fn(c, sign, D, k): the float is (-1)^sign * D * 2^k; None for zero"""
    def g(c, b):
        s, E, f, m, top, bias = fields(c, b)
        if not s.is_const or not E.is_const:
            return ANY
        s, E = s.const, E.const
        if E == top:
            return ERR
        if E:
            return fn(c, s, f + (1 << m), E - bias - m, m)
        return [(p_eq(f), lambda c2: fn(c2, None, None, None, m)), (True, lambda c2: fn(c2, s, f, 1 - bias - m, m))]
    return g


def blen(c, D):
    lo, hi = c.range(D)
    if lo >= 1 and hi < INF and int(lo).bit_length() == int(hi).bit_length():
        return int(lo).bit_length()
    return None


def _inspect(c, s, D, k, m):
    if s is None:
        return ('ok', ('seq', False, P(-(1 << 31)), ZERO))
    j = blen(c, D)
    if j is None:
        return ANY
    return ('ok', ('seq', bool(s), P(j - 1 + k), D * (1 << (m + 1 - j)) - (1 << m)))


def _f2ratio(c, s, D, k, m):
    if s is None:
        return ('ok', Q(ZERO, ONE))
    n = -D if s else D
    return ('ok', Q(n * (1 << k), ONE) if k >= 0 else Q(n, P(1 << -k)))


def _f2fp(c, s, D, k, m):
    if s is None:
        return ('ok', FZ)
    j = blen(c, D)
    if j is None:
        return ANY
    return ('ok', mk(s, D * (1 << (128 - j)), P(EXP + k - (128 - j))))


def _fp2f(w):
    m, eb = IEEE[w]
    bias = (1 << (eb - 1)) - 1
    top = (1 << eb) - 1
    from engine import Bits

    def fn(c, s, D, e):
        if s is None:
            return Bits(ZERO, w)
        k = E_(c, e)
        if k is None:
            return [(p_ge(P(EXP - bias - 127 - 2) - e), Bits(ZERO, w)), (p_ge(e - (EXP + bias - 126)), Bits(P((s << (w - 1)) + (top << m)), w)), (True, ANY)]
        sh = 127 - m
        q = c.mk_div(D + (1 << (sh - 1)), P(1 << sh))
        mag = q + (k + 127 + bias - 1) * (1 << m)
        return [(p_ge(mag - (top << m)), Bits(P((s << (w - 1)) + (top << m)), w)),
                (p_ge(P((1 << m) - 1) - mag), Bits(ZERO, w)),
                (True, Bits(mag + (s << (w - 1)), w))]
    return parts(fn)


for w_ in (32, 64):
    F('inspect_ieee754_f%d' % w_, decoded(_inspect))
    F('Ratio::from_ieee754_f%d|<Ratio as TryFrom<f%d>>::try_from' % (w_, w_), decoded(_f2ratio))
    F('<F192 as TryFrom<f%d>>::try_from' % w_, decoded(_f2fp))
    F('<f%d as From<F192>>::from' % w_, _fp2f(w_))


def _q2f(w):
    """the nearest float in the normal range, one of the two floats around the number among the denormals;
    zero below half the smallest denormal, an error where the number rounds beyond the largest"""
    m, eb = IEEE[w]
    bias = (1 << (eb - 1)) - 1
    top = (1 << eb) - 1
    from engine import Bits

    def near_float(s, n, d):
        def rel(ctx, got):
            big = p_ge(n - d * (((1 << (m + 1)) - 1) << (bias - m)))
            if got is ERR:
                return [big]
            if not (isinstance(got, tuple) and got[0] == 'ok' and isinstance(got[1], Bits)):
                return [('opq', 'result')]
            p = ctx.simp(got[1].p)
            if p.is_const and p.const == 0:
                return [p_ge(d - n * (1 << (bias + m - 1)))]
            p = ctx.simp(p - (s << (w - 1)))
            lo, hi = ctx.range(p)
            if 0 <= lo and hi < 2 << m:
                # denormals and the first binade share their unit
                k = bias + m - 1
                q = ctx.mk_div(n * (1 << k), d)
                import expr as X
                sc = max([1] + [X.atom_by_id(a).args[1].const for a in p.atoms() if X.atom_by_id(a).kind == 'div' and X.atom_by_id(a).args[1].is_const])
                return [p_ge((p - q) * sc), p_ge((q + 1 - p) * sc)]
            E = ctx.simp(ctx.mk_div(p, P(1 << m)))
            f = ctx.simp(p - E * (1 << m))
            if not E.is_const:
                return [('opq', 'exponent of the result')]
            E = E.const
            if E < 0 or E >= top:
                return [False]
            D = f + (1 << m) if E else f
            k = max(E, 1) - bias - m
            x, y = (n, D * (1 << k)) if k >= 0 else (n * (1 << -k), D)
            u = d * (1 << k) if k >= 0 else d
            # |x/d - y| at most half a unit
            return [p_ge((x - y * d) * 2 + u), p_ge((y * d - x) * 2 + u)]
        return Rel(rel)

    def g(c, q):
        return [(p_eq(q.n), ('ok', Bits(ZERO, w))), (p_ge(q.n - 1), lambda c2: near_float(0, q.n, q.d)), (True, lambda c2: near_float(1, -q.n, q.d))]
    return g


for w_ in (32, 64):
    F('Ratio::to_ieee754_f%d|<f%d as TryFrom<Ratio>>::try_from|<f%d as TryFrom<&Ratio>>::try_from' % (w_, w_, w_), _q2f(w_))


def _f2int(unsigned):
    def fn(c, s, D, k, m):
        if s is None:
            return ('ok', ZERO)
        v = D * (1 << k) if k >= 0 else c.mk_div(D, P(1 << -k))
        if s:
            return [(p_eq(v), ('ok', ZERO)), (True, ERR)] if unsigned else ('ok', -v)
        return ('ok', v)
    return fn


for w_ in (32, 64):
    F('<Ratio as TryFrom<&f%d>>::try_from' % w_, decoded(_f2ratio))
    F('<BigInt as TryFrom<f%d>>::try_from|<BigInt as TryFrom<&f%d>>::try_from' % (w_, w_), decoded(_f2int(False)))
    F('<UBigInt as TryFrom<f%d>>::try_from|<UBigInt as TryFrom<&f%d>>::try_from' % (w_, w_), decoded(_f2int(True)))
    F('<f%d as TryFrom<BigInt>>::try_from|<f%d as TryFrom<&BigInt>>::try_from|<f%d as TryFrom<&UBigInt>>::try_from' % (w_, w_, w_), lambda c, n, w=w_: _q2f(w)(c, Q(n, ONE)))
