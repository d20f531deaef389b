"""Partition cells for the 192-bit floating point type: sign, exponent class, binary magnitude."""
import re
import fspecs as FS
from expr import P, INF, ZERO
import engine as EN

M, EXP, FZ = FS.M, FS.EXP, FS.FZ
WIDE = (-(1 << 40), 1 << 40)


def num(v, st, name, s, e, split=None):
    """one nonzero number; e relative to EXP_COEFF: an int, a (lo, hi) pair, or a polynomial"""
    if s is None:
        return FZ
    if split:
        h = v.sym(st, name + 'h', 1 << (127 - split), (1 << (128 - split)) - 1)
        l = v.sym(st, name + 'l', 0, (1 << split) - 1)
        d = h * (1 << split) + l - M
    else:
        d = v.sym(st, name + 'm', 0, M - 1)
    if isinstance(e, tuple):
        e = v.sym(st, name + 'e', EXP + e[0], EXP + e[1])
    elif isinstance(e, int):
        e = P(EXP + e)
    return ('seq', d + s * M, e)


def one(s, e, split=None, rest=()):
    def given(v, st):
        return [num(v, st, 'a', s, e, split)] + [r(v, st) if callable(r) else r for r in rest]
    return given


def pair(s, t, d, split=None):
    """two numbers whose exponents differ by d (None: unrelated)"""
    def given(v, st):
        if d is None:
            return [num(v, st, 'a', s, WIDE, split), num(v, st, 'b', t, WIDE, split)]
        b = num(v, st, 'b', t, WIDE, split)
        if isinstance(d, int):
            ee = b[2] + d
        else:
            ee = b[2] + v.sym(st, 'g', d[0], d[1])
        a = num(v, st, 'a', s, ee, split)
        return [a, b]
    return given


def pair2(s, t, e, e2):
    return lambda v, st: [num(v, st, 'a', s, e), num(v, st, 'b', t, e2)]


def rng(lo, hi, name='n'):
    return lambda v, st: P(lo) if lo == hi else v.sym(st, name, lo, hi)


def ratio(s, k):
    """a rational in [2^k, 2^(k+1)), or its negative"""
    def given(v, st):
        d = v.sym(st, 'd', 1, INF)
        r = v.sym(st, 'r', 0, INF)
        n = d * (1 << k) + r if k >= 0 else None
        if k >= 0:
            n = d * (1 << k) + r
            st.ctx.assume(EN.p_ge(d * (1 << k) - 1 - r))
        else:
            n = v.sym(st, 'n', 1, INF)
            st.ctx.assume(EN.p_ge(n * (1 << -k) - d))
            st.ctx.assume(EN.p_ge(d * 2 - 1 - n * (1 << -k)))
        return [EN.Q(-n if s else n, d)]
    return given


def bits(w, s, E, flo, fhi):
    def given(v, st):
        m = FS.IEEE[w][0]
        f = P(flo) if flo == fhi else v.sym(st, 'f', flo, fhi)
        return [EN.Bits(f + (s << (w - 1)) + (E << m), w)]
    return given


def ratio2(s, a, b):
    """numerator of a+1 bits, denominator of b+1 bits"""
    def given(v, st):
        n = v.sym(st, 'n', 1 << a, (1 << (a + 1)) - 1) if a else P(1)
        d = v.sym(st, 'd', 1 << b, (1 << (b + 1)) - 1) if b else P(1)
        if b and a:
            st.ctx.assume(EN.p_eq(st.ctx.mk_gcd(n, d) - 1))
            st.ctx.cop = st.ctx.cop + [(n, d)]
        return [EN.Q(-n if s else n, d)]
    return given


ALLK = list(range(-131, 3))
FEWK = [-200, -131, -130, -129, -128, -127, -126, -125, -100, -65, -64, -63, -33, -32, -31, -8, -2, -1, 0, 1, 2, 40]


def cells(fn, tier, mined=()):
    """-> [(tag, given)]; mined: integer constants of the body, exponents around them get their own cells"""
    mined = sorted(c for c in mined if 1 < c < 5000)
    about = sorted(set(c + d for x in mined for c in (x, -x) for d in (-2, -1, 0, 1, 2)))
    th = tier == 'thorough'
    out = []

    def add(tag, g):
        out.append((tag, g))
    near = [c for c in about if -200 <= c <= 200]
    short = fn.split('::')[-1]
    if fn in ('<F192 as Default>::default',):
        return [('', lambda v, st: [])]
    if fn in ('F192::neg', 'F192::abs', 'F192::step_epsilon', '<F192 as Clone>::clone'):
        add('zero', one(None, None))
        for s in (0, 1):
            add('sign %d' % s, one(s, WIDE))
    elif fn in ('F192::shl', 'F192::shr'):
        for s in (None, 0, 1):
            add('sign %s' % s, one(s, WIDE, rest=[rng(0, 1 << 40)]))
            add('sign %s, any amount' % s, one(s, WIDE, rest=[rng(0, (1 << 62))]))
    elif fn == 'F192::from_pow2':
        add('', lambda v, st: [v.sym(st, 'n', -(1 << 45), 1 << 45)])
    elif fn in ('<F192 as Ord>::cmp', '<F192 as PartialOrd>::partial_cmp', '<F192 as PartialEq>::eq'):
        for s in (None, 0, 1):
            for t in (None, 0, 1):
                add('signs %s %s' % (s, t), pair(s, t, None))
                if s is not None and t is not None:
                    add('signs %s %s, same exponent' % (s, t), pair(s, t, 0))
    elif fn in ('F192::is_integer', 'F192::truncate', 'F192::floor', 'F192::ceil', 'F192::round', 'F192::frac'):
        add('zero', one(None, None))
        for s in (0, 1):
            for k in (sorted(set(FEWK + near)) if fn in ('F192::round', 'F192::frac') and not th else ALLK):
                add('sign %d exponent %d' % (s, k), one(s, k))
            add('sign %d large' % s, one(s, (0, 1 << 40)))
            add('sign %d tiny' % s, one(s, (-(1 << 40), -129)))
    elif 'ieee754' in fn and not 'to_ieee' in fn or re.search(r'TryFrom<&?f\d\d>', fn):
        w = 32 if 'f32' in fn else 64
        m, eb = FS.IEEE[w]
        top = (1 << eb) - 1
        bias = top >> 1
        full = (1 << m) - 1
        es = set(range(1, 8)) | set(range(900, 1150, 7)) | set(range(1016, 1082)) | set(range(top - 8, top)) | {512, 1536} | set(about) | set(bias + c for c in about)
        core = fn.startswith('inspect') or fn.startswith('Ratio::') or fn.startswith('<F192')
        es = range(1, top) if th or w == 32 or core else sorted(e for e in es if 1 <= e < top)
        for s in (0, 1):
            add('sign %d zero' % s, bits(w, s, 0, 0, 0))
            for j in range(1, m + 1):
                add('sign %d denormal of %d bits' % (s, j), bits(w, s, 0, 1 << (j - 1), (1 << j) - 1))
            for e in es:
                add('sign %d exponent %d' % (s, e), bits(w, s, e, 0, full))
            add('sign %d infinity' % s, bits(w, s, top, 0, 0))
            add('sign %d NaN' % s, bits(w, s, top, 1, full))
    elif re.match(r'<f\d\d as From<F192', fn):
        w = 32 if 'f32' in fn else 64
        bias = (1 << (FS.IEEE[w][1] - 1)) - 1
        add('zero', one(None, None))
        for s in (0, 1):
            ks = range(-bias - 131, bias - 122)
            for k in ks:
                add('sign %d exponent %d' % (s, k), one(s, k))
            add('sign %d tiny' % s, one(s, (-(1 << 40), -bias - 130)))
            add('sign %d huge' % s, one(s, (bias - 125, 1 << 40)))
    elif 'to_ieee754' in fn or re.match(r'<f\d\d as TryFrom<', fn):
        w = 32 if 'f32' in fn else 64
        m, eb = FS.IEEE[w]
        bias = (1 << (eb - 1)) - 1
        if 'BigInt' in fn:
            add('zero', lambda v, st: [ZERO])
            for s in (0,) if 'UBigInt' in fn else (0, 1):
                for k in sorted(set(list(range(0, 3 * m)) + [bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + 60, bias + 700] + [c for c in about if 0 <= c < 2 * bias])):
                    add('sign %d, %d bits' % (s, k + 1), lambda v, st, k=k, s=s: [(-1 if s else 1) * rng(1 << k, (1 << (k + 1)) - 1)(v, st)])
            return out
        add('zero', lambda v, st: [EN.Q(ZERO, P(1))])
        for s in (0, 1):
            far = [-bias - m - x for x in (12, 40, 41, 62, 63, 64, 65, 66, 80, 128, 129, 600)]
            near = [-bias - m - 3, -bias - m - 2, -bias - m - 1, -bias - m, -bias - 5, -bias - 2, -bias - 1, -bias, 1 - bias, 2 - bias, -60, -4, -3, -2, -1, 0, 1, 2, 3, 4, m - 1, m, m + 1, 70, bias - 1, bias, bias + 1, bias + 2, bias + 40, bias + 700]
            wide = list(range(-bias - m - 4, bias + 3, 1 if th or w == 32 else 29))
            for k in sorted(set(far + near + wide + [c for c in about + [x - bias for x in about] + [-bias - m + x for x in about] if -bias - m - 700 < c < bias + 700])):
                if k not in far and k not in near and not (th or (k + s) % 2 == 0 or k in about):
                    continue
                for b in (0, 5, 40) if th else (0, 20):
                    if k + b >= 0:
                        add('sign %d bits %d/%d' % (s, k + b, b), ratio2(s, k + b, b))
                if k < 0:
                    add('sign %d bits 3/%d' % (s, 3 - k), ratio2(s, 3, 3 - k))
                    add('sign %d bits 40/%d' % (s, 40 - k), ratio2(s, 40, 40 - k))
    elif fn.startswith('<F192 as From<') and 'Ratio' not in fn:
        t = fn[len('<F192 as From<'):-len('>>::from')]
        lo, hi = FS.INTS[t]
        add('zero', lambda v, st: [ZERO])
        for k in range(1, hi.bit_length() + 1):
            add('%d bits' % k, lambda v, st, k=k: [rng(1 << (k - 1), (1 << k) - 1)(v, st)])
            if lo:
                add('%d bits, negative' % k, lambda v, st, k=k: [-rng(1 << (k - 1), (1 << k) - 1)(v, st)])
        if lo:
            add('minimum', lambda v, st: [P(lo)])
    elif 'TryFrom<F192>' in fn:
        t = fn[1:fn.index(' ')]
        lo, hi = FS.INTS[t]
        b = hi.bit_length()
        ks = ALLK if th else sorted(set(FEWK + [b - 128 + d for d in range(-3, 4)] + near))
        add('zero', one(None, None))
        for s in (0, 1):
            for k in ks:
                add('sign %d exponent %d' % (s, k), one(s, k))
            add('sign %d tiny' % s, one(s, (-(1 << 40), -129)))
            add('sign %d large' % s, one(s, (1, 1 << 40)))
    elif fn.startswith('<Ratio as From<'):
        add('zero', one(None, None))
        for s in (0, 1):
            for k in (ALLK if th else sorted(set(FEWK + near))):
                add('sign %d exponent %d' % (s, k), one(s, k))
    elif fn == 'F192::add':
        for s in (None, 0, 1):
            add('zero, sign %s' % s, pair(None, s, None))
            add('sign %s, zero' % s, pair(s, None, None))
        ds = list(range(-129, 130)) if th else [0, 1, 2, 3, 31, 63, 64, 65, 100, 112, 125, 126, 127, 128, 129] + near
        for s in (0, 1):
            for d in sorted(set(ds + [-x for x in ds])):
                add('sign %d, exponents differ by %d' % (s, d), pair(s, s, d))
            add('sign %d, left much larger' % s, pair(s, s, (129, 1 << 40)))
            add('sign %d, right much larger' % s, pair(s, s, (-(1 << 40), -129)))
    elif fn == 'F192::ilog2':
        add('zero', one(None, None))
        add('negative', one(1, WIDE))
        for k in FEWK + [-(1 << 40), -100000, -1152, -1000, 1000, 99999, 1 << 31, (1 << 40) + 1]:
            add('exponent %d' % k, one(0, k))
    elif fn == 'F192::sub':
        for s in (None, 0, 1):
            add('zero, sign %s' % s, pair(None, s, None))
            add('sign %s, zero' % s, pair(s, None, None))
        ds = [0, 1, 2, 3, 31, 64, 100, 126, 127, 128, 129] + [c for c in near if abs(c) < 130]
        for s in (0, 1):
            for d in sorted(set(ds + [-x for x in ds])):
                if th or d in (0, 1, -1, 3, 64, -126, 127, 128, -129) or d in near:
                    add('signs %d %d, exponents differ by %d' % (s, 1 - s, d), pair(s, 1 - s, d))
            for e in (0, -127, -200, 5) if th else (0, -127):
                for d in (0, 1, -1, 2, -2, 63, -100, 127, -127, 128, 129, -130) if th else (0, 1, -2, 64, -127, 128):
                    add('sign %d, exponents %d %d' % (s, e + d, e), pair2(s, s, e + d, e))
    elif fn == 'F192::mul':
        for s in (None, 0, 1):
            for t in (None, 0, 1):
                add('signs %s %s' % (s, t), pair(s, t, None, 64))
    elif fn in ('F192::mul_i32', 'F192::div_i32'):
        sp = 32 if 'mul' in fn else None
        for s in (None, 0, 1):
            add('sign %s by zero' % s, one(s, WIDE, sp, [ZERO]))
            add('sign %s by the minimum' % s, one(s, WIDE, sp, [P(-(1 << 31))]))
            for j in range(1, 32):
                if s is None and j > 3:
                    continue
                add('sign %s by %d bits' % (s, j), one(s, WIDE, sp, [rng(1 << (j - 1), (1 << j) - 1)]))
                add('sign %s by -%d bits' % (s, j), one(s, WIDE, sp, [lambda v, st, j=j: -rng(1 << (j - 1), (1 << j) - 1)(v, st)]))
    elif fn.startswith('<F192 as From<'):
        add('zero', lambda v, st: [EN.Q(ZERO, P(1))])
        for s in (0, 1):
            for k in sorted(set((-70, -3, 0, 1, 60) if th else ()) | set(range(121, 132)) | set(c for c in near if c > 100)):
                add('sign %d magnitude 2^%d' % (s, k), ratio(s, k))
    return out


def weight(fn, tag):
    if fn in ('F192::sub', 'F192::round', 'F192::frac'):
        return 30 if fn == 'F192::sub' else 10
    return 1
