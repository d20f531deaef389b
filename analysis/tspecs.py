"""Summaries of the conversions from and to text.

A text is a tuple of pieces (see text.py).  The reference reader below is the grammar the
crate documents; a text it does not settle is left unconstrained."""
from specs import *
import text

TNAMES = set()
RADIX = {'dec': (10, ''), 'hex': (16, '0x'), 'oct': (8, '0o'), 'bin': (2, '0b')}


def T(names, fn):
    for n in names.split('|'):
        n = n.strip()
        SPECS[n] = fn
        NOCONTRACT.add(n)
        TNAMES.add(n)


# ------------------------------------------------------------------ writing
def shown(sign, how, v, prefix):
    r, pre = RADIX[how]

    def txt(p, neg):
        return ('txt',) + (('-',) if neg else ()) + ((pre,) if p and pre else ()) + (('n', -v if neg else v, r, 0),)
    if not sign:
        return [(prefix, txt(True, False)), (True, txt(False, False))]
    return [(p_and(prefix, p_ge(v)), txt(True, False)), (prefix, txt(True, True)), (p_ge(v), txt(False, False)), (True, txt(False, True))]


for ty, sg in (('UBigInt', False), ('BigInt', True)):
    T('%s::to_string_dec' % ty, lambda c, a, sg=sg: shown(sg, 'dec', a, False))
    for h in ('hex', 'oct', 'bin'):
        T('%s::to_string_%s' % (ty, h), lambda c, a, p, sg=sg, h=h: shown(sg, h, a, p))

    def fm(how, sg):
        return lambda c, a, f: [(q, Upd({1: t}, ('ok', UNIT))) for q, t in shown(sg, how, a, f if how != 'dec' else False)]
    for tr, h in (('Display', 'dec'), ('LowerHex', 'hex'), ('Octal', 'oct'), ('Binary', 'bin')):
        T('<%s as %s>::fmt' % (ty, tr), fm(h, sg))


def _ratio(c, a):
    n = lambda s: ('txt',) + (('-', ('n', -a.n, 10, 0)) if s else (('n', a.n, 10, 0),))
    d = ('/', ('n', a.d, 10, 0))
    one = p_eq(a.d - 1)
    return [(p_and(one, p_ge(a.n)), n(0)), (one, n(1)), (p_ge(a.n), n(0) + d), (True, n(1) + d)]


T('Ratio::to_ratio_string', _ratio)


# ------------------------------------------------------------------ reading
MEAN = set(map(ord, '0123456789abcdefABCDEFxXoO_-.+'))


class Unsettled(Exception):
    pass


class Bad(Exception):
    pass


def cls(c, p):
    """a character as ('lit', chr) or ('dig', value, least radix) or ('other',)"""
    if p.is_const:
        return ('lit', chr(int(p.const)))
    lo, hi = c.range(p)
    if 48 <= lo and hi <= 57:
        return ('dig', p - 48, 10 if lo <= 57 and hi > 55 else hi - 47, lo > 48)
    if 97 <= lo and hi <= 102:
        return ('dig', p - 87, 16, True)
    if 65 <= lo and hi <= 70:
        return ('dig', p - 55, 16, True)
    if not any(lo <= m <= hi for m in MEAN):
        return ('other',)
    raise Unsettled()


def digit(k, radix):
    """value of the character in the radix, None if it is not a digit"""
    if k[0] == 'lit':
        d = '0123456789abcdef'.find(k[1].lower())
        return P(d) if 0 <= d < radix else None
    if k[0] == 'dig':
        lo, hi = k[1], k[2]
        if k[2] <= radix:
            return k[1]
        if radix < k[2] == 16 and radix <= 10:
            return None
        raise Unsettled()
    return None


def read_nat(ks):
    if not ks:
        raise Bad()
    if ks[0] == ('lit', '0'):
        rest = ks[1:]
        if not rest:
            return ZERO
        h = rest[0]
        if h[0] == 'lit' and h[1] in 'xXoObB':
            radix = {'x': 16, 'o': 8, 'b': 2}[h[1].lower()]
            return run(rest[1:], radix, True)
        if all(k == ('lit', '_') for k in rest):
            return ZERO
        if ('lit', '_') in rest[:1]:
            raise Unsettled()
        raise Bad()
    d = digit(ks[0], 10)
    if d is None:
        raise Bad()
    if ks[0][0] == 'dig' and not ks[0][3]:
        raise Unsettled()
    return run(ks, 10, False)


def run(ks, radix, prefixed):
    acc, seen = ZERO, False
    for k in ks:
        if k == ('lit', '_'):
            continue
        d = digit(k, radix)
        if d is None:
            raise Bad()
        acc, seen = acc * radix + d, True
    if not seen:
        if ks:
            raise Unsettled()       # "0x_"
        raise Bad()
    return acc


def read_int(ks):
    if ks and ks[0] == ('lit', '-'):
        return -read_nat(ks[1:])
    return read_nat(ks)


def read_ratio(ks):
    if not ks:
        raise Bad()
    body = ks[1:] if ks[0] == ('lit', '-') else ks
    if len(body) > 1 and body[0] == ('lit', '0') and body[1][0] == 'lit' and body[1][1] in 'xX':
        if any(k == ('lit', '.') for k in ks):
            raise Bad()
        return read_int(ks), 1
    es = [i for i, k in enumerate(ks) if k[0] == 'lit' and k[1] in 'eE']
    ds = [i for i, k in enumerate(ks) if k == ('lit', '.')]
    if any(k[0] == 'dig' and k[2] == 16 for k in ks):
        raise Unsettled()
    if not es and not ds:
        return read_int(ks), 1
    if len(body) > 1 and body[0] == ('lit', '0') and body[1][0] == 'lit' and body[1][1] in 'oObB':
        raise Bad()
    if len(es) > 1 or len(ds) > 1 or (es and ds and ds[0] > es[0]):
        raise Bad()
    if len(body) > 1 and body[0] == ('lit', '0') and body[1] == ('lit', '_'):
        raise Unsettled()
    end = es[0] if es else len(ks)
    ip = ks[:ds[0]] if ds else ks[:end]
    if not ip or ip == [('lit', '-')]:
        if not ds or ds[0] + 1 == end:
            raise Bad()
        raise Unsettled()            # ".5"
    n, d = read_int(ip), 1
    neg = ks[0] == ('lit', '-')
    for k in ks[ds[0] + 1:end] if ds else []:
        if k == ('lit', '_'):
            continue
        x = digit(k, 10)
        if x is None:
            raise Bad()
        n, d = n * 10 + (-x if neg else x), d * 10
    if es:
        x = read_int(ks[end + 1:])
        if not x.is_const:
            raise Unsettled()
        if abs(x.const) >= 1 << 31:
            return ERR if abs(x.const) > 1 << 31 else None
        if abs(x.const) > 4000:
            raise Unsettled()
        if x.const >= 0:
            n = n * 10 ** int(x.const)
        else:
            d = d * 10 ** int(-x.const)
    return n, d


class _St:
    def __init__(self, ctx):
        self.ctx = ctx


def reader(fn, wrap):
    def spec(c, a):
        if not (isinstance(a, tuple) and a and a[0] == 'txt'):
            return ANY
        cs = text.chars(_St(c), a[1:])
        if cs is None:
            return ANY
        try:
            r = fn([cls(c, x) for x in cs])
        except Unsettled:
            return ANY
        except Bad:
            return ERR
        return r if r is ERR else ANY if r is None else ('ok', wrap(r))
    return spec


for ty, fn, wrap in (('UBigInt', read_nat, lambda r: r), ('BigInt', read_int, lambda r: r), ('Ratio', read_ratio, lambda r: Q(r[0], P(r[1])))):
    T('%s::from_string | <%s as FromStr>::from_str | <%s as TryFrom<&str>>::try_from | <%s as TryFrom<String>>::try_from' % (ty, ty, ty, ty), reader(fn, wrap))
