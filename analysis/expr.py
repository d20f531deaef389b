"""Algebraic normal-form domain.

Every integer quantity the analyser tracks is an element of Z[atoms]: a sparse
multivariate polynomial over interned atoms.  Atoms are either input symbols
(with an interval) or uninterpreted-but-evaluable applications (floor division,
gcd, powers, limb counts, bit operations) of normal forms.  Two program values
with the same normal form are equal for every input (value numbering); the
domain never calls a solver.
"""
from fractions import Fraction
from math import gcd as _gcd, isqrt as _isqrt

INF = float('inf')


class Atom:
    __slots__ = ('kind', 'args', 'id', 'lo', 'hi')

    def __repr__(self):
        return atom_str(self)


_atoms = []
_intern = {}


def atom(kind, args, lo=-INF, hi=INF):
    key = (kind, args)
    a = _intern.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.lo, a.hi = kind, args, lo, hi
        a.id = len(_atoms)
        _atoms.append(a)
        _intern[key] = a
    return a


def atom_by_id(i):
    return _atoms[i]


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if len(o.t) == 1 and () in o.t:
            k = o.t[()]
            return Poly({m: c * k for m, c in self.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, k):
        r = ONE
        b = self
        while k:
            if k & 1:
                r = r * b
            b = b * b
            k >>= 1
        return r

    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    @property
    def const(self):
        return self.t.get((), 0)

    def nonconst(self):
        if () not in self.t:
            return self
        return Poly({m: c for m, c in self.t.items() if m != ()})

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def has_div(self):
        return any(atom_by_id(a).kind == 'div' for m in self.t for a, _ in m)

    def single_div(self):
        """a constant plus a multiple of one floor division by a non-constant"""
        nc = [m for m in self.t if m != ()]
        if len(nc) != 1 or len(nc[0]) != 1 or nc[0][0][1] != 1:
            return False
        at = atom_by_id(nc[0][0][0])
        return at.kind == 'div' and not at.args[1].is_const

    def single_atom(self):
        """atom id if self == 1*atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __repr__(self):
        return poly_str(self)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


ZERO = Poly({})
ONE = Poly({(): 1})
_consts = {}


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): 1})
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return Poly({(): x}) if x else ZERO
    raise TypeError(x)


_serial = [0]


def new_scope():
    _serial[0] += 1


def sym(name, lo=-INF, hi=INF):
    return P(atom('sym', (name, _serial[0]), lo, hi))


def poly_str(p, depth=0):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items()):
        f = []
        for a, e in m:
            s = atom_str(_atoms[a], depth + 1)
            f.append(s if e == 1 else '%s^%d' % (s, e))
        if not f:
            f = [num(abs(c))]
        elif abs(c) != 1:
            f = [num(abs(c))] + f
        out.append(('-' if c < 0 else '+', '*'.join(f)))
    s = ' '.join('%s %s' % x for x in out)
    if s.startswith('+ '):
        s = s[2:]
    return s


def num(c):
    if c > 4096:
        for k in (32, 64, 96, 128):
            for d in (-1, 0, 1):
                if c == 2 ** k + d:
                    return '2^%d%s' % (k, '' if not d else '%+d' % d)
        if c.bit_length() > 70:
            return '~2^%d' % (c.bit_length() - 1)
    return str(c)


def atom_str(a, depth=0):
    if a.kind == 'sym':
        return a.args[0]
    if depth > 4:
        return a.kind + '(..)'
    return '%s(%s)' % (a.kind, ', '.join(poly_str(x, depth + 1) if isinstance(x, Poly) else str(x) for x in a.args))


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def _ndig(x, r):
    n = 1
    while x >= r:
        x //= r
        n += 1
    return n


def evalp(p, env, memo=None):
    if memo is None:
        memo = {}
    r = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            x = evala(a, env, memo)
            if e < 0:
                if x == 0:
                    raise EvalError('laurent')
                v = Fraction(v) / (Fraction(x) ** (-e))
            else:
                v *= x ** e
        r += v
    return r


def evala(i, env, memo):
    if i in memo:
        return memo[i]
    a = _atoms[i]
    if a.kind == 'sym':
        v = env[i]
    else:
        args = [evalp(x, env, memo) if isinstance(x, Poly) else x for x in a.args]
        v = EVAL[a.kind](*args)
    memo[i] = v
    return v


def _ev_div(a, b):
    if b == 0:
        raise EvalError('div0')
    return a // b


def _ev_pow(b, e):
    if e < 0 or (abs(b) > 1 and e * max(b.bit_length(), 1) > 300000):
        raise EvalError('pow')
    return b ** e


def _ev_pow2(e):
    if e < 0 or e > 300000:
        raise EvalError('pow2')
    return 1 << e


def limbs(x):
    return max(1, (abs(x).bit_length() + 31) // 32)


def _ev_isqrt(x):
    if x < 0:
        raise EvalError('isqrt')
    return _isqrt(x)


def _ev_opaque(*a):
    raise EvalError('opaque')


EVAL = {
    'div': _ev_div,
    'gcd': lambda a, b: _gcd(int(a), int(b)) if a == int(a) and b == int(b) else _ev_opaque(),
    'pow': _ev_pow,
    'pow2': _ev_pow2,
    'len': limbs,
    'isqrt': _ev_isqrt,
    'and': lambda a, b: a & b,
    'or': lambda a, b: a | b,
    'xor': lambda a, b: a ^ b,
    'abs': abs,
    'ndig': lambda x, r, w: max(int(w), _ndig(int(x), int(r))),
    'catd': lambda a, v, r, w: int(a) * int(r) ** max(int(w), _ndig(int(v), int(r))) + int(v),
    'ilog2': lambda x: int(x).bit_length() - 1 if x > 0 and x == int(x) else _ev_opaque(),
    'ite': lambda c, a, b: a if c else b,
    'opaque': _ev_opaque,
    'bitlen': lambda x: abs(x).bit_length(),
    'tbl': lambda t, i: t[i],
    'ctz': lambda x: (x & -x).bit_length() - 1 if x else _ev_opaque(),
}


def syms_of(p, acc=None):
    """all input symbols a normal form depends on"""
    if acc is None:
        acc = set()
    for i in p.atoms():
        _syms_atom(i, acc)
    return acc


_symcache = {}


def _syms_atom(i, acc):
    s = _symcache.get(i)
    if s is None:
        a = _atoms[i]
        if a.kind == 'sym':
            s = frozenset([i])
        else:
            t = set()
            for x in a.args:
                if isinstance(x, Poly):
                    syms_of(x, t)
            s = frozenset(t)
        _symcache[i] = s
    acc |= s


_opqcache = {}


def has_opaque(p):
    for i in p.atoms():
        s = _opqcache.get(i)
        if s is None:
            a = _atoms[i]
            s = a.kind == 'opaque' or any(isinstance(x, Poly) and has_opaque(x) for x in a.args)
            _opqcache[i] = s
        if s:
            return True
    return False


_opq = [0]


def opaque(why, lo=-INF, hi=INF):
    _opq[0] += 1
    return P(atom('opaque', (why, _opq[0]), lo, hi))


def opaque_fn(name, args, lo=-INF, hi=INF):
    return P(atom('opaque', (name,) + tuple(args), lo, hi))


# ---------------------------------------------------------------- predicates
# Pred is a python bool or a tuple:
#  ('ge', p)  p >= 0     ('eq', p)  p == 0
#  ('not', q) ('and', a, b) ('or', a, b)   ('opq', id)
def p_not(a):
    if isinstance(a, bool):
        return not a
    if a[0] == 'not':
        return a[1]
    if a[0] == 'ge':
        return p_ge(-a[1] - 1)
    return ('not', a)


def p_ge(p):
    if p.is_const:
        return p.const >= 0
    return ('ge', p)


def p_eq(p):
    if p.is_const:
        return p.const == 0
    # canonical sign
    m = min(p.t)
    if p.t[m] < 0:
        p = -p
    return ('eq', p)


def p_lt(a, b):
    return p_ge(b - a - 1)


def p_le(a, b):
    return p_ge(b - a)


def p_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a == b:
        return a
    return ('and', a, b)


def p_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a == b:
        return a
    return ('or', a, b)


def p_xor(a, b):
    if isinstance(a, bool):
        return p_not(b) if a else b
    if isinstance(b, bool):
        return p_not(a) if b else a
    if a == b:
        return False
    if a == p_not(b):
        return True
    return p_or(p_and(a, p_not(b)), p_and(p_not(a), b))


def p_iff(a, b):
    return p_not(p_xor(a, b))


def p_eval(q, env, memo):
    if isinstance(q, bool):
        return q
    k = q[0]
    if k == 'ge':
        return evalp(q[1], env, memo) >= 0
    if k == 'eq':
        return evalp(q[1], env, memo) == 0
    if k == 'not':
        return not p_eval(q[1], env, memo)
    if k == 'and':
        return p_eval(q[1], env, memo) and p_eval(q[2], env, memo)
    if k == 'or':
        return p_eval(q[1], env, memo) or p_eval(q[2], env, memo)
    raise EvalError('opq')


def p_polys(q, acc):
    if isinstance(q, bool):
        return acc
    if q[0] in ('ge', 'eq'):
        acc.append(q[1])
    elif q[0] in ('not', 'and', 'or'):
        for x in q[1:]:
            p_polys(x, acc)
    return acc


def p_has_opq(q):
    if isinstance(q, bool):
        return False
    if q[0] == 'opq':
        return True
    if q[0] in ('ge', 'eq'):
        return has_opaque(q[1])
    return any(p_has_opq(x) for x in q[1:])


def p_str(q):
    if isinstance(q, bool):
        return str(q)
    if q[0] == 'ge':
        return '%s >= 0' % q[1]
    if q[0] == 'eq':
        return '%s == 0' % q[1]
    if q[0] == 'not':
        if q[1][0] == 'eq':
            return '%s != 0' % q[1][1]
        return '!(%s)' % p_str(q[1])
    if q[0] == 'opq':
        return '?%s' % (q[1],)
    return '(%s %s %s)' % (p_str(q[1]), q[0], p_str(q[2]))
