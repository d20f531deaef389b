"""Abstract interpreter over the compiler's MIR (forward dataflow with trace
partitioning).  States are joined when they agree on memory; unknown branch
conditions split the cell; nothing is executed and no solver is involved."""
import heapq
import json
import itertools
from expr import *
from ctx import *
import expr as X

sys_rec = __import__('sys')
sys_rec.setrecursionlimit(20000)


# ------------------------------------------------------------------- values
class Top:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Top(%s)' % self.why


class Adt:
    __slots__ = ('p', 'v', 'f')

    def __init__(self, p, v, f):
        self.p, self.v, self.f = p, v, tuple(f)

    def __eq__(self, o):
        return isinstance(o, Adt) and self.p == o.p and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.p, self.v))

    def __repr__(self):
        return '%s#%d%r' % (self.p.split('::')[-1], self.v, self.f)


class Tup:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.f == o.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return 'T%r' % (self.f,)


class VecV:
    """sequence of known length (Vec, array, boxed slice)"""
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def __eq__(self, o):
        return isinstance(o, VecV) and self.xs == o.xs

    def __hash__(self):
        return hash(self.xs)

    def __repr__(self):
        return 'Vec%r' % (self.xs,)


class VecNat:
    """canonical little-endian base-2^32 digits of a natural number of unknown length"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = P(p)

    def __eq__(self, o):
        return isinstance(o, VecNat) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'Nat[%r]' % (self.p,)


class TrimV:
    """coefficient list whose leading zeros have been dropped (how many is not fixed)"""
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def __eq__(self, o):
        return isinstance(o, TrimV) and self.xs == o.xs

    def __hash__(self):
        return hash(self.xs)

    def __repr__(self):
        return 'Trim%r' % (self.xs,)


class Z:
    """abstract BigInt (mathematical integer)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = P(p)

    def __eq__(self, o):
        return isinstance(o, Z) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'Z[%r]' % (self.p,)


class Q:
    """abstract Ratio (element of the fraction field)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=ONE):
        self.n, self.d = P(n), P(d)

    def __eq__(self, o):
        return isinstance(o, Q) and (self.n, self.d) == (o.n, o.d)

    def __hash__(self):
        return hash((self.n, self.d))

    def __repr__(self):
        return 'Q[%r / %r]' % (self.n, self.d)


class Ref:
    __slots__ = ('c', 'path')

    def __init__(self, c, path=()):
        self.c, self.path = c, tuple(path)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.c == o.c and self.path == o.path

    def __hash__(self):
        return hash((self.c, self.path))

    def __repr__(self):
        return '&%s%s' % (self.c, ''.join('.%s' % (e,) for e in self.path))


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return 'Str(%r)' % (self.s,)


class Bits:
    """float known by its bit pattern"""
    __slots__ = ('p', 'w')

    def __init__(self, p, w):
        self.p, self.w = p, w

    def __eq__(self, o):
        return isinstance(o, Bits) and (self.p, self.w) == (o.p, o.w)

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'f%d[%r]' % (self.w, self.p)


class Clo:
    __slots__ = ('key', 'ups')

    def __init__(self, key, ups):
        self.key, self.ups = key, tuple(ups)

    def __eq__(self, o):
        return isinstance(o, Clo) and (self.key, self.ups) == (o.key, o.ups)

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Clo(%s)' % self.key


class FnI:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, FnI) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


class It:
    """abstract iterator: kind + python-level components"""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, tuple(a)

    def __eq__(self, o):
        return isinstance(o, It) and (self.k, self.a) == (o.k, o.a)

    def __hash__(self):
        return hash((self.k, len(self.a)))

    def __repr__(self):
        return 'It(%s%r)' % (self.k, self.a)


UNIT = Tup(())
OPT = 'std::option::Option'
RES = 'std::result::Result'
ORD = 'std::cmp::Ordering'
NONE = Adt(OPT, 0, ())


def some(v):
    return Adt(OPT, 1, (v,))


def ok(v):
    return Adt(RES, 0, (v,))


def err(v):
    return Adt(RES, 1, (v,))


LESS, EQUAL, GREATER = Adt(ORD, 0, ()), Adt(ORD, 1, ()), Adt(ORD, 2, ())


# -------------------------------------------------------------------- state
class State:
    __slots__ = ('cells', 'ctx', 'visits', 'dropped')

    def __init__(self):
        self.cells = {}
        self.ctx = Ctx()
        self.visits = {}
        self.dropped = False

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.ctx = self.ctx.copy()
        s.visits = self.visits
        return s


class Undecided(Exception):
    pass


class Budget(Exception):
    pass


# -------------------------------------------------------------------- facts
class Program:
    def __init__(self, path):
        j = json.load(open(path))
        self.j = j
        self.types = j['types']
        self.fns = {}
        for f in j['fns']:
            self.fns[f['key']] = f
        self.consts = {c['path']: c for c in j['consts']}
        self.names = {}
        for f in sorted(j['fns'], key=lambda f: not f.get('reach')):
            if f['local']:
                n = self.short(f)
                f['short'] = n
                if n in self.names:
                    # not the function that name stands for
                    f['short'] = n + '#' + f['key']
                    continue
                self.names[n] = f
        self._rpo = {}
        self._live = {}

    @staticmethod
    def tyname(s):
        return s.replace('hmath::bigint::', '').replace('hmath::ubigint::', '').replace('hmath::ratio::', '').replace(
            'hmath::fp192::', '').replace('hmath::matrix::', '').replace('hmath::poly::', '').replace('hmath::complex::', '').replace('std::convert::', '').replace('std::string::', '').replace('std::cmp::', '').replace('std::ops::', '').replace('std::str::', '').replace('std::iter::', '').replace('std::fmt::', '').replace('std::default::','').replace('std::clone::','').replace('std::hash::','').replace('std::marker::','')

    def short(self, f):
        if f['name'] is None:
            return f['path']
        if f['self'] is None:
            if '::<' in f['key']:
                return f['name'] + f['key'][f['key'].rindex('::<'):]
            return f['name']
        if f['trait'] is None:
            return '%s::%s' % (self.tyname(f['self']), f['name'])
        return '<%s as %s>::%s' % (self.tyname(f['self']), self.tyname(f['trait']), f['name'])

    def rpo(self, f):
        k = f['key']
        r = self._rpo.get(k)
        if r is None:
            order, seen = [], set()
            st = [(0, iter(succs(f['blocks'][0]['t'])))]
            seen.add(0)
            while st:
                b, it = st[-1]
                adv = False
                for s in it:
                    if s not in seen and s >= 0:
                        seen.add(s)
                        st.append((s, iter(succs(f['blocks'][s]['t']))))
                        adv = True
                        break
                if not adv:
                    order.append(b)
                    st.pop()
            order.reverse()
            r = {b: i for i, b in enumerate(order)}
            self._rpo[k] = r
        return r

    def live(self, f):
        """locals live at entry of each block; a local whose address is taken is always live"""
        k = f['key']
        r = self._live.get(k)
        if r is not None:
            return r
        blocks = f['blocks']
        use, dfn, taken = [], [], set()

        def place(pl, u, d, write):
            l, pr = pl
            if write and not pr:
                if l not in u:
                    d.add(l)
                return
            if l not in d:
                u.add(l)
            for e in pr:
                if e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def ops(x, u, d):
            if isinstance(x, dict):
                if 'p' in x:
                    place(x['p'], u, d, False)
            elif isinstance(x, list):
                if x and x[0] in ('ref', 'rawptr') and len(x) > 1 and isinstance(x[1], list):
                    pl = x[1]
                    place(pl, u, d, False)
                    if not (pl[1] and pl[1][0][0] == 'd'):
                        taken.add(pl[0])
                    return
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                    place(x, u, d, False)
                    return
                for y in x:
                    ops(y, u, d)
        for b in blocks:
            u, d = set(), set()
            for x in b['s']:
                if x[0] == '=':
                    ops(x[2], u, d)
                    place(x[1], u, d, True)
                else:
                    ops(x[1:], u, d)
            t = b['t']
            if t[0] == 'call':
                ops(t[1], u, d)
                ops(t[2], u, d)
                if isinstance(t[3], list):
                    place(t[3], u, d, True)
            elif t[0] == 'ret':
                u.add(0) if 0 not in d else None
            elif t[0] in ('switch', 'assert'):
                ops(t[1], u, d)
                if t[0] == 'assert':
                    ops(t[3], u, d)
            elif t[0] not in ('goto', 'unreach', 'unwind'):
                ops(t[1:], u, d)
            use.append(u)
            dfn.append(d)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(len(blocks) - 1, -1, -1):
                o = set()
                for s in succs(blocks[i]['t']):
                    o |= live[s]
                n = use[i] | (o - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        r = [x | taken for x in live]
        self._live[k] = r
        return r

    # type helpers
    def ty(self, i):
        return self.types[i]


def succs(t):
    if t[0] == 'goto':
        return [t[1]]
    if t[0] == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if t[0] == 'call':
        return [t[4]] if t[4] >= 0 else []
    if t[0] == 'assert':
        return [t[4]]
    return []


def rng_of(ty):
    if ty['k'] == 'uint':
        return 0, (1 << ty['bits']) - 1
    if ty['k'] == 'int':
        return -(1 << (ty['bits'] - 1)), (1 << (ty['bits'] - 1)) - 1
    if ty['k'] == 'bool':
        return 0, 1
    if ty['k'] == 'char':
        return 0, 0x10ffff
    return None


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'why')

    def __init__(self, kind, st, val=None, why=None):
        self.kind, self.st, self.val, self.why = kind, st, val, why

    def __repr__(self):
        return 'Outcome(%s, %r, %s)' % (self.kind, self.val, self.why)


class Engine:
    def __init__(self, prog, contracts=None, max_visits=80, max_steps=60000, max_states=400, max_depth=40, text=False):
        self.text = text
        self.prog = prog
        self.contracts = contracts or {}
        self.max_visits = max_visits
        self.max_steps = max_steps
        self.max_states = max_states
        self.max_depth = max_depth
        self.steps = 0
        self.frame = 0
        self.calls = 0
        self.inlined = set()
        self.used_contracts = set()
        self.unmodelled = {}
        self.models = None
        self.root = None
        self.hooks = {}
        self.argmut = None
        self.merge_at = 12       # pending states of one block beyond which values are generalised
        self.release = False     # True: integer overflow wraps instead of panicking

    # ------------------------------------------------------------ branching
    def split(self, st, pred):
        """[(state, True), (state', False)] for the feasible sides of pred"""
        d = st.ctx.decide(pred)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        out = []
        if st.ctx.assume(pred):
            out.append((st, True))
        if s2.ctx.assume(p_not(pred)):
            out.append((s2, False))
        return out

    # ---------------------------------------------------------------- memory
    def load(self, st, c, path):
        v = st.cells.get(c)
        if v is None:
            return Top('uninit')
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if isinstance(v, Top):
            return v
        if k == 'f':
            if isinstance(v, Adt):
                if e[1] < len(v.f):
                    return v.f[e[1]]
                return Top('field')
            if isinstance(v, Tup):
                return v.f[e[1]]
            if isinstance(v, Clo):
                return v.ups[e[1]]
            if isinstance(v, (Z, Q)):
                raise SplitZ(v)
            return Top('field of %s' % type(v).__name__)
        if k == 'v':
            if isinstance(v, Adt) and v.v != e[1]:
                return Top('downcast')
            return v
        if k == 'ix':
            if isinstance(v, VecV):
                if 0 <= e[1] < len(v.xs):
                    return v.xs[e[1]]
                return Top('oob')
            if isinstance(v, VecNat):
                return self.nat_limb(st, v, P(e[1]))
            return Top('index')
        if k == 'nix':
            if isinstance(v, VecNat):
                return self.nat_limb(st, v, e[1])
            return Top('symbolic index')
        if k == 'sub':
            if isinstance(v, VecV):
                return VecV(v.xs[e[1]:e[2]])
            return Top('subslice')
        return Top('proj')

    def nat_limb(self, st, v, i):
        w = mk_pow2(i * 32)
        return st.ctx.mk_mod(st.ctx.mk_div(v.p, w), P(1 << 32))

    def store(self, st, c, path, val):
        if not path:
            st.cells[c] = val
            return
        st.cells[c] = self.setp(st, st.cells.get(c, Top('uninit')), path, val)

    def setp(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if isinstance(v, Top):
            return v
        inner = self.setp(st, self.proj(st, v, e), path[1:], val)
        k = e[0]
        if k == 'f':
            if isinstance(v, Adt):
                f = list(v.f)
                while len(f) <= e[1]:
                    f.append(Top('uninit field'))
                f[e[1]] = inner
                return Adt(v.p, v.v, f)
            if isinstance(v, Tup):
                f = list(v.f)
                f[e[1]] = inner
                return Tup(f)
            if isinstance(v, Clo):
                f = list(v.ups)
                f[e[1]] = inner
                return Clo(v.key, f)
        if k == 'v':
            return inner
        if k == 'ix':
            if isinstance(v, VecV) and 0 <= e[1] < len(v.xs):
                f = list(v.xs)
                f[e[1]] = inner
                return VecV(f)
        if k == 'sub' and isinstance(v, VecV) and isinstance(inner, VecV) and len(inner.xs) == e[2] - e[1]:
            f = list(v.xs)
            f[e[1]:e[2]] = inner.xs
            return VecV(f)
        return Top('store')

    def deref(self, st, v):
        if isinstance(v, Ref):
            return self.load(st, v.c, v.path)
        return v if isinstance(v, Top) else v

    def resolve_place(self, st, fr, place):
        """-> (cell, path) following derefs"""
        c, path = (fr, place[0]), ()
        for e in place[1]:
            k = e[0]
            if k == 'd':
                r = self.load(st, c, path)
                if isinstance(r, Ref):
                    c, path = r.c, r.path
                elif isinstance(r, Top):
                    raise TopPlace(r.why)
                else:
                    # a value used through a pointer (Box etc.): stay
                    if isinstance(r, (VecV, VecNat, Str)):
                        pass
                    else:
                        raise TopPlace('deref of %s' % type(r).__name__)
            elif k == 'f':
                v = self.load(st, c, path)
                if isinstance(v, (Z, Q)):
                    raise SplitZ(v, (c, path))
                path = path + (('f', e[1]),)
            elif k == 'v':
                path = path + (('v', e[1]),)
            elif k == 'i':
                iv = st.cells.get((fr, e[1]))
                if isinstance(iv, Poly):
                    iv = st.ctx.simp(iv)
                    if iv.is_const:
                        path = path + (('ix', iv.const),)
                    else:
                        path = path + (('nix', iv),)
                else:
                    raise TopPlace('index')
            elif k == 'ci':
                if e[2]:
                    v = self.load(st, c, path)
                    if not isinstance(v, VecV):
                        raise TopPlace('ci')
                    path = path + (('ix', len(v.xs) - e[1]),)
                else:
                    path = path + (('ix', e[1]),)
            elif k == 'ss':
                v = self.load(st, c, path)
                if not isinstance(v, VecV):
                    raise TopPlace('ss')
                to = len(v.xs) - e[2] if e[3] else e[2]
                path = path + (('sub', e[1], to),)
            else:
                raise TopPlace('proj ' + k)
        return c, path

    def place_ty(self, f, place):
        t = self.prog.types[f['locals'][place[0]]]
        var = 0
        for e in place[1]:
            if t is None:
                return None
            k = e[0]
            if k == 'd':
                if t['k'] in ('ref', 'ptr'):
                    t = self.prog.types[t['e']]
                elif t['k'] == 'adt' and t['a']:
                    t = self.prog.types[t['a'][0]]
                else:
                    return None
            elif k == 'f':
                if t['k'] == 'tuple':
                    t = self.prog.types[t['es'][e[1]]]
                elif t['k'] == 'closure':
                    t = self.prog.types[t['ups'][e[1]]]
                elif t['k'] == 'adt':
                    try:
                        ti = t['v'][var]['f'][e[1]]['t']
                    except IndexError:
                        return None
                    if ti < 0:
                        return None
                    t = self.prog.types[ti]
                else:
                    return None
                var = 0
            elif k == 'v':
                var = e[1]
            elif k in ('i', 'ci'):
                if t['k'] in ('slice', 'array'):
                    t = self.prog.types[t['e']]
                else:
                    return None
        return t

    # -------------------------------------------------------------- operands
    def const(self, st, c, ty):
        if 'int' in c:
            return P(int(c['int']))
        if 'bool' in c:
            return c['bool']
        if 'char' in c:
            return P(c['char'])
        if 'str' in c:
            return Str(c['str'])
        if 'zst' in c:
            if ty['k'] == 'tuple':
                return UNIT
            if ty['k'] == 'closure':
                return Clo(ty['f'], ())
            if ty['k'] == 'adt':
                return Adt(ty['p'], 0, ())
            if ty['k'] == 'array':
                return VecV(())
            return UNIT
        if 'ref' in c:
            inner = self.prog.types[ty['e']] if ty['k'] in ('ref', 'ptr') else None
            v = self.const(st, c['ref'], inner)
            cell = ('k', self.fresh())
            st.cells[cell] = v
            return Ref(cell)
        if 'arr' in c:
            et = self.prog.types[ty['e']] if ty and ty['k'] in ('array', 'slice') else None
            return VecV([self.const(st, x, et) for x in c['arr']])
        if 'tup' in c:
            return Tup([self.const(st, x, self.prog.types[t]) for x, t in zip(c['tup'], ty['es'])])
        if 'struct' in c:
            fs = []
            for x, fd in zip(c['struct'], ty['v'][0]['f']):
                fs.append(self.const(st, x, self.prog.types[fd['t']] if fd['t'] >= 0 else None))
            return Adt(ty['p'], 0, fs)
        if 'variant' in c:
            i, xs = c['variant']
            if not (ty and ty['k'] == 'adt' and ty['enum'] and i < len(ty['v'])):
                return Top('enum const')
            return Adt(ty['p'], i, [self.const(st, x, self.prog.types[fd['t']] if fd['t'] >= 0 else None) for x, fd in zip(xs, ty['v'][i]['f'])])
        if 'enumbits' in c:
            if ty and ty['k'] == 'adt' and ty['enum']:
                b = int(c['enumbits'])
                for i, v in enumerate(ty['v']):
                    if not v['f']:
                        d = int(v['d'])
                        if d % 256 == b % 256 and (d == b or b < 256):
                            if all(not w['f'] for w in ty['v']):
                                return Adt(ty['p'], i, ())
            return Top('enum const')
        if 'float' in c:
            return Bits(P(int(c['float'])), ty['bits'])
        return Top('const ' + json.dumps(c)[:60])

    def fresh(self):
        self.frame += 1
        return self.frame

    def operand(self, st, fr, o):
        if 'p' in o:
            try:
                c, path = self.resolve_place(st, fr, o['p'])
            except TopPlace as e:
                return Top(e.why)
            return self.load(st, c, path)
        if 'c' in o:
            if 'fn' in o['c']:
                return FnI(o['c']['fn'])
            return self.const(st, o['c'], self.prog.types[o['t']])
        if 'rtchk' in o:
            return False
        return Top('operand')

    # --------------------------------------------------------------- rvalues
    def wrap(self, st, p, ty):
        """reduce the mathematical value p into the range of ty"""
        r = rng_of(ty)
        if r is None:
            return Top('wrap')
        lo, hi = st.ctx.range(p)
        if lo >= r[0] and hi <= r[1]:
            return p
        n = r[1] - r[0] + 1
        q = st.ctx.mk_div(p - r[0], P(n))
        return p - q * n

    def asint(self, v):
        if isinstance(v, Poly):
            return v
        if v is True:
            return ONE
        if v is False:
            return ZERO
        return None

    def rvalue(self, st, fr, f, rv, dty):
        """-> list of (state, value)"""
        k = rv[0]
        if k == 'use':
            v = self.operand(st, fr, rv[1])
            if dty is not None:
                # read through a pointer that was cast
                if isinstance(v, Bits) and dty['k'] == 'uint' and dty['bits'] == v.w:
                    v = v.p
                elif isinstance(v, Poly) and dty['k'] == 'float':
                    v = Bits(v, dty['bits'])
            return [(st, v)]
        if k in ('ref', 'rawptr'):
            pl = rv[1]
            # &*x of a non-pointer abstract value: keep the value
            try:
                c, path = self.resolve_place(st, fr, pl)
            except TopPlace as e:
                return [(st, Top(e.why))]
            if pl[1] and pl[1][-1][0] == 'd' and not isinstance(self.load(st, c, path), (Top,)) and False:
                pass
            v = self.load(st, c, path)
            if isinstance(v, Str) and not (self.text and rv[2]):
                return [(st, v)]
            return [(st, Ref(c, path))]
        if k == 'cast':
            v = self.operand(st, fr, rv[2])
            ty = self.prog.types[rv[3]]
            kind = rv[1]
            if kind.startswith('IntToInt'):
                if isinstance(v, (bool, tuple)):
                    return [(s, ONE if b else ZERO) for s, b in self.split(st, v)]
                if isinstance(v, Adt):   # fieldless enum as integer
                    return [(st, P(v.v))]
                p = self.asint(v)
                if p is None:
                    return [(st, Top('cast'))]
                return [(st, self.wrap(st, p, ty))]
            if kind.startswith('Transmute'):
                if isinstance(v, Poly) and ty['k'] == 'float':
                    return [(st, Bits(v, ty['bits']))]
                if isinstance(v, Bits) and ty['k'] == 'uint':
                    return [(st, v.p)]
                if ty['k'] in ('ref', 'ptr', 'adt'):
                    return [(st, v)]
                return [(st, Top('transmute'))]
            if kind.startswith('BoxDeref') or kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind.startswith('Subtype'):
                return [(st, v)]
            return [(st, Top('cast ' + kind))]
        if k == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, dty)
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, (bool, tuple)):
                    return [(st, p_not(v))]
                p = self.asint(v)
                if p is not None and dty and dty['k'] == 'uint':
                    return [(st, P((1 << dty['bits']) - 1) - p)]
                if p is not None and dty and dty['k'] == 'int':
                    return [(st, -p - 1)]
                return [(st, Top('not'))]
            if rv[1] == 'Neg':
                p = self.asint(v)
                if p is None:
                    return [(st, Top('neg'))]
                return [(st, self.wrap(st, -p, dty))]
            if rv[1] == 'PtrMetadata':
                return [(st, self.length(st, v))]
            return [(st, Top('un ' + rv[1]))]
        if k == 'discr':
            try:
                c, path = self.resolve_place(st, fr, rv[1])
            except TopPlace as e:
                return [(st, Top(e.why))]
            v = self.load(st, c, path)
            if isinstance(v, Adt):
                t = self.place_ty(f, rv[1])
                if t and t['k'] == 'adt' and t['enum']:
                    return [(st, P(sgn(int(t['v'][v.v]['d']), dty)))]
                return [(st, P(v.v))]
            return [(st, Top('discr of %r' % (v,)))]
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in rv[2]]
            a = rv[1]
            if a == 'tuple':
                return [(st, Tup(ops))]
            if a == 'array':
                return [(st, VecV(ops))]
            if a[0] == 'adt':
                return [(st, Adt(a[1], a[2], ops))]
            if a[0] == 'closure':
                return [(st, Clo(a[1], ops))]
            return [(st, Top('agg'))]
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            if 0 <= rv[2] <= 4096:
                return [(st, VecV([v] * rv[2]))]
            return [(st, Top('repeat'))]
        return [(st, Top('rvalue ' + k))]

    def length(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, VecV):
            return P(len(v.xs))
        if isinstance(v, VecNat):
            return st.ctx.mk_len(v.p)
        if isinstance(v, Str) and v.s is not None:
            return P(len(v.s.encode()))
        return Top('len of %s' % type(v).__name__)

    def binop(self, st, op, a, b, dty):
        if isinstance(a, Top) or isinstance(b, Top):
            if op.endswith('WithOverflow'):
                return [(st, Tup((Top('bin'), Top('bin'))))]
            return [(st, Top('bin:' + (a.why if isinstance(a, Top) else b.why)))]
        boolish = isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple))
        if boolish:
            if op == 'BitAnd':
                return [(st, p_and(a, b))]
            if op == 'BitOr':
                return [(st, p_or(a, b))]
            if op in ('BitXor', 'Ne'):
                return [(st, p_xor(a, b))]
            if op == 'Eq':
                return [(st, p_iff(a, b))]
            return [(st, Top('boolop ' + op))]
        if isinstance(a, Bits) or isinstance(b, Bits):
            return [(st, Top('float op'))]
        pa, pb = self.asint(a), self.asint(b)
        if pa is None or pb is None:
            return [(st, Top('binop %s on %s,%s' % (op, type(a).__name__, type(b).__name__)))]
        cx = st.ctx
        if op == 'Eq':
            return [(st, p_eq(pa - pb))]
        if op == 'Ne':
            return [(st, p_not(p_eq(pa - pb)))]
        if op == 'Lt':
            return [(st, p_lt(pa, pb))]
        if op == 'Le':
            return [(st, p_le(pa, pb))]
        if op == 'Gt':
            return [(st, p_lt(pb, pa))]
        if op == 'Ge':
            return [(st, p_le(pb, pa))]
        if op == 'Cmp':
            return self.cmp3(st, pa, pb)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = pa + pb if op[0] == 'A' else pa - pb if op[0] == 'S' else pa * pb
            ty = self.prog.types[dty['es'][0]]
            lo, hi = rng_of(ty)
            ra, rb = cx.range(pa), cx.range(pb)
            if op[0] == 'M':
                ir = imul(ra, rb)
            elif op[0] == 'A':
                ir = (ra[0] + rb[0], ra[1] + rb[1])
            else:
                ir = (ra[0] - rb[1], ra[1] - rb[0])
            if ir[0] >= lo and ir[1] <= hi:
                if op[0] == 'M':
                    self.note(cx, r, ir)
                return [(st, Tup((r, False)))]
            pr = p_not(p_and(p_ge(r - lo), p_ge(P(hi) - r)))
            if cx.decide(p_ge(r - lo)) is True:
                pr = p_not(p_ge(P(hi) - r))
            elif cx.decide(p_ge(P(hi) - r)) is True:
                pr = p_not(p_ge(r - lo))
            d = cx.decide(pr)
            if d is False:
                return [(st, Tup((r, False)))]
            out = []
            for s, o in self.split(st, pr):
                out.append((s, Tup((r if not o else self.wrap(s, r, ty), o))))
            return out
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = pa + pb if op[0] == 'A' else pa - pb if op[0] == 'S' else pa * pb
            return [(st, self.wrap(st, r, dty))]
        if op in ('Div', 'Rem'):
            return self.divrem(st, op, pa, pb, bool(dty) and dty['k'] == 'uint')
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            la, _ = cx.range(pa)
            lb, _ = cx.range(pb)
            if la < 0 or lb < 0:
                return [(st, Top('bitop on negative'))]
            if op == 'BitAnd':
                if pb.is_const:
                    return [(st, cx.mk_and(pa, pb.const))]
                if pa.is_const:
                    return [(st, cx.mk_and(pb, pa.const))]
                return [(st, P(atom('and', (pa, pb), 0, INF)))]
            if op == 'BitOr':
                return [(st, cx.mk_or(pa, pb))]
            return [(st, cx.mk_xor(pa, pb))]
        if op in ('Shl', 'ShlUnchecked'):
            return [(st, self.wrap(st, pa * mk_pow2(self.shamt(st, pb, dty)), dty))]
        if op in ('Shr', 'ShrUnchecked'):
            w = mk_pow2(self.shamt(st, pb, dty))
            return [(st, cx.mk_div(pa, w))]
        return [(st, Top('binop ' + op))]

    def shamt(self, st, p, dty):
        if dty and 'bits' in dty:
            lo, hi = st.ctx.range(p)
            if lo < 0 or hi >= dty['bits']:
                return st.ctx.mk_mod(p, P(dty['bits']))
        return p

    def cmp3(self, st, a, b):
        out = []
        for s, lt in self.split(st, p_lt(a, b)):
            if lt:
                out.append((s, LESS))
            else:
                for s2, e in self.split(s, p_eq(a - b)):
                    out.append((s2, EQUAL if e else GREATER))
        return out

    def note(self, cx, r, ir):
        """record an interval the factors imply but the expanded form hides"""
        if r.is_const or len(r.t) < 2:
            return
        lo, hi = cx.range(r)
        if lo < ir[0]:
            cx._assume_ge(r - int(ir[0]))
        if hi > ir[1]:
            cx._assume_ge(P(int(ir[1])) - r)

    def divrem(self, st, op, a, b, uns=False):
        """truncated division; zero divisors are guarded by an assert"""
        out = []
        if uns:
            q = st.ctx.mk_div(a, b)
            return [(st, q if op == 'Div' else a - b * q)]
        for s, an in self.split(st, p_ge(-a - 1)):
            for s2, bn in self.split(s, p_ge(-b - 1)):
                x = -a if an else a
                y = -b if bn else b
                d = s2.ctx.decide(p_ge(y - 1))
                q = s2.ctx.mk_div(x, y)
                if op == 'Div':
                    out.append((s2, -q if an != bn else q))
                else:
                    r = x - y * q
                    out.append((s2, -r if an else r))
        return out

    # ----------------------------------------------------------------- calls
    def call(self, st, key, args, depth, line=None, finfo=None):
        """-> list of Outcome.  key: function key (resolved)"""
        self.calls += 1
        f = self.prog.fns.get(key)
        if f is not None and f['local']:
            short = f['short']
            h = self.hooks.get(short)
            if h:
                h(self, st, args)
            ct = self.contracts.get(short)
            if ct is not None and not (depth == 0):
                self.used_contracts.add(short)
                return ct(self, st, args)
            if depth > 0:
                rt = self.prog.types[f['locals'][0]]
                if rt['k'] == 'adt' and rt['p'] == 'std::string::String' and not self.text:
                    return [Outcome('ret', st, Str(None))]
        if self.models is not None and (f is None or not f['local']):
            r = self.models(self, st, finfo, key, args, depth)
            if r is not None:
                return r
        if f is not None:
            if depth > self.max_depth:
                return [Outcome('top', st, None, 'inline depth')]
            if f['local']:
                self.inlined.add(f['short'])
            return self.exec_fn(st, f, args, depth)
        self.unmodelled[key] = self.unmodelled.get(key, 0) + 1
        self.havoc_args(st, args, key)
        return [Outcome('ret', st, Top('call ' + key))]

    def havoc_args(self, st, args, why):
        """an unmodelled callee may write through every &mut it receives"""
        muts = self.argmut
        for i, a in enumerate(args):
            if isinstance(a, Ref) and (muts is None or i >= len(muts) or muts[i]):
                self.store(st, a.c, a.path, Top('written by ' + why))

    def exec_fn(self, st, f, args, depth):
        fr = self.fresh()
        for i, a in enumerate(args):
            st.cells[(fr, i + 1)] = a
        st.visits = {}
        rpo = self.prog.rpo(f)
        heap = []
        cnt = itertools.count()
        pend = {}
        outs = []

        live = self.prog.live(f)

        def push(b, s):
            lv = live[b]
            dead = [c for c in s.cells if c[0] == fr and c[1] not in lv]
            if dead:
                s.cells = {c: v for c, v in s.cells.items() if c[0] != fr or c[1] in lv}
            lst = pend.setdefault(b, [])
            for i, o in enumerate(lst):
                if o.cells == s.cells:
                    join(o, s)
                    return
            if len(lst) >= self.merge_at:
                again = True
                while again:
                    again = False
                    for o in lst:
                        if o is not s and (partners(o, s) or len(lst) > 40) and merge(o, s):
                            if s in lst:
                                lst.remove(s)
                                s.dropped = True
                            s = o
                            again = True
                            break
                if s in lst:
                    return
            lst.append(s)
            if len(lst) > self.max_states:
                raise Budget('states in %s' % f['key'])
            heapq.heappush(heap, (rpo.get(b, 10 ** 6), next(cnt), b, s))

        push(0, st)
        saved = st.visits
        while heap:
            _, _, b, s = heapq.heappop(heap)
            if s.dropped:
                continue
            lst = pend.get(b, [])
            if s in lst:
                lst.remove(s)
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('steps in %s' % f['key'])
            n = s.visits.get(b, 0) + 1
            if n > self.max_visits:
                outs.append(Outcome('top', s, None, 'loop bound in ' + f['key']))
                continue
            s.visits = dict(s.visits)
            s.visits[b] = n
            self.block(s, fr, f, b, depth, push, outs)
        for o in outs:
            if o.kind != 'top':
                dead = [c for c in o.st.cells if c[0] == fr]
                for c in dead:
                    del o.st.cells[c]
            o.st.visits = {}
        return outs

    def split_z(self, st, z):
        if z.where is None:
            raise Budget('field access inside a library model')
        c, path = z.where
        out = []
        if isinstance(z.v, Q):
            s = st.copy()
            n, d = self.reduced(s.ctx, z.v)
            f = [None, None]
            f[self.lay.rat_d], f[self.lay.rat_n] = Z(d), Z(n)
            self.store(s, c, path, Adt('hmath::ratio::Ratio', 0, f))
            return [s]
        for s, neg in self.split(st.copy(), p_ge(-z.v.p - 1)):
            m = -z.v.p if neg else z.v.p
            f = [None, None]
            f[self.lay.bi_val], f[self.lay.bi_neg] = Adt('hmath::ubigint::UBigInt', 0, (VecNat(m),)), neg
            v = Adt('hmath::bigint::BigInt', 0, f)
            self.store(s, c, path, v)
            out.append(s)
        return out

    def block(self, st, fr, f, b, depth, push, outs):
        blk = f['blocks'][b]
        # statements may split the state
        work = [(st, 0)]
        stmts = blk['s']
        done = []
        base_visits = st.visits
        while work:
            s, i = work.pop()
            while i < len(stmts):
                x = stmts[i]
                i += 1
                if x[0] == '=':
                    dty = self.place_ty(f, x[1])
                    try:
                        res = self.rvalue(s, fr, f, x[2], dty)
                        for (s2, v) in res:
                            if s2.ctx.dead:
                                continue
                            self.assign(s2, fr, x[1], v)
                    except SplitZ as z:
                        # refine an abstract number into its fields, redo the statement
                        for s2 in self.split_z(s, z):
                            s2.visits = base_visits
                            work.append((s2, i - 1))
                        s = None
                        break
                    live = [s2 for s2, _ in res if not s2.ctx.dead]
                    if not live:
                        s = None
                        break
                    for s2 in live[1:]:
                        s2.visits = base_visits
                        work.append((s2, i))
                    s = live[0]
                elif x[0] == 'sd':
                    self.setdiscr(s, fr, x)
                # intrinsics (assume) carry no effect on values
            if s is not None:
                done.append(s)
        while done:
            s = done.pop(0)
            s.visits = base_visits
            try:
                self.terminator(s, fr, f, b, blk['t'], depth, push, outs)
            except SplitZ as z:
                for s2 in self.split_z(s, z):
                    s2.visits = base_visits
                    done.append(s2)

    def assign(self, st, fr, place, v):
        try:
            c, path = self.resolve_place(st, fr, place)
        except TopPlace as e:
            st.cells[('top', 0)] = Top('write through unknown pointer: ' + e.why)
            return
        self.store(st, c, path, v)

    def setdiscr(self, st, fr, x):
        try:
            c, path = self.resolve_place(st, fr, x[1])
        except TopPlace:
            return
        v = self.load(st, c, path)
        if isinstance(v, Adt):
            self.store(st, c, path, Adt(v.p, x[2], v.f))

    def terminator(self, st, fr, f, b, t, depth, push, outs):
        k = t[0]
        if k == 'goto':
            push(t[1], st)
        elif k == 'ret':
            outs.append(Outcome('ret', st, st.cells.get((fr, 0), UNIT)))
        elif k == 'unreach':
            return
        elif k == 'switch':
            v = self.operand(st, fr, t[1])
            self.switch(st, fr, f, t, v, push, outs)
        elif k == 'assert':
            v = self.operand(st, fr, t[1])
            if isinstance(v, Top):
                # unknown overflow/bounds condition: continue, remember
                outs.append(Outcome('top', st.copy(), None, 'assert on unknown (%s) at %s:%d' % (t[3][0], f['span'][0], t[5])))
                push(t[4], st)
                return
            for s, o in self.split(st, v):
                if o == t[2]:
                    push(t[4], s)
                else:
                    s.visits = st.visits
                    if self.release and t[3][0] in ('overflow', 'overflow_neg'):
                        push(t[4], s)
                    else:
                        outs.append(Outcome('panic', s, None, '%s at %s:%d' % (t[3][0], f['span'][0], t[5])))
        elif k == 'call':
            fnv = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, a) for a in t[2]]
            self.do_call(st, fr, f, fnv, args, t, depth, push, outs)
        elif k == 'unwind':
            return
        else:
            outs.append(Outcome('top', st, None, 'terminator ' + k))

    def switch(self, st, fr, f, t, v, push, outs):
        if isinstance(v, Top):
            outs.append(Outcome('top', st, None, 'branch on unknown (%s) at %s:%d' % (v.why, f['span'][0], t[4])))
            return
        if isinstance(v, (bool, tuple)):
            tgt = {int(x): bb for x, bb in t[2]}
            for s, o in self.split(st, v):
                push(tgt.get(int(o), t[3]), s)
            return
        p = self.asint(v)
        if p is None:
            outs.append(Outcome('top', st, None, 'switch on %s' % type(v).__name__))
            return
        ty = None
        if 'p' in t[1]:
            ty = self.place_ty(f, t[1]['p'])
        cur = st
        for x, bb in t[2]:
            x = sgn(int(x), ty)
            r = self.split(cur, p_eq(p - x))
            nxt = None
            for s, o in r:
                if o:
                    push(bb, s)
                else:
                    nxt = s
            if nxt is None:
                return
            cur = nxt
        push(t[3], cur)

    def do_call(self, st, fr, f, fnv, args, t, depth, push, outs):
        line = t[5]
        if isinstance(fnv, FnI):
            info = self.prog.types[fnv.t]['f']
            muts = []
            for a in t[2]:
                ty = self.place_ty(f, a['p']) if 'p' in a else self.prog.types[a['t']] if 't' in a else None
                muts.append(ty is None or (ty['k'] in ('ref', 'ptr') and bool(ty.get('mut'))) or ty['k'] not in ('ref', 'ptr'))
            self.argmut = muts
            res = self.call_info(st, info, args, depth)
        elif isinstance(fnv, Clo):
            res = self.call(st, fnv.key, args, depth + 1)
        else:
            outs.append(Outcome('top', st, None, 'indirect call at %s:%d' % (f['span'][0], line)))
            return
        for o in res:
            if o.st.ctx.dead:
                continue
            o.st.visits = st.visits
            if o.kind == 'ret':
                if t[4] < 0:
                    continue
                self.assign(o.st, fr, t[3], o.val)
                push(t[4], o.st)
            else:
                if o.why and ' <- ' not in o.why:
                    o.why = '%s <- %s:%d' % (o.why, f['span'][0], line)
                outs.append(o)

    def call_info(self, st, info, args, depth):
        key = info['key'] or info['decl']
        if info['shim'] == 'once' or (info['shim'] == 'item' and '{closure' in info['path'] and args and isinstance(args[0], (Clo, Ref)) and not info['has']):
            pass
        return self.call(st, key, args, depth + 1, finfo=info)

    def call_value(self, st, fv, args, depth):
        """call a closure / fn item value with an argument list"""
        v = fv
        if isinstance(v, Ref):
            v = self.load(st, v.c, v.path)
        if isinstance(v, FnI):
            return self.call_info(st, self.prog.types[v.t]['f'], args, depth)
        if isinstance(v, Clo):
            f = self.prog.fns.get(v.key)
            if f is None:
                return [Outcome('top', st, None, 'closure body')]
            # self argument by value or by reference, tupled args spread
            t0 = self.prog.types[f['locals'][1]]
            if t0['k'] == 'ref':
                if isinstance(fv, Ref):
                    selfv = fv
                else:
                    c = ('clo', self.fresh())
                    st.cells[c] = v
                    selfv = Ref(c)
            else:
                selfv = v
            if f['local']:
                self.inlined.add(f['short'])
            return self.exec_fn(st, f, [selfv] + list(args), depth + 1)
        return [Outcome('top', st, None, 'call of unknown function value')]


def sgn(x, ty):
    if ty and ty['k'] == 'int':
        b = ty['bits']
        x &= (1 << b) - 1
        if x >= 1 << (b - 1):
            x -= 1 << b
    return x


class TopPlace(Exception):
    def __init__(self, why):
        self.why = why


class SplitZ(Exception):
    def __init__(self, v, where=None):
        self.v, self.where = v, where


W32 = 1 << 32


class Unify:
    """writes the values of two states alike: x in the states of ca, y in the states of cb.
    Digits that differ by a carry are expressed through the floor division that produces it."""

    def __init__(self, ca, cb):
        self.ca, self.cb = ca, cb
        self.maps = ({}, {})  # quotients rewritten on either side
        self.guards = []      # (term, its value in ca, its value in cb)

    def see(self, a):
        """a digit both states write alike: the carry out of it may be known on each side"""
        if isinstance(a, Poly):
            for i, c in divs(a):
                at = X.atom_by_id(i)
                if c == -W32 and at.args[1].is_const and at.args[1].const == W32:
                    # floor of the number with symmetric coefficients
                    g, r = P(at), ZERO
                    for m, k in at.args[0].t.items():
                        s = (k + W32 // 2) % W32 - W32 // 2
                        r = r + Poly({m: s})
                        if s != k:
                            g = g - Poly({m: (k - s) // W32})
                    va, vb = self.known(self.ca, g, r), self.known(self.cb, g, r)
                    if va is not None and vb is not None and va != vb:
                        self.guards.append((g, va, vb))

    def known(self, ctx, g, r):
        l, h = ctx.range(g)
        if l != h:
            a, b = ctx.range(r)
            if a > -INF and b < INF:
                l, h = max(l, a // W32), min(h, b // W32)
        if l == h:
            return l
        if h - l == 1:
            for v, w in ((l, h), (h, l)):
                if ctx.decide(p_eq(g - v)) is False:
                    return w
        return None

    def poly(self, a, b, depth=0):
        d = b - a
        if d.is_const:
            d = d.const
            c = (d + W32 // 2) % W32 - W32 // 2
            m = (d - c) // W32
            if abs(c) <= 2 and abs(m) <= 2:
                e = a
                if c:
                    ok = False
                    for g, ka, kb in reversed(self.guards):
                        if c % (kb - ka) == 0:
                            e = a + (g - ka) * (c // (kb - ka))
                            ok = True
                            break
                    if not ok:
                        e = None
                if e is not None:
                    if not m:
                        return e
                    # e is a in ca, b - m*2^32 in cb
                    for sh in (0, W32, -W32):
                        base = Ctx()
                        base.cop = self.ca.cop
                        x = e + sh
                        va, vb = self.ca.range(a + sh), self.cb.range(b - m * W32 + sh)
                        if any(v in (INF, -INF) for v in va + vb):
                            break
                        ka, kb = va[0] // W32, vb[0] // W32
                        if va[1] // W32 != ka or vb[1] // W32 != kb or kb - ka != -m:
                            continue
                        g = base.mk_div(x, P(W32))
                        self.guards.append((g, ka, kb))
                        return e - (g - ka) * W32
        elif depth < 3:
            # the same floor division of two numbers that differ by a carry
            da = [x for x in divs(a) if x[0] not in b.atoms()]
            db = [x for x in divs(b) if x[0] not in a.atoms()]
            for ia, ca in da:
                for ib, cb in db:
                    if ca != cb:
                        continue
                    A, B = X.atom_by_id(ia), X.atom_by_id(ib)
                    if A.args[1] != B.args[1]:
                        continue
                    ng = len(self.guards)
                    d = B.args[0] - A.args[0]
                    k = 0
                    if d.is_const and A.args[1].is_const:
                        q = A.args[1].const
                        k = (d.const - ((d.const + q // 2) % q - q // 2)) // q
                    # floor(rb/q) = floor((rb - k*q)/q) + k
                    e = self.poly(A.args[0], B.args[0] - A.args[1] * k, depth + 1)
                    if e is None:
                        continue
                    rest = self.poly(a - P(A) * ca, b - P(B) * ca + ca * k, depth + 1)
                    if rest is None:
                        del self.guards[ng:]
                        continue
                    base = Ctx()
                    base.cop = self.ca.cop
                    D = base.mk_div(e, A.args[1])
                    self.maps[0][ia] = D
                    self.maps[1][ib] = D + k
                    return rest + D * ca
            for flip in (False, True):
                z = self.onesided(b if flip else a, a if flip else b, flip, depth)
                if z is not None:
                    return z
        q = p_eq(a - b)
        if self.cb.decide(q) is True:
            return a
        if self.ca.decide(q) is True:
            return b
        return None

    def onesided(self, a, b, flip, depth):
        """a = rest + k*floor(r/q); in the states of b that quotient is a known constant"""
        cb = self.ca if flip else self.cb
        un = (lambda x, y: self.poly(y, x, depth + 1)) if flip else (lambda x, y: self.poly(x, y, depth + 1))
        for ia, co in divs(a):
            if ia in b.atoms():
                continue
            A = X.atom_by_id(ia)
            r, q = A.args
            if not q.is_const:
                continue
            ra = a - P(A) * co
            for k in (0, 1, -1):
                d = (b - co * k) - ra
                if not d.is_const or abs(d.const) > 2:
                    continue
                r2 = r + d if co == -q.const else r
                v = cb.range(r2)
                if v[0] in (INF, -INF) or v[1] in (INF, -INF) or v[0] // q.const != k or v[1] // q.const != k:
                    continue
                ng = len(self.guards)
                e = r if r2 == r else un(r, r2)
                rest = None if e is None else ra if d.const == 0 else un(ra, b - co * k)
                if rest is None:
                    del self.guards[ng:]
                    continue
                base = Ctx()
                base.cop = self.ca.cop
                D = base.mk_div(e, q)
                self.maps[1 if flip else 0][ia] = D
                va = (self.cb if flip else self.ca).range(P(A))
                if va[0] == va[1] and va[0] != k:
                    self.guards.append((D, k, va[0]) if flip else (D, va[0], k))
                return rest + D * co
        return None

    def mapped(self, q, side):
        if q[0] in ('eq', 'ge') and isinstance(q[1], Poly):
            p = q[1]
            for i, c in divs(p):
                if i in self.maps[side]:
                    p = p + (self.maps[side][i] - P(X.atom_by_id(i))) * c
            return (p_eq if q[0] == 'eq' else p_ge)(p)
        if q[0] == 'not' and isinstance(q[1], tuple):
            z = self.mapped(q[1], side)
            return None if z is None else p_not(z)
        return None

    def val(self, a, b):
        if a is b or (type(a) is type(b) and a == b):
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.poly(a, b)
        if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
            da = a if isinstance(a, bool) else self.ca.decide(a)
            db = b if isinstance(b, bool) else self.cb.decide(b)
            if da is not None and da is db:
                return da
            for x, cx, y, side in ((a, self.cb, db, 0), (b, self.ca, da, 1)):
                if isinstance(x, tuple) and y is not None:
                    z = self.mapped(x, side)
                    for w in (z, x):
                        if w is not None and (w if isinstance(w, bool) else cx.decide(w)) is y:
                            return w
            a = da if da is not None else a
            b = db if db is not None else b
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ('eq', 'ge') and isinstance(a[1], Poly) and isinstance(b[1], Poly):
                x, y = self.mapped(a, 0), self.mapped(b, 1)
                if x == y or (a[0] == 'eq' and isinstance(x, tuple) and isinstance(y, tuple) and x[1] == -y[1]):
                    return x
                z = self.poly(a[1], b[1])
                if z is None and a[0] == 'eq':
                    z = self.poly(a[1], -b[1])
                return None if z is None else (p_eq if a[0] == 'eq' else p_ge)(z)
            if isinstance(a, bool) and isinstance(b, bool) and self.guards:
                g, ka, kb = self.guards[-1]
                return p_eq(g - (kb if b else ka))
            return None
        if type(a) is not type(b):
            return None
        if isinstance(a, (VecV, Tup, Adt)):
            xs, ys = (a.xs, b.xs) if isinstance(a, VecV) else (a.f, b.f)
            if len(xs) != len(ys) or (isinstance(a, Adt) and (a.p != b.p or a.v != b.v)):
                return None
            out = []
            for x, y in zip(xs, ys):
                z = self.val(x, y)
                if z is None:
                    return None
                if z is x and isinstance(a, VecV):
                    self.see(z)
                out.append(z)
            return VecV(out) if isinstance(a, VecV) else Tup(out) if isinstance(a, Tup) else Adt(a.p, a.v, out)
        if isinstance(a, (VecNat, Z)):
            z = self.val(a.p, b.p)
            return None if z is None else type(a)(z)
        return None


def divs(p):
    out = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and X.atom_by_id(m[0][0]).kind == 'div':
            out.append((m[0][0], c))
    return out


def lits(q, out):
    """q as a formula over numbered atoms; complementary inequalities share an atom"""
    if isinstance(q, bool):
        return q
    if q[0] in ('and', 'or'):
        a, b = lits(q[1], out), lits(q[2], out)
        return None if a is None or b is None else (q[0], a, b)
    if q[0] == 'not':
        a = lits(q[1], out)
        return None if a is None else ('not', a)
    i = out.get(q)
    if i is None:
        n = p_not(q)
        j = out.get(n) if not isinstance(n, bool) else None
        if j is not None:
            return ('not', j)
        i = ('v', sum(1 for v in out.values()))
        out[q] = i
    return i


def truth(f, env):
    if isinstance(f, bool):
        return f
    if f[0] == 'v':
        return env >> f[1] & 1 == 1
    if f[0] == 'not':
        return not truth(f[1], env)
    if f[0] == 'and':
        return truth(f[1], env) and truth(f[2], env)
    return truth(f[1], env) or truth(f[2], env)


def taut(q):
    """propositionally valid"""
    if isinstance(q, bool):
        return q
    if p_size(q, 80) > 80:
        return False
    tab = {}
    f = lits(q, tab)
    if f is None or len(tab) > 7:
        return False
    return all(truth(f, e) for e in range(1 << len(tab)))


def suffixes(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    da = db = True
    for q in tightest(a[i:]):
        da = p_and(da, q)
    for q in tightest(b[i:]):
        db = p_and(db, q)
    return i, da, db


def tightest(qs):
    """of inequalities that bound multiples of the same quantity from the same side, keep the strongest"""
    if len(qs) < 6:
        return qs
    best = {}
    for j, q in enumerate(qs):
        if isinstance(q, tuple) and q[0] == 'ge':
            p = Ctx()._content(q[1])
            n = p.nonconst()
            if n not in best or p.const < best[n][1]:
                best[n] = (j, p.const)
    keep = {j for j, _ in best.values()}
    return [q for j, q in enumerate(qs) if not (isinstance(q, tuple) and q[0] == 'ge') or j in keep]


def partners(o, s):
    """together the two states are all of the case they were split from"""
    a, b = o.ctx.preds, s.ctx.preds
    if len(a) == len(b) and a and a[-1] == p_not(b[-1]) and a[:-1] == b[:-1]:
        return True
    if abs(len(a) - len(b)) > 4:
        return False
    i, da, db = suffixes(a, b)
    if len(a) - i > 4 or len(b) - i > 4:
        return False
    return taut(p_or(da, db))


def merge(o, s):
    """join two states whose values can be written alike in both"""
    if o.cells.keys() != s.cells.keys():
        return False
    diff = [(c, a, s.cells[c]) for c, a in o.cells.items() if a is not s.cells[c]]
    diff = [x for x in diff if not (type(x[1]) is type(x[2]) and x[1] == x[2])]
    if any(isinstance(a, (Ref, It, Top)) for _, a, b in diff):
        return False
    # digits first: they give the carries a name
    diff.sort(key=lambda x: 0 if isinstance(x[1], (VecV, Adt)) else 1 if isinstance(x[1], Poly) else 2)
    u = Unify(o.ctx, s.ctx)
    new = {}
    for c, a, b in diff:
        z = u.val(a, b)
        if z is None:
            return False
        new[c] = z
    join(o, s)
    if new:
        o.cells = dict(o.cells)
        o.cells.update(new)
    return True


def p_size(q, lim):
    if not isinstance(q, tuple):
        return 1
    n = 1
    for x in q[1:]:
        n += p_size(x, lim - n)
        if n > lim:
            return n
    return n


def conj(q, out):
    if isinstance(q, tuple) and q[0] == 'and':
        conj(q[1], out)
        conj(q[2], out)
    else:
        out.append(q)
    return out


def lexor(da, db):
    """A >= 0, or A == -1 and B >= 0: one inequality M*(A+1) + B >= 0 when -M <= B < M"""
    for p, q in ((da, db), (db, da)):
        if not (isinstance(p, tuple) and p[0] == 'ge' and isinstance(q, tuple) and q[0] == 'and'):
            continue
        A = p[1]
        ls = conj(q, [])
        if len(ls) > 3 or any(not isinstance(l, tuple) for l in ls):
            continue
        z = A + 1
        eq = ('eq', z) in ls or ('eq', -z) in ls
        rest = [l for l in ls if l not in (('eq', z), ('eq', -z), ('ge', z), ('ge', -z))]
        if not eq and not (('ge', z) in ls and ('ge', -z) in ls):
            continue
        if len(rest) != 1 or rest[0][0] != 'ge':
            continue
        B = rest[0][1]
        lo, hi = Ctx().range(B)
        if lo == -INF or hi == INF:
            continue
        k = 1
        while not (-(1 << k) <= lo and hi < (1 << k)):
            k += 1
        k = (k + 31) // 32 * 32
        return ('ge', z * (1 << k) + B)
    return None


def join(o, s):
    """join the facts of two states with identical memory: keep what both know"""
    a, b = o.ctx, s.ctx
    n = Ctx()
    n.cop = a.cop
    # common prefix of refinements stays; the differing suffixes become one disjunction
    i, da, db = suffixes(a.preds, b.preds)
    n.preds = a.preds[:i]
    dis = p_or(da, db)
    if taut(dis):
        dis = True
    n.weak = a.weak or b.weak
    lx = lexor(da, db) if dis is not True else None
    if lx is not None:
        dis = True
    if dis is not True:
        if p_size(dis, 120) > 120:
            n.weak = True
        else:
            n.preds.append(dis)
    for k, v in a.sub.items():
        if b.sub.get(k) == v:
            n.sub[k] = v
    n.memo = {}
    for k in set(a.arng) | set(b.arng):
        l1, h1 = a.arange(k)
        l2, h2 = b.arange(k)
        n.arng[k] = (min(l1, l2), max(h1, h2))
    for k in set(a.rng) | set(b.rng):
        l1, h1 = a.range(k)
        l2, h2 = b.range(k)
        if min(l1, l2) > -INF or max(h1, h2) < INF:
            n.rng[k] = (min(l1, l2), max(h1, h2))
    # atoms eliminated on one side keep their hull
    for k in list(a.sub) + list(b.sub):
        if k in n.sub:
            continue
        l1, h1 = a.range(P(X.atom_by_id(k)))
        l2, h2 = b.range(P(X.atom_by_id(k)))
        n.arng[k] = (min(l1, l2), max(h1, h2))
    if lx is not None:
        n.assume(lx)
    o.ctx = n
    for k, v in s.visits.items():
        if o.visits.get(k, 0) < v:
            o.visits = dict(o.visits)
            o.visits[k] = v
