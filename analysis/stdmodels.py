"""Transfer functions of the standard-library operations the crate calls.

Each model states what the operation does to abstract values; operations that
are not listed here evaluate to Top (unknown), which can only make the analysis
quieter."""
from engine import *
from engine import Outcome, TopPlace
from expr import *
from ctx import *

import text
LIM = 600


class Fuzzy(Exception):
    pass


def ret(st, v):
    return [Outcome('ret', st, v)]


def top(st, why):
    return [Outcome('ret', st, Top(why))]


def panic(st, why):
    return [Outcome('panic', st, None, why)]


RANGE = 'std::ops::Range'
RANGEI = 'std::ops::RangeInclusive'


def each(res, fn):
    """continue fn(st, val) on the returning outcomes, pass the others through"""
    out = []
    for o in res:
        if o.kind == 'ret' and not o.st.ctx.dead:
            out.extend(fn(o.st, o.val))
        elif o.kind != 'ret':
            out.append(o)
    return out


def is_iter(v):
    return isinstance(v, It) or (isinstance(v, Adt) and v.p in (RANGE, RANGEI))


def seq_of(e, st, v):
    """the sequence behind a Vec / slice reference / array value"""
    for _ in range(6):
        if isinstance(v, Ref):
            v = e.load(st, v.c, v.path)
        else:
            break
    return v


# ----------------------------------------------------------------- iterators
def nxt(e, st, it, depth, back=False):
    """-> outcomes whose value is (item|None, new iterator)"""
    if isinstance(it, Adt) and it.p == RANGE:
        a, b = it.f
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            return [Outcome('top', st, None, 'range over unknown bounds')]
        out = []
        for s, lt in e.split(st, p_lt(a, b)):
            if not lt:
                out += ret(s, (None, it))
            elif back:
                out += ret(s, (b - 1, Adt(RANGE, 0, (a, b - 1))))
            else:
                out += ret(s, (a, Adt(RANGE, 0, (a + 1, b))))
        return out
    if isinstance(it, Adt) and it.p == RANGEI:
        a, b = it.f[0], it.f[1]
        done = it.f[2] if len(it.f) > 2 else False
        if not (isinstance(a, Poly) and isinstance(b, Poly)) or not isinstance(done, bool):
            return [Outcome('top', st, None, 'range over unknown bounds')]
        if done:
            return ret(st, (None, it))
        out = []
        for s, le in e.split(st, p_le(a, b)):
            if not le:
                out += ret(s, (None, it))
                continue
            for s2, eq in e.split(s, p_eq(a - b)):
                if eq:
                    out += ret(s2, (a, Adt(RANGEI, 0, (a, b, True))))
                elif back:
                    out += ret(s2, (b, Adt(RANGEI, 0, (a, b - 1, False))))
                else:
                    out += ret(s2, (a, Adt(RANGEI, 0, (a + 1, b, False))))
        return out
    if not isinstance(it, It):
        return [Outcome('top', st, None, 'iterator of unknown kind')]
    k, a = it.k, it.a
    if k == 'sl':          # (ref to sequence, lo, hi)
        r, lo, hi = a
        if lo >= hi:
            return ret(st, (None, it))
        if back:
            return ret(st, (Ref(r.c, r.path + (('ix', hi - 1),)), It('sl', r, lo, hi - 1)))
        return ret(st, (Ref(r.c, r.path + (('ix', lo),)), It('sl', r, lo + 1, hi)))
    if k == 'vals':
        xs, = a
        if not xs:
            return ret(st, (None, it))
        if back:
            return ret(st, (xs[-1], It('vals', xs[:-1])))
        return ret(st, (xs[0], It('vals', xs[1:])))
    if k == 'rev':
        return each(nxt(e, st, a[0], depth, not back), lambda s, v: ret(s, (v[0], It('rev', v[1]))))
    if k == 'enum':
        if back:
            n = exact_len(st, a[0])
            if n is None:
                return [Outcome('top', st, None, 'enumerate from the back')]
            return each(nxt(e, st, a[0], depth, True), lambda s, v: ret(s, (None, It('enum', v[1], a[1])) if v[0] is None else (Tup((P(a[1] + n - 1), v[0])), It('enum', v[1], a[1]))))
        return each(nxt(e, st, a[0], depth), lambda s, v: ret(s, (None, It('enum', v[1], a[1])) if v[0] is None else (Tup((P(a[1]), v[0])), It('enum', v[1], a[1] + 1))))
    if k == 'map':
        def step(s, v):
            if v[0] is None:
                return ret(s, (None, It('map', v[1], a[1])))
            return each(e.call_value(s, a[1], [v[0]], depth), lambda s2, w: ret(s2, (w, It('map', v[1], a[1]))))
        return each(nxt(e, st, a[0], depth, back), step)
    if k == 'copied':
        def step(s, v):
            if v[0] is None:
                return ret(s, (None, It('copied', v[1])))
            return ret(s, (e.deref(s, v[0]), It('copied', v[1])))
        return each(nxt(e, st, a[0], depth, back), step)
    if k == 'chain':
        def step(s, v):
            if v[0] is None:
                i = 0 if back else 1
                return each(nxt(e, s, a[i], depth, back), lambda s2, w: ret(s2, (w[0], It('chain', *((w[1], v[1]) if back else (v[1], w[1]))))))
            return ret(s, (v[0], It('chain', *((a[0], v[1]) if back else (v[1], a[1])))))
        return each(nxt(e, st, a[1 if back else 0], depth, back), step)
    if k == 'zip':
        if back:
            n, m = exact_len(st, a[0]), exact_len(st, a[1])
            if n is None or m is None:
                return [Outcome('top', st, None, 'zip from the back')]
            if n != m:
                i = 0 if n > m else 1
                res = ret(st, (ONE, a[i]))
                for _ in range(abs(n - m)):
                    res = each(res, lambda s, v: nxt(e, s, v[1], depth, True))
                return each(res, lambda s, v: nxt(e, s, It('zip', v[1], a[1]) if i == 0 else It('zip', a[0], v[1]), depth, True))

            def bstep(s, v):
                if v[0] is None:
                    return ret(s, (None, It('zip', v[1], a[1])))
                return each(nxt(e, s, a[1], depth, True), lambda s2, w: ret(s2, (Tup((v[0], w[0])), It('zip', v[1], w[1]))))
            return each(nxt(e, st, a[0], depth, True), bstep)

        def step(s, v):
            if v[0] is None:
                return ret(s, (None, It('zip', v[1], a[1])))
            return each(nxt(e, s, a[1], depth), lambda s2, w: ret(s2, (None if w[0] is None else Tup((v[0], w[0])), It('zip', v[1], w[1]))))
        return each(nxt(e, st, a[0], depth), step)
    if k == 'take' and back:
        n = exact_len(st, a[0])
        if n is None:
            return [Outcome('top', st, None, 'take from the back')]
        res = ret(st, (ONE, a[0]))
        for _ in range(max(0, n - a[1])):
            res = each(res, lambda s, v: nxt(e, s, v[1], depth, True))
        m = min(n, a[1])
        if m == 0:
            return ret(st, (None, it))
        return each(res, lambda s, v: each(nxt(e, s, v[1], depth, True), lambda s2, w: ret(s2, (w[0], It('take', w[1], m - 1)))))
    if k == 'skip' and back:
        n = exact_len(st, a[0])
        if n is None:
            return [Outcome('top', st, None, 'skip from the back')]
        if n <= a[1]:
            return ret(st, (None, it))
        return each(nxt(e, st, a[0], depth, True), lambda s, v: ret(s, (v[0], It('skip', v[1], a[1]))))
    if k == 'step' and back:
        return [Outcome('top', st, None, 'step_by from the back')]
    if k == 'take':
        if a[1] <= 0:
            return ret(st, (None, it))
        return each(nxt(e, st, a[0], depth), lambda s, v: ret(s, (v[0], It('take', v[1], a[1] - 1))))
    if k == 'skip':
        res = ret(st, (ONE, a[0]))
        for _ in range(a[1]):
            res = each(res, lambda s, v: nxt(e, s, v[1], depth) if v[0] is not None else ret(s, v))
        return each(res, lambda s, v: nxt(e, s, v[1], depth) if v[0] is not None else ret(s, v))
    if k == 'step':
        res = nxt(e, st, a[0], depth)

        def step(s, v):
            if v[0] is None:
                return ret(s, (None, It('step', v[1], a[1])))
            r2 = ret(s, (ONE, v[1]))
            for _ in range(a[1] - 1):
                r2 = each(r2, lambda s3, w: nxt(e, s3, w[1], depth) if w[0] is not None else ret(s3, w))
            return each(r2, lambda s3, w: ret(s3, (v[0], It('step', w[1], a[1]))))
        return each(res, step)
    if k == 'filter':
        def step(s, v):
            if v[0] is None:
                return ret(s, (None, It('filter', v[1], a[1])))
            c = ('fl', e.fresh())
            s.cells[c] = v[0]

            def test(s2, w):
                if not isinstance(w, (bool, tuple)):
                    return [Outcome('top', s2, None, 'filter on unknown')]
                out = []
                for s3, b in e.split(s2, w):
                    if b:
                        out += ret(s3, (v[0], It('filter', v[1], a[1])))
                    else:
                        out += each(nxt(e, s3, v[1], depth), step)
                return out
            return each(e.call_value(s, a[1], [Ref(c)], depth), test)
        return each(nxt(e, st, a[0], depth, back), step)
    if k == 'chunks':
        r, lo, hi, n, exact = a
        if lo >= hi or (exact and hi - lo < n):
            return ret(st, (None, it))
        if back:
            return [Outcome('top', st, None, 'chunks from the back')]
        m = min(hi, lo + n)
        return ret(st, (Ref(r.c, r.path + (('sub', lo, m),)), It('chunks', r, m, hi, n, exact)))
    if k == 'windows':
        r, lo, hi, n = a
        if lo + n > hi:
            return ret(st, (None, it))
        return ret(st, (Ref(r.c, r.path + (('sub', lo, lo + n),)), It('windows', r, lo + 1, hi, n)))
    return [Outcome('top', st, None, 'iterator ' + k)]


def exact_len(st, it):
    """number of items left, when the adapters fix it"""
    if isinstance(it, Adt) and it.p == RANGE:
        a, b = it.f
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = st.ctx.simp(b - a)
            if d.is_const:
                return max(0, d.const)
        return None
    if not isinstance(it, It):
        return None
    k, a = it.k, it.a
    if k == 'sl':
        return max(0, a[2] - a[1])
    if k == 'vals':
        return len(a[0])
    if k in ('rev', 'enum', 'map', 'copied'):
        return exact_len(st, a[0])
    if k in ('chain', 'zip'):
        n, m = exact_len(st, a[0]), exact_len(st, a[1])
        if n is None or m is None:
            return None
        return n + m if k == 'chain' else min(n, m)
    if k in ('take', 'skip'):
        n = exact_len(st, a[0])
        if n is None:
            return None
        return min(n, a[1]) if k == 'take' else max(0, n - a[1])
    return None


def drain(e, st, it, depth):
    """-> outcomes whose value is the tuple of all items"""
    done = []
    work = [(st, it, ())]
    n = 0
    while work:
        s, i, acc = work.pop()
        n += 1
        if n > 4 * LIM:
            raise Budget('iterator')
        for o in nxt(e, s, i, depth):
            if o.kind != 'ret':
                done.append(o)
                continue
            if o.st.ctx.dead:
                continue
            v, ni = o.val
            if v is None:
                done.append(Outcome('ret', o.st, acc))
            elif len(acc) >= LIM:
                done.append(Outcome('top', o.st, None, 'unbounded iterator'))
            else:
                work.append((o.st, ni, acc + (v,)))
    return done


def to_iter(e, st, v):
    if is_iter(v):
        return v
    if isinstance(v, VecV):
        return It('vals', v.xs)
    if isinstance(v, Ref):
        w = e.load(st, v.c, v.path)
        if isinstance(w, VecV):
            return It('sl', v, 0, len(w.xs))
        if isinstance(w, Ref):
            return to_iter(e, st, w)
        if is_iter(w):
            return It('byref', v)
    if isinstance(v, Adt) and v.p == OPT:
        return It('vals', v.f if v.v == 1 else ())
    return None


def iter_method(e, st, name, args, finfo, depth):
    """adapters and consumers of std::iter::Iterator"""
    selfv = args[0]
    if name in ('next', 'next_back', 'nth'):
        if not isinstance(selfv, Ref):
            return None
        it = e.load(st, selfv.c, selfv.path)
        if isinstance(it, Ref):      # &mut &mut I
            selfv = it
            it = e.load(st, it.c, it.path)
        if not is_iter(it):
            return None if not isinstance(it, Top) else top(st, it.why)

        def fin(s, v):
            e.store(s, selfv.c, selfv.path, v[1])
            return ret(s, NONE if v[0] is None else some(v[0]))
        if name == 'nth':
            n = args[1]
            if not isinstance(n, Poly) or not n.is_const:
                return [Outcome('top', st, None, 'nth')]
            res = ret(st, (ONE, it))
            for _ in range(n.const + 1):
                res = each(res, lambda s, v: nxt(e, s, v[1], depth) if v[0] is not None else ret(s, v))
            return each(res, fin)
        return each(nxt(e, st, it, depth, name == 'next_back'), fin)
    it = to_iter(e, st, selfv)
    if it is None:
        return None

    def cint(v):
        if isinstance(v, Poly):
            v = st.ctx.simp(v)
            if v.is_const:
                return v.const
        return None
    if name == 'map':
        return ret(st, It('map', it, args[1]))
    if name == 'enumerate':
        return ret(st, It('enum', it, 0))
    if name == 'rev':
        return ret(st, It('rev', it))
    if name in ('copied', 'cloned'):
        return ret(st, It('copied', it))
    if name == 'chain':
        o = to_iter(e, st, args[1])
        if o is None:
            return top(st, 'chain')
        return ret(st, It('chain', it, o))
    if name == 'zip':
        o = to_iter(e, st, args[1])
        if o is None:
            return top(st, 'zip')
        return ret(st, It('zip', it, o))
    if name in ('take', 'skip', 'step_by'):
        n = cint(args[1])
        if n is None:
            return top(st, name)
        return ret(st, It({'step_by': 'step'}.get(name, name), it, n))
    if name == 'filter':
        return ret(st, It('filter', it, args[1]))
    if name in ('by_ref', 'fuse', 'peekable', 'into_iter'):
        if name == 'peekable':
            return top(st, 'peekable')
        return ret(st, it)
    if name == 'size_hint':
        return top(st, 'size_hint')
    if name == 'collect':
        tgt = e.prog.types[finfo['args'][1]]
        if tgt['k'] == 'adt' and tgt['p'] == 'std::vec::Vec':
            return each(drain(e, st, it, depth), lambda s, xs: ret(s, VecV(xs)))
        if tgt['k'] == 'adt' and tgt['p'] == RES:
            def res(s, xs):
                for x in xs:
                    if not isinstance(x, Adt):
                        return top(s, 'collect result')
                    if x.v == 1:
                        return ret(s, err(x.f[0]))
                return ret(s, ok(VecV([x.f[0] for x in xs])))
            return each(drain(e, st, it, depth), res)
        return each(drain(e, st, it, depth), lambda s, xs: ret(s, text.collect(e, s, xs) if e.text else Str(None)))
    if name in ('count', 'last', 'len'):
        return each(drain(e, st, it, depth), lambda s, xs: ret(s, P(len(xs)) if name != 'last' else (some(xs[-1]) if xs else NONE)))
    if name in ('sum', 'product'):
        def tot(s, xs):
            acc = ZERO if name == 'sum' else ONE
            for x in xs:
                x = e.deref(s, x)
                if not isinstance(x, Poly):
                    return top(s, name)
                acc = acc + x if name == 'sum' else acc * x
            rt = e.prog.types[finfo['args'][1]]
            r = rng_of(rt)
            if r is None:
                return top(s, name)
            out = []
            for s2, o in e.split(s, p_and(p_ge(acc - r[0]), p_ge(P(r[1]) - acc))):
                out += ret(s2, acc) if o else panic(s2, 'overflow in Iterator::' + name)
            return out
        return each(drain(e, st, it, depth), tot)
    if name in ('any', 'all', 'position', 'find', 'for_each', 'fold', 'max', 'min', 'rposition'):
        def run(s, xs):
            if name == 'for_each':
                res = ret(s, UNIT)
                for x in xs:
                    res = each(res, lambda s2, _v, x=x: each(e.call_value(s2, args[1], [x], depth), lambda s3, _w: ret(s3, UNIT)))
                return res
            if name == 'fold':
                res = ret(s, args[1])
                for x in xs:
                    res = each(res, lambda s2, acc, x=x: e.call_value(s2, args[2], [acc, x], depth))
                return res
            if name in ('max', 'min'):
                if not xs:
                    return ret(s, NONE)
                vs = [e.deref(s, x) for x in xs]
                if not all(isinstance(v, Poly) for v in vs):
                    return top(s, name)
                cur = [(s, 0)]
                for i in range(1, len(xs)):
                    n2 = []
                    for s2, b in cur:
                        pr = p_le(vs[b], vs[i]) if name == 'max' else p_lt(vs[i], vs[b])
                        for s3, o in e.split(s2, pr):
                            n2.append((s3, i if o else b))
                    cur = n2
                return [Outcome('ret', s2, some(xs[b])) for s2, b in cur]
            out = []
            idx = list(enumerate(xs))
            if name == 'rposition':
                idx.reverse()
            cur = ret(s, None)
            for i, x in idx:
                nx = []
                for o in cur:
                    if o.kind != 'ret':
                        out.append(o)
                        continue
                    a = x
                    if name == 'find':
                        c = ('fl', e.fresh())
                        o.st.cells[c] = x
                        a = Ref(c)
                    for o2 in e.call_value(o.st, args[1], [a], depth):
                        if o2.kind != 'ret':
                            out.append(o2)
                            continue
                        if not isinstance(o2.val, (bool, tuple)):
                            out.append(Outcome('top', o2.st, None, name))
                            continue
                        for s3, b in e.split(o2.st, o2.val):
                            if b == (name != 'all'):
                                out += ret(s3, {'any': True, 'all': False}.get(name, some(P(i)) if name in ('position', 'rposition') else some(x)))
                            else:
                                nx += ret(s3, None)
                cur = nx
            for o in cur:
                if o.kind == 'ret':
                    out += ret(o.st, {'any': False, 'all': True}.get(name, NONE))
                else:
                    out.append(o)
            return out
        return each(drain(e, st, it, depth), run)
    if name in ('eq',):
        o = to_iter(e, st, args[1])
        if o is None:
            return top(st, 'iter eq')

        def cmp(s, xs):
            def c2(s2, ys):
                if len(xs) != len(ys):
                    return ret(s2, False)
                acc = True
                for x, y in zip(xs, ys):
                    q = val_eq(e, s2, x, y)
                    if q is None:
                        return top(s2, 'iter eq')
                    acc = p_and(acc, q)
                return ret(s2, acc)
            return each(drain(e, s, o, depth), c2)
        return each(drain(e, st, it, depth), cmp)
    return None


# ---------------------------------------------------------------- equality
def val_eq(e, st, a, b):
    for _ in range(5):
        if isinstance(a, Ref):
            a = e.load(st, a.c, a.path)
        if isinstance(b, Ref):
            b = e.load(st, b.c, b.path)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return p_eq(a - b)
    if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
        return p_iff(a, b)
    if isinstance(a, VecV) and isinstance(b, VecV):
        if len(a.xs) != len(b.xs):
            return False
        acc = True
        for x, y in zip(a.xs, b.xs):
            q = val_eq(e, st, x, y)
            if q is None:
                return None
            acc = p_and(acc, q)
        return acc
    if isinstance(a, VecNat) and isinstance(b, VecNat):
        return p_eq(a.p - b.p)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, VecNat) and isinstance(y, VecV) and all(isinstance(z, Poly) for z in y.xs):
            n = vec_nat(y)
            if len(y.xs) == 0:
                return False
            q = p_eq(x.p - n)
            if len(y.xs) > 1:
                q = p_and(q, p_not(p_eq(y.xs[-1])))
            return q
    if isinstance(a, Adt) and isinstance(b, Adt) and a.p == b.p:
        if a.v != b.v:
            return False
        acc = True
        for x, y in zip(a.f, b.f):
            q = val_eq(e, st, x, y)
            if q is None:
                return None
            acc = p_and(acc, q)
        return acc
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.f) == len(b.f):
        acc = True
        for x, y in zip(a.f, b.f):
            q = val_eq(e, st, x, y)
            if q is None:
                return None
            acc = p_and(acc, q)
        return acc
    if isinstance(a, Z) and isinstance(b, Z):
        return p_eq(a.p - b.p)
    if isinstance(a, Q) and isinstance(b, Q):
        return p_eq(a.n * b.d - b.n * a.d)
    if isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None:
        return a.s == b.s
    return None


def vec_nat(v):
    n = ZERO
    for i, x in enumerate(v.xs):
        n = n + x * (1 << (32 * i))
    return n


# ------------------------------------------------------------------ indexing
def index(e, st, base, idx):
    """Vec/slice index by usize or by range; base is a reference"""
    if not isinstance(base, Ref):
        return top(st, 'index base')
    v = e.load(st, base.c, base.path)
    for _ in range(4):
        if isinstance(v, Ref):
            base = v
            v = e.load(st, v.c, v.path)
    if isinstance(v, Top):
        return top(st, v.why)
    if isinstance(idx, Poly):
        idx = st.ctx.simp(idx)
        n = e.length(st, v)
        if isinstance(n, Top):
            return top(st, 'index')
        out = []
        for s, inb in e.split(st, p_lt(idx, n)):
            if not inb:
                out += panic(s, 'index out of bounds')
                continue
            i = s.ctx.simp(idx)
            if i.is_const:
                out += ret(s, Ref(base.c, base.path + (('ix', i.const),)))
            elif isinstance(v, VecV):
                # enumerate the feasible positions
                lo, hi = s.ctx.range(i)
                lo, hi = max(0, lo), min(hi, len(v.xs) - 1)
                if hi - lo > 600:
                    out += top(s, 'symbolic index')
                    continue
                if all(isinstance(x, Poly) and x.is_const for x in v.xs) and hi - lo > 3:
                    # table lookup with a symbolic index
                    cell = ('tb', e.fresh())
                    l2 = min(x.const for x in v.xs)
                    h2 = max(x.const for x in v.xs)
                    s.cells[cell] = P(atom('tbl', (tuple(x.const for x in v.xs), i), l2, h2))
                    out += ret(s, Ref(cell))
                    continue
                cur = s
                for kx in range(int(lo), int(hi) + 1):
                    nx = None
                    for s2, eq in e.split(cur, p_eq(i - kx)):
                        if eq:
                            out += ret(s2, Ref(base.c, base.path + (('ix', kx),)))
                        else:
                            nx = s2
                    cur = nx
                    if cur is None:
                        break
            else:
                out += ret(s, Ref(base.c, base.path + (('nix', i),)))
        return out
    if isinstance(idx, Adt):
        if isinstance(v, VecV):
            n = len(v.xs)
            p = idx.p.split('::')[-1]
            try:
                if p == 'Range':
                    lo, hi = cst(st, idx.f[0]), cst(st, idx.f[1])
                elif p == 'RangeTo':
                    lo, hi = 0, cst(st, idx.f[0])
                elif p == 'RangeFrom':
                    lo, hi = cst(st, idx.f[0]), n
                elif p == 'RangeFull':
                    lo, hi = 0, n
                elif p == 'RangeInclusive':
                    lo, hi = cst(st, idx.f[0]), cst(st, idx.f[1]) + 1
                elif p == 'RangeToInclusive':
                    lo, hi = 0, cst(st, idx.f[0]) + 1
                else:
                    return top(st, 'slice')
            except Fuzzy:
                return top(st, 'slice bounds')
            if lo > hi or hi > n:
                return panic(st, 'slice index out of range')
            return ret(st, Ref(base.c, base.path + (('sub', lo, hi),)))
        if isinstance(v, VecNat) and idx.p.split('::')[-1] == 'RangeFull':
            return ret(st, base)
    return top(st, 'index')


def cst(st, v):
    if isinstance(v, Poly):
        v = st.ctx.simp(v)
        if v.is_const:
            return v.const
    raise Fuzzy()


def clone_val(e, st, v):
    return v


# -------------------------------------------------------------------- models
def unwrap_like(e, st, v, okv, what):
    if isinstance(v, Adt) and v.p in (OPT, RES):
        if v.v == okv:
            return ret(st, v.f[0])
        return panic(st, what)
    return None


INTS = {'u8': (0, 255), 'i8': (-128, 127)}


def int_ty(path):
    i = path.find('<impl ')
    if i < 0:
        return None
    t = path[i + 6:path.index('>', i)]
    if t == 'usize':
        t = 'u64'
    if t == 'isize':
        t = 'i64'
    if t[:1] in 'ui' and t[1:].isdigit():
        b = int(t[1:])
        return (t[0] == 'i', b)
    return None


def num_method(e, st, name, ty, a):
    signed, bits = ty
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    tyd = {'k': 'int' if signed else 'uint', 'bits': bits}
    for x in a:
        if isinstance(x, Top):
            return top(st, 'num')
    xs = [e.deref(st, x) if isinstance(x, Ref) else x for x in a]
    if not all(isinstance(x, Poly) for x in xs):
        return None
    x = xs[0]
    y = xs[1] if len(xs) > 1 else None

    def inr(p):
        return p_and(p_ge(p - lo), p_ge(P(hi) - p))

    def arith(op):
        if op == 'add':
            return [(st, x + y)]
        if op == 'sub':
            return [(st, x - y)]
        if op == 'mul':
            return [(st, x * y)]
        if op == 'neg':
            return [(st, -x)]
        return None
    for pre in ('checked_', 'wrapping_', 'overflowing_', 'saturating_'):
        if name.startswith(pre):
            op = name[len(pre):]
            r = arith(op)
            if r is None:
                if op in ('div', 'rem') and pre == 'checked_':
                    out = []
                    for s, z in e.split(st, p_eq(y)):
                        if z:
                            out += ret(s, NONE)
                        else:
                            for s2, v in e.divrem(s, 'Div' if op == 'div' else 'Rem', x, y):
                                for s3, o in e.split(s2, inr(v)):
                                    out += ret(s3, some(v) if o else NONE)
                    return out
                if op in ('shl', 'shr') and pre == 'checked_':
                    out = []
                    for s, o in e.split(st, p_lt(y, P(bits))):
                        if not o:
                            out += ret(s, NONE)
                        elif op == 'shl':
                            out += ret(s, some(e.wrap(s, x * mk_pow2(y), tyd)))
                        else:
                            out += ret(s, some(s.ctx.mk_div(x, mk_pow2(y))))
                    return out
                if op == 'pow' and pre == 'checked_':
                    v = mk_pow(x, y)
                    return [o for s, b in e.split(st, inr(v)) for o in ret(s, some(v) if b else NONE)]
                if op in ('shl', 'shr') and pre == 'wrapping_':
                    n = e.shamt(st, y, tyd)
                    return ret(st, e.wrap(st, x * mk_pow2(n), tyd) if op == 'shl' else st.ctx.mk_div(x, mk_pow2(n)))
                if op == 'abs':
                    out = []
                    for s, n in e.split(st, p_ge(-x - 1)):
                        v = -x if n else x
                        for s2, b in e.split(s, inr(v)):
                            if pre == 'checked_':
                                out += ret(s2, some(v) if b else NONE)
                            elif pre == 'wrapping_':
                                out += ret(s2, v if b else P(lo))
                            else:
                                return None
                    return out
                return None
            out = []
            for s, v in r:
                if pre == 'wrapping_':
                    out += ret(s, e.wrap(s, v, tyd))
                    continue
                for s2, b in e.split(s, inr(v)):
                    if pre == 'checked_':
                        out += ret(s2, some(v) if b else NONE)
                    elif pre == 'overflowing_':
                        out += ret(s2, Tup((v if b else e.wrap(s2, v, tyd), not b)))
                    elif b:
                        out += ret(s2, v)
                    else:
                        for s3, big in e.split(s2, p_ge(v - hi)):
                            out += ret(s3, P(hi if big else lo))
            return out
    if name in ('abs', 'unsigned_abs'):
        out = []
        for s, n in e.split(st, p_ge(-x - 1)):
            v = -x if n else x
            if name == 'unsigned_abs':
                out += ret(s, v)
                continue
            for s2, b in e.split(s, inr(v)):
                out += ret(s2, v) if b else panic(s2, 'abs overflow')
        return out
    if name == 'abs_diff':
        return [o for s, lt in e.split(st, p_lt(x, y)) for o in ret(s, y - x if lt else x - y)]
    if name == 'signum':
        out = []
        for s, o in cmp_states(e, st, x, ZERO):
            out += ret(s, P(o))
        return out
    if name == 'pow':
        v = mk_pow(x, y)
        return [o for s, b in e.split(st, inr(v)) for o in (ret(s, v) if b else panic(s, 'pow overflow'))]
    if name in ('ilog2', 'leading_zeros', 'trailing_zeros'):
        if name == 'ilog2':
            out = []
            for s, z in e.split(st, p_ge(x - 1)):
                if not z:
                    out += panic(s, 'ilog2 of zero')
                elif x.is_const:
                    out += ret(s, P(x.const.bit_length() - 1))
                else:
                    out += ret(s, s.ctx.mk_ilog2(x))
            return out
        if signed:
            return None
        if name == 'leading_zeros':
            if x.is_const:
                return ret(st, P(bits - x.const.bit_length()))
            lo, hi = st.ctx.range(x)
            if hi > (1 << bits) - 1:
                hi = (1 << bits) - 1
            lo, hi = int(max(lo, 0)), int(hi)
            out = []
            for k in range(lo.bit_length(), hi.bit_length() + 1):
                s = st.copy() if k < hi.bit_length() else st
                if k and not s.ctx.assume(p_ge(x - (1 << (k - 1)))) or not s.ctx.assume(p_ge(P((1 << k) - 1) - x)):
                    continue
                out += ret(s, P(bits - k))
            return out
        out = []
        for s, z in e.split(st, p_eq(x)):
            if z:
                out += ret(s, P(bits))
            else:
                out += ret(s, P(atom('ctz', (x,), 0, bits - 1)))
        return out
    if name in ('is_power_of_two', 'count_ones'):
        return None
    if name in ('is_negative', 'is_positive'):
        return ret(st, p_ge(-x - 1) if name == 'is_negative' else p_ge(x - 1))
    if name in ('rem_euclid', 'div_euclid', 'div_ceil', 'is_multiple_of', 'next_multiple_of'):
        out = []
        for s, z in e.split(st, p_eq(y)):
            if z:
                if name == 'is_multiple_of':
                    out += ret(s, p_eq(x))
                else:
                    out += panic(s, 'division by zero')
                continue
            if s.ctx.range(y)[0] < 0:
                return None
            q = s.ctx.mk_div(x, y)
            if name == 'rem_euclid':
                out += ret(s, x - y * q)
            elif name == 'div_euclid':
                out += ret(s, q)
            elif name == 'div_ceil':
                out += ret(s, s.ctx.mk_div(x + y - 1, y))
            elif name == 'is_multiple_of':
                out += ret(s, p_eq(x - y * q))
            else:
                return None
        return out
    return None


def cmp_states(e, st, a, b):
    return [(s, {0: -1, 1: 0, 2: 1}[o.v]) for s, o in e.cmp3(st, a, b)]


def minmax(e, st, name, a, b):
    out = []
    for s, lt in e.split(st, p_lt(b, a)):
        if name == 'min':
            out += ret(s, b if lt else a)
        else:
            out += ret(s, a if lt else b)
    return out


def models(e, st, finfo, key, args, depth):
    if finfo is None:
        return None
    path, decl = finfo['path'], finfo['decl']
    name = path.rsplit('::', 1)[-1]
    a0 = args[0] if args else None

    # panics
    if 'panicking' in path or path in ('std::rt::panic_fmt', 'core::panicking::panic_fmt', 'std::rt::begin_panic') or name in ('unwrap_failed', 'expect_failed', 'panic_fmt', 'panic_const', 'panic_display', 'panic_explicit'):
        if name.endswith('_default_msg') or name in ('panic', 'panic_fmt', 'panic_display', 'panic_explicit', 'assert_failed', 'panic_nounwind', 'unreachable_display') or name.startswith('panic_const'):
            return panic(st, 'panic')
        return panic(st, name)
    if name == 'handle_alloc_error':
        return []
    if e.text:
        r = text.models(e, st, name, path, decl, args, finfo, depth)
        if r is not None:
            return r
    # formatting and strings are opaque
    if 'fmt' in path.split('::')[:3] or path.startswith('core::fmt') or name in ('to_string', 'must_use') or path.startswith('std::fmt'):
        if name == 'must_use':
            return ret(st, a0)
        return ret(st, Str(None) if name in ('to_string', 'format') else Top('fmt'))

    # references / conversions
    if decl == 'std::ops::Deref::deref' or decl == 'std::ops::DerefMut::deref_mut' or name in ('as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_str'):
        if name in ('as_ref', 'as_mut') and isinstance(a0, Ref):
            v = e.load(st, a0.c, a0.path)
            if isinstance(v, Adt) and v.p == OPT:
                return ret(st, NONE if v.v == 0 else some(Ref(a0.c, a0.path + (('f', 0),))))
        return ret(st, a0)
    if decl == 'std::iter::IntoIterator::into_iter':
        it = to_iter(e, st, a0)
        if it is not None and not (isinstance(it, It) and it.k == 'byref'):
            return ret(st, it)
        return ret(st, a0)
    if decl == 'std::clone::Clone::clone' or name == 'to_owned':
        if isinstance(a0, Ref):
            v = e.load(st, a0.c, a0.path)
            if isinstance(v, (Poly, bool, tuple, VecNat, Str, It, Z)) or (isinstance(v, Adt) and not finfo['local']) or isinstance(v, VecV) or isinstance(v, Tup):
                return ret(st, v)
            if isinstance(v, Ref):
                return ret(st, v)
        if isinstance(a0, Str):
            return ret(st, a0)
        return None
    if decl == 'std::default::Default::default':
        t = e.prog.types[finfo['dargs'][0]] if finfo['dargs'] else None
        if t and t['k'] in ('int', 'uint'):
            return ret(st, ZERO)
        if t and t['k'] == 'bool':
            return ret(st, False)
        if t and t['k'] == 'adt' and t['p'] == 'std::vec::Vec':
            return ret(st, VecV(()))
        return None
    if decl in ('std::ops::Index::index', 'std::ops::IndexMut::index_mut'):
        if isinstance(a0, Str) or (isinstance(a0, Ref) and isinstance(e.load(st, a0.c, a0.path), Str)):
            return ret(st, Str(None))
        return index(e, st, a0, args[1])
    if decl in ('std::convert::From::from', 'std::convert::Into::into') and isinstance(a0, (Poly, bool, tuple)):
        t = e.prog.types[finfo['dargs'][0 if decl.endswith('from') else 1]]
        r = rng_of(t)
        if r is not None and t['k'] in ('int', 'uint'):
            if isinstance(a0, Poly):
                return ret(st, a0)
            return [o for s, b in e.split(st, a0) for o in ret(s, ONE if b else ZERO)]
    if decl in ('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into') and isinstance(a0, Poly):
        t = e.prog.types[finfo['dargs'][0 if decl.endswith('try_from') else 1]]
        r = rng_of(t)
        if r is not None and t['k'] in ('int', 'uint'):
            out = []
            for s, b in e.split(st, p_and(p_ge(a0 - r[0]), p_ge(P(r[1]) - a0))):
                out += ret(s, ok(a0) if b else err(Top('TryFromIntError')))
            return out
    # comparisons
    if decl.startswith('std::cmp::') and len(args) == 2:
        vs = []
        for x in args:
            for _ in range(5):
                if isinstance(x, Ref):
                    x = e.load(st, x.c, x.path)
            vs.append(x)
        x, y = vs
        if isinstance(x, Poly) and isinstance(y, Poly):
            if name in ('min', 'max'):
                return minmax(e, st, name, x, y)
            if name == 'cmp':
                return [Outcome('ret', s, o) for s, o in e.cmp3(st, x, y)]
            if name == 'partial_cmp':
                return [Outcome('ret', s, some(o)) for s, o in e.cmp3(st, x, y)]
            q = {'lt': p_lt(x, y), 'le': p_le(x, y), 'gt': p_lt(y, x), 'ge': p_le(y, x), 'eq': p_eq(x - y), 'ne': p_not(p_eq(x - y))}.get(name)
            if q is not None:
                return ret(st, q)
        if name in ('eq', 'ne') and not finfo['local']:
            simple = lambda v: isinstance(v, (bool, tuple, VecV, VecNat, Str)) or (isinstance(v, Adt) and not v.p.startswith('hmath')) or (isinstance(v, Adt) and not v.f)
            if simple(x) and simple(y):
                if isinstance(x, VecV) and any(isinstance(z, (Adt, Q, Z)) for z in x.xs + getattr(y, 'xs', ())):
                    return vec_eq_deep(e, st, x, y, name, finfo, depth)
                q = val_eq(e, st, x, y)
                if q is not None:
                    return ret(st, q if name == 'eq' else p_not(q))
    if path.startswith('std::cmp::Ordering::') and isinstance(a0, Adt):
        t = {0: -1, 1: 0, 2: 1}[a0.v]
        q = {'is_lt': t < 0, 'is_gt': t > 0, 'is_eq': t == 0, 'is_ne': t != 0, 'is_le': t <= 0, 'is_ge': t >= 0}.get(name)
        if q is not None:
            return ret(st, q)
        if name == 'reverse':
            return ret(st, (GREATER, EQUAL, LESS)[a0.v])
        if name == 'then':
            return ret(st, args[1] if t == 0 else a0)
    if name in ('min', 'max') and path.startswith('std::cmp::') and isinstance(a0, Poly) and isinstance(args[1], Poly):
        return minmax(e, st, name, a0, args[1])
    # numbers
    if path.startswith('core::num::<impl ') or path.startswith('std::num::<impl '):
        ty = int_ty(path)
        if ty:
            r = num_method(e, st, name, ty, args)
            if r is not None:
                return r
    if path.startswith('core::f32::<impl') or path.startswith('core::f64::<impl') or '<impl f32>' in path or '<impl f64>' in path:
        if name == 'from_bits' and isinstance(a0, Poly):
            return ret(st, Bits(a0, 32 if 'f32' in path else 64))
        if name == 'to_bits' and isinstance(a0, Bits):
            return ret(st, a0.p)
        return None
    # arithmetic through operator traits on references to primitives
    if decl.startswith('std::ops::') and len(args) == 2 and not finfo['local']:
        x = e.deref(st, args[0]) if isinstance(args[0], Ref) else args[0]
        y = e.deref(st, args[1]) if isinstance(args[1], Ref) else args[1]
        if isinstance(x, Poly) and isinstance(y, Poly):
            f = e.prog.fns.get(key)
            if f is not None:
                return None
    # iterators
    if decl.startswith('std::iter::Iterator::') or decl.startswith('std::iter::DoubleEndedIterator::') or decl.startswith('std::iter::ExactSizeIterator::'):
        r = iter_method(e, st, decl.rsplit('::', 1)[-1], args, finfo, depth)
        if r is not None:
            return r
        return None
    if path.startswith('std::ops::RangeInclusive') and name == 'new':
        return ret(st, Adt(RANGEI, 0, (args[0], args[1], False)))
    # Vec / slice
    if 'Vec' in path and path.startswith('std::vec::') or path.startswith('<std::vec::') or '<impl [T]>' in path or path.startswith('std::boxed') or path.startswith('std::slice') or path.startswith('core::slice') or path.startswith('alloc::slice') or path == 'std::vec::from_elem':
        r = vec_method(e, st, name, path, decl, args, finfo, depth)
        if r is not None:
            return r
    if 'array' in path and name in ('map', 'iter'):
        return None
    # strings
    if path.startswith('std::string::') or '<impl str>' in path or path.startswith('<std::string::') or path.startswith('<str as') or 'std::str::' in path:
        return ret(st, Top('str'))
    # Option / Result natively (their bodies only move values)
    r = optres(e, st, name, path, args, finfo, depth)
    if r is not None:
        return r
    if path in ('std::mem::swap', 'std::mem::replace', 'std::mem::take') and isinstance(a0, Ref):
        v = e.load(st, a0.c, a0.path)
        if name == 'swap':
            w = e.load(st, args[1].c, args[1].path)
            e.store(st, a0.c, a0.path, w)
            e.store(st, args[1].c, args[1].path, v)
            return ret(st, UNIT)
        if name == 'replace':
            e.store(st, a0.c, a0.path, args[1])
            return ret(st, v)
        if isinstance(v, VecV):
            e.store(st, a0.c, a0.path, VecV(()))
            return ret(st, v)
    if path.startswith('rand::'):
        return top(st, 'random')
    if name in ('call', 'call_mut', 'call_once') and decl.startswith('std::ops::Fn'):
        al = args[1].f if len(args) > 1 and isinstance(args[1], Tup) else args[1:]
        return e.call_value(st, a0, list(al), depth)
    if name in ('drop', 'drop_in_place', 'forget'):
        return ret(st, UNIT)
    return None


def vec_eq_deep(e, st, x, y, name, finfo, depth):
    if not isinstance(y, VecV):
        return top(st, 'vec eq')
    if len(x.xs) != len(y.xs):
        return ret(st, name != 'eq')
    # element equality through the element's own PartialEq implementation
    pth = None
    for z in x.xs + y.xs:
        if isinstance(z, Adt):
            pth = z.p
    f = None
    if pth:
        for k, g in e.prog.fns.items():
            if g['local'] and g['name'] == 'eq' and g['trait'] and g['trait'].startswith('std::cmp::PartialEq') and g['self'] == pth:
                f = g
    if f is None:
        q = val_eq(e, st, x, y)
        return ret(st, q if name == 'eq' else p_not(q)) if q is not None else top(st, 'vec eq')
    res = ret(st, True)
    for a, b in zip(x.xs, y.xs):
        def step(s, acc, a=a, b=b):
            if acc is False:
                return ret(s, False)
            ca, cb = ('eqa', e.fresh()), ('eqb', e.fresh())
            s.cells[ca], s.cells[cb] = a, b
            return each(e.call(s, f['key'], [Ref(ca), Ref(cb)], depth + 1), lambda s2, v: ret(s2, p_and(acc, v)) if isinstance(v, (bool, tuple)) else top(s2, 'vec eq'))
        res = each(res, step)
    if name == 'ne':
        res = each(res, lambda s, v: ret(s, p_not(v)) if isinstance(v, (bool, tuple)) else ret(s, v))
    return res


def optres(e, st, name, path, args, finfo, depth):
    a0 = args[0] if args else None
    if not (path.startswith('std::option::Option') or path.startswith('std::result::Result') or '<std::option::Option' in path or '<std::result::Result' in path):
        return None
    v = a0
    if isinstance(v, Ref):
        v = e.load(st, v.c, v.path)
    if not isinstance(v, Adt) or v.p not in (OPT, RES):
        return None
    good = v.v == (1 if v.p == OPT else 0)
    if name in ('unwrap', 'expect'):
        return ret(st, v.f[0]) if good else panic(st, name)
    if name == 'unwrap_or':
        return ret(st, v.f[0] if good else args[1])
    if name == 'unwrap_unchecked' and good:
        return ret(st, v.f[0])
    if name == 'unwrap_or_else':
        if good:
            return ret(st, v.f[0])
        return e.call_value(st, args[1], [] if v.p == OPT else [v.f[0]], depth)
    if name in ('is_some', 'is_ok'):
        return ret(st, good)
    if name in ('is_none', 'is_err'):
        return ret(st, not good)
    if name == 'map':
        if not good:
            return ret(st, v)
        return each(e.call_value(st, args[1], [v.f[0]], depth), lambda s, w: ret(s, Adt(v.p, v.v, (w,))))
    if name == 'and_then':
        if not good:
            return ret(st, v)
        return e.call_value(st, args[1], [v.f[0]], depth)
    if name == 'map_err':
        if good:
            return ret(st, v)
        return each(e.call_value(st, args[1], [v.f[0]], depth), lambda s, w: ret(s, err(w)))
    if name == 'map_or':
        if not good:
            return ret(st, args[1])
        return e.call_value(st, args[2], [v.f[0]], depth)
    if name == 'map_or_else':
        if not good:
            return e.call_value(st, args[1], [] if v.p == OPT else [v.f[0]], depth)
        return e.call_value(st, args[2], [v.f[0]], depth)
    if name in ('is_some_and', 'is_ok_and', 'is_none_or'):
        if not good:
            return ret(st, name == 'is_none_or')
        return e.call_value(st, args[1], [v.f[0]], depth)
    if name == 'ok':
        return ret(st, some(v.f[0]) if good else NONE)
    if name == 'ok_or':
        return ret(st, ok(v.f[0]) if good else err(args[1]))
    if name == 'ok_or_else':
        if good:
            return ret(st, ok(v.f[0]))
        return each(e.call_value(st, args[1], [], depth), lambda s, w: ret(s, err(w)))
    if name == 'or':
        return ret(st, v if good else args[1])
    if name in ('copied', 'cloned'):
        return ret(st, some(e.deref(st, v.f[0])) if good else v)
    if name == 'take' and isinstance(a0, Ref):
        e.store(st, a0.c, a0.path, NONE)
        return ret(st, v)
    return None


def vec_method(e, st, name, path, decl, args, finfo, depth):
    a0 = args[0] if args else None
    if name in ('new', 'with_capacity') and 'Vec' in path:
        return ret(st, VecV(()))
    if name == 'new_uninit':
        c = ('box', e.fresh())
        inner = Top('uninit')
        for _ in range(3):
            inner = Adt('md', 0, (inner,))
        st.cells[c] = Adt('union', 0, (Top('uninit'), inner))
        return ret(st, Adt('Box', 0, (Ref(c),)))
    if name == 'box_assume_init_into_vec_unsafe' and isinstance(a0, Adt):
        v = e.load(st, a0.f[0].c, ())
        for _ in range(6):
            if isinstance(v, Adt):
                v = v.f[1] if v.p == 'union' else v.f[0]
        if isinstance(v, VecV):
            del st.cells[a0.f[0].c]
        return ret(st, v if isinstance(v, VecV) else Top('box'))
    if name == 'new' and 'Box' in path:
        c = ('box', e.fresh())
        st.cells[c] = a0
        return ret(st, Ref(c))
    if name in ('into_vec', 'into_boxed_slice'):
        v = seq_of(e, st, a0)
        return ret(st, v)
    if name == 'from_elem':
        n = args[1]
        if isinstance(n, Poly):
            n = st.ctx.simp(n)
            if n.is_const and n.const <= 4096:
                return ret(st, VecV((a0,) * n.const))
            return top(st, 'from_elem of unknown length')
        return top(st, 'from_elem')
    v = seq_of(e, st, a0)
    r = a0
    if isinstance(a0, Ref):
        for _ in range(4):
            w = e.load(st, r.c, r.path)
            if isinstance(w, Ref):
                r = w
    if isinstance(v, Top):
        if isinstance(r, Ref) and name in ('push', 'pop', 'reverse', 'insert', 'truncate', 'extend_from_slice', 'clear', 'remove', 'resize', 'sort', 'append'):
            return top(st, v.why) if name in ('pop', 'remove') else ret(st, UNIT)
        return top(st, v.why)
    if name == 'len':
        return ret(st, e.length(st, v))
    if name == 'is_empty':
        n = e.length(st, v)
        return ret(st, p_eq(n)) if isinstance(n, Poly) else top(st, 'is_empty')
    if name in ('to_vec', 'clone', 'into_boxed_slice'):
        return ret(st, v)
    if name in ('reserve', 'shrink_to_fit', 'reserve_exact'):
        return ret(st, UNIT)
    if name in ('iter', 'iter_mut'):
        if isinstance(v, VecV) and isinstance(r, Ref):
            return ret(st, It('sl', r, 0, len(v.xs)))
        return top(st, 'iter over unknown length')
    if isinstance(v, VecNat):
        # exact length-one / known length refinement
        n = mk_len(v.p)
        if name in ('get', 'first', 'last'):
            return top(st, name)
        if name in ('push', 'pop', 'insert', 'remove', 'truncate', 'reverse', 'clear', 'extend_from_slice', 'resize', 'append', 'swap', 'split_off', 'drain', 'retain', 'fill'):
            if isinstance(r, Ref):
                e.store(st, r.c, r.path, Top('limb vector edited'))
            return top(st, name)
        return top(st, name)
    if not isinstance(v, VecV):
        return None
    xs = v.xs

    def put(ys):
        e.store(st, r.c, r.path, VecV(ys))
    if name == 'push':
        put(xs + (args[1],))
        return ret(st, UNIT)
    if name == 'pop':
        if not xs:
            return ret(st, NONE)
        put(xs[:-1])
        return ret(st, some(xs[-1]))
    if name == 'reverse':
        put(xs[::-1])
        return ret(st, UNIT)
    if name == 'clear':
        put(())
        return ret(st, UNIT)
    if name in ('first', 'last', 'first_mut', 'last_mut'):
        if not xs:
            return ret(st, NONE)
        return ret(st, some(Ref(r.c, r.path + (('ix', 0 if name.startswith('first') else len(xs) - 1),))))
    try:
        if name == 'truncate':
            n = cst(st, args[1])
            put(xs[:n])
            return ret(st, UNIT)
        if name == 'insert':
            i = cst(st, args[1])
            if i > len(xs):
                return panic(st, 'insert')
            put(xs[:i] + (args[2],) + xs[i:])
            return ret(st, UNIT)
        if name in ('remove', 'swap_remove'):
            i = cst(st, args[1])
            if i >= len(xs):
                return panic(st, 'remove')
            if name == 'remove':
                put(xs[:i] + xs[i + 1:])
            else:
                ys = list(xs)
                ys[i] = ys[-1]
                put(tuple(ys[:-1]))
            return ret(st, some(xs[i]) if False else xs[i])
        if name == 'resize':
            n = cst(st, args[1])
            put(xs[:n] + (args[2],) * max(0, n - len(xs)))
            return ret(st, UNIT)
        if name == 'split_off':
            i = cst(st, args[1])
            put(xs[:i])
            return ret(st, VecV(xs[i:]))
        if name == 'split_at' or name == 'split_at_mut':
            i = cst(st, args[1])
            if i > len(xs):
                return panic(st, 'split_at')
            return ret(st, Tup((Ref(r.c, r.path + (('sub', 0, i),)), Ref(r.c, r.path + (('sub', i, len(xs)),)))))
        if name == 'swap':
            i, j = cst(st, args[1]), cst(st, args[2])
            if i >= len(xs) or j >= len(xs):
                return panic(st, 'swap')
            ys = list(xs)
            ys[i], ys[j] = ys[j], ys[i]
            put(tuple(ys))
            return ret(st, UNIT)
        if name in ('rotate_left', 'rotate_right'):
            i = cst(st, args[1])
            if i > len(xs):
                return panic(st, 'rotate')
            if name == 'rotate_right':
                i = len(xs) - i
            put(xs[i:] + xs[:i])
            return ret(st, UNIT)
        if name in ('chunks', 'chunks_exact'):
            n = cst(st, args[1])
            return ret(st, It('chunks', r, 0, len(xs), n, name != 'chunks'))
        if name == 'windows':
            return ret(st, It('windows', r, 0, len(xs), cst(st, args[1])))
    except Fuzzy:
        if name in ('truncate', 'insert', 'remove', 'resize', 'split_off', 'swap'):
            e.store(st, r.c, r.path, Top('vector edited at unknown position'))
        return top(st, name)
    if name in ('extend_from_slice', 'append', 'extend'):
        if name == 'extend':
            it = to_iter(e, st, args[1])
            if it is None:
                put(())
                e.store(st, r.c, r.path, Top('extend'))
                return ret(st, UNIT)

            def fin(s, ys):
                cur = e.load(s, r.c, r.path)
                ys = tuple(e.deref(s, y) if isinstance(y, Ref) else y for y in ys)
                e.store(s, r.c, r.path, VecV(cur.xs + ys))
                return ret(s, UNIT)
            return each(drain(e, st, it, depth), fin)
        w = seq_of(e, st, args[1])
        if isinstance(w, VecV):
            put(xs + w.xs)
            if name == 'append':
                e.store(st, args[1].c, args[1].path, VecV(()))
        else:
            e.store(st, r.c, r.path, Top(name))
        return ret(st, UNIT)
    if name == 'fill':
        put((args[1],) * len(xs))
        return ret(st, UNIT)
    if name == 'copy_from_slice' or name == 'clone_from_slice':
        w = seq_of(e, st, args[1])
        if isinstance(w, VecV) and len(w.xs) == len(xs):
            put(w.xs)
            return ret(st, UNIT)
        return panic(st, name)
    if name in ('get', 'get_mut'):
        i = args[1]
        if isinstance(i, Poly):
            out = []
            for s, b in e.split(st, p_lt(i, P(len(xs)))):
                if not b:
                    out += ret(s, NONE)
                else:
                    out += each(index(e, s, r, i), lambda s2, q: ret(s2, some(q)))
            return out
        return top(st, 'get range')
    if name == 'concat':
        acc = ()
        for x in xs:
            x = seq_of(e, st, x)
            if not isinstance(x, VecV):
                return ret(st, text.joined(e, st, xs, '')) if isinstance(x, Str) else top(st, 'concat')
            acc += x.xs
        return ret(st, VecV(acc))
    if name == 'join':
        sep = text.pieces(e, st, args[1]) if len(args) > 1 else None
        return ret(st, text.joined(e, st, xs, sep))
    if name == 'contains':
        acc = False
        for x in xs:
            q = val_eq(e, st, x, args[1])
            if q is None:
                return top(st, 'contains')
            acc = p_or(acc, q)
        return ret(st, acc)
    if name in ('into_iter', 'drain') and decl != 'std::iter::IntoIterator::into_iter':
        return top(st, name)
    if name in ('eq', 'ne') and len(args) == 2:
        q = val_eq(e, st, v, args[1])
        if q is None:
            return top(st, 'vec eq')
        return ret(st, q if name == 'eq' else p_not(q))
    return top(st, name)
