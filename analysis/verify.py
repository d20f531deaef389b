"""Obligations: analyse a function body against its summary, cell by cell."""
import random
import os
import time
from engine import *
from engine import Engine, Outcome
from expr import *
from ctx import *
import expr as X
import specs as SP
from specs import *
import stdmodels
import text
from stdmodels import vec_nat, val_eq, ret

MASK = (1 << 32) - 1


class Layout:
    """field positions of the number types, found by field type"""

    def __init__(self, prog):
        self.ok = True
        self.bi_val = self.bi_neg = self.rat_d = self.rat_n = None
        for t in prog.types:
            if t['k'] != 'adt' or not t.get('local'):
                continue
            fs = t['v'][0]['f'] if t['v'] else []
            names = [f['n'] for f in fs]
            tys = [prog.types[f['t']] if f['t'] >= 0 else None for f in fs]
            if t['p'] == BI:
                for i, ft in enumerate(tys):
                    if ft and ft['k'] == 'adt' and ft['p'] == UBI:
                        self.bi_val = i
                    elif ft and ft['k'] == 'bool':
                        self.bi_neg = i
                if len(fs) != 2:
                    self.bi_val = None
            if t['p'] == UBI:
                self.ubi_ok = len(fs) == 1 and tys[0] and tys[0]['k'] == 'adt' and tys[0]['p'] == 'std::vec::Vec'
            if t['p'] == RAT:
                if len(fs) == 2:
                    for i, n in enumerate(names):
                        if 'denom' in n:
                            self.rat_d = i
                        elif 'numer' in n:
                            self.rat_n = i
        if self.bi_val is None or self.bi_neg is None:
            self.ok = False


class Finding:
    def __init__(self, fn, aspect, what, where, witness, key=None):
        self.fn, self.aspect, self.what, self.where, self.witness = fn, aspect, what, where, witness
        self.key = key or '%s|%s' % (fn, aspect)

    def __repr__(self):
        return '%s [%s] %s at %s; e.g. %s' % (self.fn, self.aspect, self.what, self.where, self.witness)


class Report:
    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.vacuous = 0
        self.undecided = []
        self.findings = []
        self.cells = 0
        self.steps = 0
        self.inlined = set()
        self.summaries = set()
        self.wall = 0


class Verifier:
    def __init__(self, prog, specs=None, seed=1, nocontract=()):
        self.prog = prog
        self.lay = Layout(prog)
        self.specs = specs if specs is not None else SP.SPECS
        self.seed = seed
        self.contracts = {}
        for n, fn in self.specs.items():
            # only what a user can call has a meaning of its own; private helpers are inlined
            if n in prog.names and prog.names[n].get('reach') and n not in nocontract and n not in SP.NOCONTRACT:
                self.contracts[n] = self.mk_contract(n, fn)
        self.nsym = 0
        self.cd = None
        self.syms = []
        self.extra_readers = {}

    # ------------------------------------------------------------- kinds
    def tk(self, ti):
        t = self.prog.types[ti]
        k = t['k']
        if k == 'ref':
            return ('ref', t['mut'], self.tk(t['e']))
        if k in ('int', 'uint'):
            lo, hi = rng_of(t)
            return ('int', lo, hi)
        if k == 'bool':
            return ('bool',)
        if k == 'float':
            return ('float', t['bits'])
        if k == 'str':
            return ('str',)
        if k == 'tuple':
            if not t['es']:
                return ('unit',)
            return ('tuple',) + tuple(self.tk(e) for e in t['es'])
        if k in ('slice', 'array'):
            return ('vec', self.tk(t['e']))
        if k == 'adt':
            if t['p'] == UBI:
                return ('U',)
            if t['p'] == BI:
                return ('Z',)
            if t['p'] == RAT:
                return ('Q',)
            if t['p'] == MAT and self.lay_mat(t):
                return ('M',)
            if t['p'] == POL and self.lay_pol(t):
                return ('P',)
            if t['p'] == ORD:
                return ('ord',)
            if t['p'] == RES:
                return ('res', self.tk(t['a'][0]))
            if t['p'] == OPT:
                return ('opt', self.tk(t['a'][0]))
            if t['p'] == 'std::string::String':
                return ('str',)
            if t['p'] == 'std::fmt::Formatter':
                return ('fmt',)
            if t['p'] == 'std::vec::Vec':
                return ('vec', self.tk(t['a'][0]))
            if t.get('local') and not t['enum'] and t['v']:
                fs = t['v'][0]['f']
                if all(f['t'] >= 0 for f in fs):
                    return ('struct', t['p'], tuple(self.tk(f['t']) for f in fs))
            return ('adt', t['p'])
        return ('?', t['s'])

    def lay_mat(self, t):
        fs = t['v'][0]['f']
        pos = {f['n']: i for i, f in enumerate(fs)}
        if len(fs) == 3 and set(pos) == {'data', 'cols', 'rows'}:
            self.mat_pos = (pos['data'], pos['cols'], pos['rows'])
            return True
        return False

    def lay_pol(self, t):
        return len(t['v'][0]['f']) == 1

    # ------------------------------------------------------- read abstract
    def rd(self, e, st, kind, v):
        """-> list of (state, semantic value, canonical predicate) or None"""
        k = kind[0]
        if k == 'ref':
            if isinstance(v, Ref):
                v = e.load(st, v.c, v.path)
            return self.rd(e, st, kind[2], v)
        if isinstance(v, Ref) and k not in ('str',):
            v = e.load(st, v.c, v.path)
        if isinstance(v, Top):
            return None
        if k == 'int':
            if isinstance(v, Poly):
                return [(st, v, True)]
            return None
        if k == 'bool':
            if isinstance(v, (bool, tuple)):
                return [(st, v, True)]
            return None
        if k == 'U':
            if isinstance(v, Adt) and v.p == UBI and len(v.f) == 1:
                s = v.f[0]
                if isinstance(s, VecNat):
                    return [(st, s.p, True)]
                if isinstance(s, VecV) and all(isinstance(x, Poly) for x in s.xs):
                    if not s.xs:
                        return [(st, ZERO, False)]
                    c = True if len(s.xs) == 1 else p_not(p_eq(s.xs[-1]))
                    return [(st, vec_nat(s), c)]
            return None
        if k == 'Z':
            if isinstance(v, Z):
                return [(st, v.p, True)]
            if isinstance(v, Adt) and v.p == BI and self.lay.ok:
                r = self.rd(e, st, ('U',), v.f[self.lay.bi_val])
                neg = v.f[self.lay.bi_neg]
                if r is None or not isinstance(neg, (bool, tuple)):
                    return None
                out = []
                for s, p, c in r:
                    for s2, n in e.split(s, neg):
                        out.append((s2, -p if n else p, p_and(c, p_not(p_eq(p))) if n else c))
                return out
            return None
        if k == 'Q':
            if isinstance(v, Q):
                return [(st, v, True)]
            if isinstance(v, Adt) and v.p == RAT and self.lay.rat_d is not None and self.lay.rat_n is not None:
                a = self.rd(e, st, ('Z',), v.f[self.lay.rat_n])
                if a is None:
                    return None
                out = []
                for s, n, c in a:
                    b = self.rd(e, s, ('Z',), v.f[self.lay.rat_d])
                    if b is None:
                        return None
                    for s2, d, c2 in b:
                        out.append((s2, Q(n, d), ('canonQ', n, d, p_and(c, c2))))
                return out
            return None
        if k == 'M':
            if not isinstance(v, Adt) or v.p != MAT:
                return None
            data, cols, rows = (v.f[i] for i in self.mat_pos)
            if not (isinstance(cols, Poly) and isinstance(rows, Poly)):
                return None
            cols, rows = st.ctx.simp(cols), st.ctx.simp(rows)
            if not (cols.is_const and rows.is_const):
                return None
            r = self.rd(e, st, ('vec', ('vec', ('Q',))), data)
            if r is None:
                return None
            out = []
            for s, x, c in r:
                grid = x[1:]
                good = len(grid) == rows.const and all(len(g) - 1 == cols.const for g in grid)
                out.append((s, ('mat', rows.const, cols.const, tuple(g[1:] for g in grid)), c if good else False))
            return out
        if k == 'P':
            if not isinstance(v, Adt) or v.p != POL:
                return None
            if isinstance(v.f[0], TrimV):
                return [(st, ('pol', v.f[0].xs, 'trim'), True)]
            r = self.rd(e, st, ('vec', ('Q',)), v.f[0])
            if r is None:
                return None
            out = []
            for s, x, c in r:
                cs = x[1:]
                can = False if not cs else True if len(cs) == 1 else p_not(p_eq(cs[0].n))
                out.append((s, ('pol', cs), ('all', c, can)))
            return out
        if k == 'ord':
            if isinstance(v, Adt) and v.p == ORD:
                return [(st, v, True)]
            return None
        if k in ('res', 'opt'):
            if isinstance(v, Adt) and v.p in (RES, OPT):
                good = v.v == (0 if v.p == RES else 1)
                if not good:
                    return [(st, ERR if k == 'res' else NONEV, True)]
                r = self.rd(e, st, kind[1], v.f[0])
                if r is None:
                    return None
                return [(s, ('ok' if k == 'res' else 'some', x), c) for s, x, c in r]
            return None
        if k == 'unit':
            return [(st, UNIT, True)]
        if k in ('tuple', 'vec', 'struct'):
            if k == 'vec':
                if isinstance(v, VecNat):
                    return None
                if not isinstance(v, VecV):
                    return None
                items = [(kind[1], x) for x in v.xs]
            elif k == 'tuple':
                if not isinstance(v, Tup):
                    return None
                items = list(zip(kind[1:], v.f))
            else:
                if not isinstance(v, Adt) or v.p != kind[1]:
                    return None
                items = list(zip(kind[2], v.f))
            cur = [(st, (), True)]
            for kk, x in items:
                nx = []
                for s, acc, c in cur:
                    r = self.rd(e, s, kk, x)
                    if r is None:
                        return None
                    for s2, y, c2 in r:
                        nx.append((s2, acc + (y,), ('all', c, c2)))
                cur = nx
            return [(s, ('seq',) + acc, c) for s, acc, c in cur]
        if k == 'float':
            if isinstance(v, Bits):
                return [(st, v, True)]
            return None
        if k == 'str':
            ps = text.pieces(e, st, v)
            return None if ps is None else [(st, ('txt',) + tuple(ps), True)]
        if k == 'fmt':
            if isinstance(v, Adt) and len(v.f) == 2:
                ps = text.pieces(e, st, v.f[0])
                return None if ps is None else [(st, ('txt',) + tuple(ps), True)]
        return None

    # ------------------------------------------------------ write abstract
    def wr(self, kind, x):
        k = kind[0]
        if k == 'U':
            return Adt(UBI, 0, (VecNat(x),))
        if k == 'Z':
            return Z(x)
        if k == 'Q':
            return x
        if k in ('int', 'bool', 'ord', 'float'):
            return x
        if k == 'str':
            return text.mk(x[1:])
        if k == 'fmt':
            return Adt('std::fmt::Formatter', 0, (text.mk(()), x))
        if k == 'M':
            f = [None] * 3
            f[self.mat_pos[0]], f[self.mat_pos[1]], f[self.mat_pos[2]] = VecV([VecV(g) for g in x[3]]), P(x[2]), P(x[1])
            return Adt(MAT, 0, f)
        if k == 'P':
            return Adt(POL, 0, (TrimV(x[1]) if len(x) > 2 and len(x[1]) > 1 else VecV(x[1]),))
        if k == 'res':
            if x is ERR:
                return err(Top('error value'))
            return ok(self.wr(kind[1], x[1]))
        if k == 'opt':
            if x is NONEV:
                return NONE
            return some(self.wr(kind[1], x[1]))
        if k == 'unit':
            return UNIT
        if isinstance(x, tuple) and x and x[0] == 'seq':
            x = x[1:]
        if k == 'tuple':
            return Tup([self.wr(a, b) for a, b in zip(kind[1:], x)])
        if k == 'vec':
            return VecV([self.wr(kind[1], b) for b in x])
        if k == 'struct':
            return Adt(kind[1], 0, [self.wr(a, b) for a, b in zip(kind[2], x)])
        return Top('wr')

    # ----------------------------------------------------------- contracts
    def sig(self, f):
        args = [self.tk(t) for t in f['locals'][1:1 + f['argc']]]
        res = self.tk(f['locals'][0])
        outi = None
        if res[0] == 'unit':
            for i, a in enumerate(args):
                if a[0] == 'ref' and a[1]:
                    outi = i
                    res = a[2]
                    break
        return args, res, outi

    def mk_contract(self, name, fn):
        f = self.prog.names[name]
        args_k, res_k, outi = self.sig(f)

        def contract(e, st, args):
            if name == 'UBigInt::len' and args and isinstance(args[0], Ref):
                # digits are at hand: the body itself is more precise than its summary
                v = e.load(st, args[0].c, args[0].path)
                if isinstance(v, Adt) and v.p == UBI and len(v.f) == 1 and isinstance(v.f[0], VecV):
                    return self.fallback(e, st, f, args, name)
            cur = [(st, ())]
            for k, a in zip(args_k, args):
                nx = []
                for s, acc in cur:
                    r = self.rd(e, s, k, a)
                    if r is None:
                        return self.fallback(e, s, f, args, name)
                    for s2, x, c in r:
                        d = self.canon_decide(s2, c)
                        if d is None:
                            out = []
                            # precondition not established: analyse the body itself
                            return self.fallback(e, s2, f, args, name)
                        if d is False:
                            return self.fallback(e, s2, f, args, name)
                        nx.append((s2, acc + (x,)))
                cur = nx
            out = []
            for s, xs in cur:
                cases = as_cases(fn(s.ctx, *[s.ctx.simp(x) if isinstance(x, Poly) else Q(s.ctx.simp(x.n), s.ctx.simp(x.d)) if isinstance(x, Q) else x for x in xs]))
                rest = s
                for i, (q, r) in enumerate(cases):
                    if rest is None:
                        break
                    nxt = None
                    for s2, o in e.split(rest, q):
                        if o:
                            out.extend(self.apply(e, s2, r, res_k, outi, args, name))
                        else:
                            nxt = s2
                    rest = nxt
            return out
        return contract

    def canon_decide(self, st, c):
        if isinstance(c, bool):
            return c
        if c[0] == 'canonQ':
            return True if self.canon_decide(st, c[3]) is True else None
        if c[0] == 'all':
            a, b = self.canon_decide(st, c[1]), self.canon_decide(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        return st.ctx.decide(c)

    def fallback(self, e, st, f, args, name):
        e.inlined.add(name)
        if e.depth_guard > 12:
            return [Outcome('ret', st, Top('recursion'))]
        e.depth_guard += 1
        try:
            return e.exec_fn(st, f, args, 5)
        finally:
            e.depth_guard -= 1

    def apply(self, e, st, r, res_k, outi, args, name):
        if callable(r) or isinstance(r, list):
            r = r(st.ctx) if callable(r) else r
            if isinstance(r, list):
                out = []
                rest = st
                for q, v in r:
                    if rest is None:
                        break
                    nxt = None
                    for s2, o in e.split(rest, q):
                        if o:
                            out.extend(self.apply(e, s2, v, res_k, outi, args, name))
                        else:
                            nxt = s2
                    rest = nxt
                return out
        if isinstance(r, SP.Upd):
            # result plus the new value of a mutable argument
            f = self.prog.names[name]
            ks = self.sig(f)[0]
            for i, x in r.new.items():
                if not isinstance(args[i], Ref):
                    return [Outcome('top', st, None, 'out argument')]
                e.store(st, args[i].c, args[i].path, self.wr(ks[i][2], x))
            return ret(st, self.wr(res_k, r.res))
        if r is PANIC:
            return [Outcome('panic', st, None, 'panic in ' + name)]
        if r is ANY:
            return [Outcome('top', st, None, 'outside the range covered by the summary of ' + name)]
        if isinstance(r, Poly):
            r = st.ctx.simp(r)
        v = self.wr(res_k, r)
        if outi is not None:
            ref = args[outi]
            if not isinstance(ref, Ref):
                return [Outcome('top', st, None, 'out argument')]
            e.store(st, ref.c, ref.path, v)
            return ret(st, UNIT)
        return ret(st, v)

    # -------------------------------------------------------------- inputs
    def sym(self, st, name, lo, hi):
        p = sym(name, lo, hi)
        self.syms.append(p.single_atom())
        return p

    def mk_input(self, e, st, kind, name, shape=None):
        """-> (value, semantic value)"""
        k = kind[0]
        if k == 'ref':
            v, x = self.mk_input(e, st, kind[2], name, shape)
            c = ('in', name, e.fresh())
            st.cells[c] = v
            return Ref(c), x
        if k == 'int':
            if shape is not None and isinstance(shape, int):
                return P(shape), P(shape)
            lo, hi = kind[1], kind[2]
            if isinstance(shape, tuple) and shape[0] == 'range':
                lo, hi = max(lo, shape[1]), min(hi, shape[2])
            p = self.sym(st, name, lo, hi)
            return p, p
        if k == 'bool':
            p = self.sym(st, name, 0, 1)
            return p_eq(p - 1), p_eq(p - 1)
        if k == 'U':
            if isinstance(shape, int):       # number of limbs
                xs = []
                for i in range(shape):
                    lo = 1 if (i == shape - 1 and shape > 1) else 0
                    xs.append(self.sym(st, '%s%d' % (name, i), lo, MASK))
                return Adt(UBI, 0, (VecV(xs),)), vec_nat(VecV(xs))
            lo, hi = 0, INF
            if isinstance(shape, tuple) and shape[0] == 'range':
                lo, hi = shape[1], shape[2]
            p = self.sym(st, name, lo, hi)
            if isinstance(shape, tuple) and shape[0] == 'limbs':
                st.ctx.assume(p_ge(mk_len(p) - shape[1]))
                if shape[2] != INF:
                    st.ctx.assume(p_ge(P(shape[2]) - mk_len(p)))
            return Adt(UBI, 0, (VecNat(p),)), p
        if k == 'Z' and isinstance(shape, tuple) and shape[0] == 'signed' and self.lay.ok:
            v, p = self.mk_input(e, st, ('U',), name, shape[1])
            if shape[2] and shape[1] == 1:
                st.ctx.assume(p_ge(p - 1))
            f = [None, None]
            f[self.lay.bi_val], f[self.lay.bi_neg] = v, bool(shape[2])
            return Adt(BI, 0, f), -p if shape[2] else p
        if k == 'Z':
            p = self.sym(st, name, -INF, INF)
            if isinstance(shape, tuple) and shape[0] == 'range':
                st.ctx.assume(p_ge(p - shape[1])) if shape[1] != -INF else None
                st.ctx.assume(p_ge(P(shape[2]) - p)) if shape[2] != INF else None
            return Z(p), p
        if k == 'Q' and shape == 'cd':
            x = self.qin(st, name)
            return x, x
        if k == 'Q':
            n = self.sym(st, name + 'n', -INF, INF)
            d = self.sym(st, name + 'd', 1, INF)
            # reduced: gcd(n, d) = 1
            g = st.ctx.mk_gcd(n, d)
            st.ctx.assume(p_eq(g - 1))
            st.ctx.cop = st.ctx.cop + [(n, d)]
            if shape == 'abs':
                return Q(n, d), Q(n, d)
            f = [None, None]
            f[self.lay.rat_d], f[self.lay.rat_n] = Z(d), Z(n)
            return Adt(RAT, 0, f), Q(n, d)
        if k == 'Q' and False:
            pass
        if k == 'M':
            r, c = shape
            grid = tuple(tuple(self.qin(st, '%s%d%d' % (name, i, j)) for j in range(c)) for i in range(r))
            x = ('mat', r, c, grid)
            return self.wr(kind, x), x
        if k == 'P':
            cs = tuple(self.qin(st, '%s%d' % (name, shape - 1 - i)) for i in range(shape))
            if shape > 1:
                st.ctx.assume(p_not(p_eq(cs[0].n)))
            x = ('pol', cs)
            return self.wr(kind, x), x
        if k == 'opt':
            if shape is None or shape == 'none':
                return NONE, NONEV
            v, x = self.mk_input(e, st, kind[1], name, shape)
            return some(v), ('some', x)
        if k == 'tuple':
            vs, xs = [], []
            shp = shape if isinstance(shape, (list, tuple)) else [shape] * (len(kind) - 1)
            for i, kk in enumerate(kind[1:]):
                v, x = self.mk_input(e, st, kk, '%s_%d' % (name, i), shp[i])
                vs.append(v)
                xs.append(x)
            return Tup(vs), ('seq',) + tuple(xs)
        if k == 'vec' and isinstance(shape, (list,)):
            vs, xs = [], []
            for i, s in enumerate(shape):
                v, x = self.mk_input(e, st, kind[1], '%s%d' % (name, i), s)
                vs.append(v)
                xs.append(x)
            return VecV(vs), ('seq',) + tuple(xs)
        if k == 'float':
            p = self.sym(st, name, 0, (1 << kind[1]) - 1)
            return Bits(p, kind[1]), Bits(p, kind[1])
        if k == 'struct':
            vs, xs = [], []
            shp = shape if isinstance(shape, (list, tuple)) else [None] * len(kind[2])
            for i, kk in enumerate(kind[2]):
                v, x = self.mk_input(e, st, kk, '%s_%d' % (name, i), shp[i])
                vs.append(v)
                xs.append(x)
            return Adt(kind[1], 0, vs), ('seq',) + tuple(xs)
        return Top('input'), None

    def qin(self, st, name):
        """a rational; all rationals of one cell are written over one common denominator"""
        if self.cd is None:
            self.cd = self.sym(st, 'D', 1, INF)
        return Q(self.sym(st, name, -INF, INF), self.cd)

    def wr_in(self, e, st, kind, x):
        if kind[0] == 'ref':
            v, x = self.wr_in(e, st, kind[2], x)
            c = ('in', 'g', e.fresh())
            st.cells[c] = v
            return Ref(c), x
        return self.wr(kind, x), x

    def engine(self, **kw):
        cts = self.contracts
        if kw.get('text'):
            cts = dict(cts)
            for n, fn in self.specs.items():
                if '::to_string_' in n and n in self.prog.names and self.prog.names[n].get('reach'):
                    cts[n] = self.mk_contract(n, fn)
        e = Engine(self.prog, cts, **kw)
        e.models = stdmodels.models
        e.depth_guard = 0
        e.lay = self.lay
        e.reduced = SP.qreduced
        return e

    # ---------------------------------------------------------- comparison
    def mismatch(self, st, got, exp):
        """predicate that is true iff got differs from exp; None when not comparable"""
        if isinstance(exp, Mark) or isinstance(got, Mark):
            return got is not exp
        if isinstance(exp, Q) and isinstance(got, Q):
            return p_not(p_eq(st.ctx.simp(got.n * exp.d - exp.n * got.d)))
        if isinstance(exp, Poly) and isinstance(got, Poly):
            d = st.ctx.simp(got - exp)
            c = st.ctx.clear(d)
            return p_not(p_eq(c if c is not None else d))
        if isinstance(exp, Adt) and isinstance(got, Adt):
            return exp != got
        if isinstance(exp, Tup) and isinstance(got, Tup):
            return exp != got
        if isinstance(exp, Bits) and isinstance(got, Bits):
            return p_not(p_eq(got.p - exp.p))
        if isinstance(exp, (bool,)) or (isinstance(exp, tuple) and exp and exp[0] in ('ge', 'eq', 'not', 'and', 'or')):
            if isinstance(got, (bool, tuple)) and not (isinstance(got, tuple) and got and got[0] in ('ok', 'some', 'seq', 'mat', 'pol', 'txt')):
                return p_xor(got, exp)
            return None
        if isinstance(exp, tuple) and exp and exp[0] in ('ok', 'some'):
            if isinstance(got, tuple) and got and got[0] == exp[0]:
                return self.mismatch(st, got[1], exp[1])
            return None
        if isinstance(exp, tuple) and exp and exp[0] == 'txt':
            if not (isinstance(got, tuple) and got and got[0] == 'txt'):
                return None
            return text.differs(st.ctx, got[1:], exp[1:])
        if isinstance(exp, tuple) and exp and exp[0] == 'mat':
            if not (isinstance(got, tuple) and got and got[0] == 'mat'):
                return None
            if got[1] != exp[1] or got[2] != exp[2]:
                return True
            return self.mismatch(st, ('seq',) + tuple(y for g in got[3] for y in g), ('seq',) + tuple(y for g in exp[3] for y in g))
        if isinstance(exp, tuple) and exp and exp[0] == 'pol':
            if not (isinstance(got, tuple) and got and got[0] == 'pol'):
                return None
            n = max(len(got[1]), len(exp[1]))
            z = Q(ZERO, ONE)
            return self.mismatch(st, ('seq',) + (z,) * (n - len(got[1])) + tuple(got[1]), ('seq',) + (z,) * (n - len(exp[1])) + tuple(exp[1]))
        if isinstance(exp, tuple) and exp and exp[0] == 'seq':
            if isinstance(got, tuple) and got and got[0] == 'seq':
                if len(got) != len(exp):
                    return True
                acc = False
                for a, b in zip(got[1:], exp[1:]):
                    m = self.mismatch(st, a, b)
                    if m is None:
                        return None
                    acc = p_or(acc, m)
                return acc
        return None

    def canon_pred(self, st, c):
        """predicate that is true iff the representation is canonical"""
        if isinstance(c, bool):
            return c
        if c[0] == 'all':
            return p_and(self.canon_pred(st, c[1]), self.canon_pred(st, c[2]))
        if c[0] == 'canonQ':
            _, n, d, inner = c
            q = self.canon_pred(st, inner)
            q = p_and(q, p_ge(st.ctx.clear(d) - 1 if st.ctx.clear(d) is not None else d - 1))
            if st.ctx.coprime(n, d):
                return q
            g = st.ctx.mk_gcd(n, d)
            k = st.ctx.simp(d)
            if not g.is_const and k.is_const and k.const >= 1 and not any(e < 0 for m in n.t for _, e in m):
                k, left = int(k.const), int(k.const)
                for p in (2, 3, 5, 7):
                    if left % p == 0:
                        q = p_and(q, p_not(p_eq(st.ctx.mk_mod(n, P(p)))))
                    while left % p == 0:
                        left //= p
                if left == 1:
                    return q
                return p_and(self.canon_pred(st, inner), p_eq(g - 1))
            return p_and(q, p_eq(g - 1))
        return c

    # ------------------------------------------------------------ analysis
    def analyse(self, name, shapes=None, spec=None, aspects=('value', 'panic', 'canon'), max_steps=60000, pre=None, tag=None, rep=None, exclude=(), given=None, **kw):
        """analyse one function against its summary for one input shape"""
        f = self.prog.names.get(name)
        rep = rep or Report(name)
        if f is None:
            rep.missing = True
            rep.undecided.append('%s: function not found' % name)
            return rep
        spec = spec or self.specs[name]
        args_k, res_k, outi = self.sig(f)
        t0 = time.time()
        n = 1
        for x in shapes or ():
            n *= x if isinstance(x, int) and 1 < x < 200 else 1
        kw.setdefault('max_visits', max(80, 2 * n + 40))
        e = self.engine(max_steps=max_steps, **kw)
        if any(isinstance(x, int) and x > 5 for x in shapes or ()):
            e.merge_at = 1
        st = State()
        self.syms = []
        self.cd = None
        X.new_scope()
        vals, sems = [], []
        giv = given(self, st) if given else None
        for i, k in enumerate(args_k):
            if giv and giv[i] is not None:
                v, x = self.wr_in(e, st, k, giv[i])
            else:
                v, x = self.mk_input(e, st, k, 'abcdefg'[i], shapes[i] if shapes else None)
            vals.append(v)
            sems.append(x)
        if pre is not None:
            for q in pre(st.ctx, *sems):
                st.ctx.assume(q)
        pre_preds = list(st.ctx.preds)
        label = tag or (('%s%s' % (name, shapes)) if shapes else name)
        try:
            outs = e.exec_fn(st, f, vals, 0)
        except Budget as b:
            rep.obligations += 1
            rep.undecided.append('%s: budget (%s)' % (label, b))
            rep.wall += time.time() - t0
            return rep
        except RecursionError:
            rep.obligations += 1
            rep.undecided.append('%s: recursion' % label)
            return rep
        rep.steps += e.steps
        rep.inlined |= e.inlined
        rep.summaries |= e.used_contracts
        for o in outs:
            if o.st.ctx.dead:
                continue
            rep.cells += 1
            self.check_outcome(e, rep, label, name, f, o, spec, sems, res_k, outi, vals, aspects, exclude)
        rep.wall += time.time() - t0
        return rep

    def check_outcome(self, e, rep, label, name, f, o, spec, sems, res_k, outi, vals, aspects, exclude):
        where = '%s:%s' % (f['span'][0], name)
        if o.kind == 'top':
            rep.obligations += 1
            rep.undecided.append('%s: %s' % (label, o.why))
            return
        base = o.st
        cases = as_cases(spec(base.ctx, *sems))
        rest = base
        for q, r in cases:
            if rest is None:
                break
            nxt = None
            for s, b in e.split(rest, q):
                if b:
                    self.check_case(e, rep, label, name, where, o, s, r, res_k, outi, vals, aspects)
                else:
                    nxt = s
            rest = nxt

    def check_case(self, e, rep, label, name, where, o, st, r, res_k, outi, vals, aspects):
        if callable(r) or isinstance(r, list):
            r = r(st.ctx) if callable(r) else r
            if isinstance(r, list):
                rest = st
                for q, v in r:
                    if rest is None:
                        break
                    nxt = None
                    for s, b in e.split(rest, q):
                        if b:
                            self.check_case(e, rep, label, name, where, o, s, v, res_k, outi, vals, aspects)
                        else:
                            nxt = s
                    rest = nxt
                return
        if r is ANY:
            return
        if o.kind == 'panic':
            if r is PANIC:
                rep.obligations += 1
                rep.discharged += 1
                return
            if 'panic' in aspects:
                self.oblige(rep, label, name, where, st, True, 'panic', 'panics (%s) where the result is defined' % o.why)
            return
        # returned
        if r is PANIC:
            if 'mustpanic' in aspects or 'panic' in aspects:
                self.oblige(rep, label, name, where, st, True, 'nopanic', 'returns a value where it must panic')
            return
        if isinstance(r, SP.Upd):
            ks = self.sig(self.prog.names[name])[0]
            for i, x in r.new.items():
                o2 = Outcome('ret', st, e.load(st, vals[i].c, vals[i].path))
                self.check_case(e, rep, label, name, where, o2, st, x, ks[i][2], None, vals, aspects)
            r = r.res
        v = o.val
        if outi is not None:
            v = e.load(st, vals[outi].c, vals[outi].path)
        rd = self.rd(e, st, res_k, v)
        if rd is None:
            rep.obligations += 1
            rep.undecided.append('%s: result not representable (%r)' % (label, v))
            return
        for s, got, canon in rd:
            if isinstance(r, SP.Rel):
                if 'value' in aspects:
                    for q in r.fn(s.ctx, got):
                        self.oblige(rep, label, name, where, s, p_not(q), 'value', 'result %s violates %s' % (short(got), p_str(q)[:200]))
            elif 'value' in aspects:
                m = self.mismatch(s, got, r)
                if m is None:
                    # kinds differ (Ok vs Err, Some vs None)
                    if isinstance(got, (tuple, Mark)) and isinstance(r, (tuple, Mark)) and type(got) != type(r):
                        m = True
                    else:
                        rep.obligations += 1
                        rep.undecided.append('%s: not comparable %r / %r' % (label, got, r))
                        continue
                self.oblige(rep, label, name, where, s, m, 'value', 'result %s, required %s' % (short(got), short(r)))
            if 'canon' in aspects:
                c = self.canon_pred(s, canon)
                if c is not True:
                    self.oblige(rep, label, name, where, s, p_not(c), 'canon', 'result is not in canonical form (%s)' % short(got))
                else:
                    rep.obligations += 1
                    rep.discharged += 1

    def oblige(self, rep, label, name, where, st, m, aspect, what):
        rep.obligations += 1
        d = st.ctx.decide(m)
        if d is False:
            rep.discharged += 1
            return
        # case analysis on compound facts may still discharge it
        if self.impossible(st.ctx, m):
            rep.discharged += 1
            return
        w = self.witness(st.ctx, m)
        if w is not None:
            rep.findings.append(Finding(name, aspect, what, where, w))
            return
        if self.refuted(st.ctx, m):
            rep.vacuous += 1
            rep.discharged += 1
            return
        rep.undecided.append('%s: [%s] %s' % (label, aspect, what[:300]))

    def impossible(self, ctx, m, depth=0, used=()):
        """m cannot hold in the cell: case split on disjunctive facts"""
        c = ctx.copy()
        if not c.assume(m):
            return True
        for q in c.preds:
            # facts recorded before others were known may now be contradictory
            if c.decide(q) is False:
                return True
        if depth >= 5:
            return False
        for q in list(c.preds):
            alts = disjuncts(q)
            if alts is None or q in used:
                continue
            ok = True
            for a in alts:
                if not self.impossible(c, a, depth + 1, used + (q,)):
                    ok = False
                    break
            if ok:
                return True
        return False

    def refuted(self, ctx, m):
        """re-check the facts of the cell against each other; True if it is empty"""
        c = Ctx()
        c.cop = ctx.cop
        for _ in range(2):
            for q in ctx.preds:
                if not c.assume(q):
                    return True
        return not c.assume(m)

    # ------------------------------------------------------------- witness
    def witness(self, ctx, m, tries=1500):
        """a concrete point of the cell at which m holds (confirms an alarm)"""
        if ctx.weak:
            return None
        preds = [q for q in ctx.preds] + ([m] if m is not True else [])
        for q in preds:
            if p_has_opq(q):
                return None
        rnd = random.Random(self.seed * 7919 + len(preds))
        syms = list(dict.fromkeys(self.syms))
        need = set()
        for q in preds:
            for p in p_polys(q, []):
                syms_of(p, need)
        for i in need:
            if i not in syms:
                return None
        consts = {0, 1, 2, 3, -1, -2, -3, 7, 10, 31, 32, 33, 63, 64, 65, 255, 256, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, MASK, 1 << 32, MASK + 2, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 127) - 1, 1 << 127, (1 << 128) - 1, 1 << 128, -(1 << 31), -(1 << 63), -(1 << 127), -(1 << 32), -(1 << 64)}
        for q in preds:
            for p in p_polys(q, []):
                for c in p.t.values():
                    if isinstance(c, int):
                        for dlt in (-1, 0, 1):
                            consts.add(c + dlt)
                            consts.add(-c + dlt)
        consts = sorted(consts, key=lambda x: (abs(x), x))
        rngs = {}
        for s in syms:
            a = X.atom_by_id(s)
            lo, hi = a.lo, a.hi
            if s in ctx.arng:
                lo, hi = max(lo, ctx.arng[s][0]), min(hi, ctx.arng[s][1])
            rngs[s] = (lo, hi)
        free = [s for s in syms if s not in ctx.sub]
        dep = [s for s in syms if s in ctx.sub]
        cand = {}
        for s in free:
            lo, hi = rngs[s]
            cs = [c for c in consts if lo <= c <= hi]
            for b in (lo, hi):
                if b not in (INF, -INF):
                    for k in (0, 1, 2):
                        v = int(b) + k if b == lo else int(b) - k
                        if lo <= v <= hi:
                            cs.append(v)
            cand[s] = list(dict.fromkeys(cs)) or [int(lo) if lo > -INF else 0]
        if not free:
            tries = 1
        elif len(free) == 1:
            tries = max(tries, len(cand[free[0]]))

        def rv(s):
            lo, hi = rngs[s]
            k = rnd.random()
            if k < 0.7:
                return rnd.choice(cand[s])
            bits = rnd.choice((3, 8, 16, 31, 32, 40, 64, 96, 130, 200))
            v = rnd.getrandbits(bits)
            if lo > -INF and hi < INF:
                return int(lo) + v % (int(hi) - int(lo) + 1)
            if lo > -INF:
                return int(lo) + v
            if hi < INF:
                return int(hi) - v
            return v if rnd.random() < 0.5 else -v

        def attempt(env):
            memo = {}
            try:
                for _ in range(len(dep) + 1):
                    prog = False
                    for s in dep:
                        if s in env:
                            continue
                        if syms_of(ctx.sub[s], set()) <= set(env):
                            v = evalp(ctx.sub[s], env, {})
                            if isinstance(v, Fraction):
                                if v.denominator != 1:
                                    return None, None
                                v = int(v)
                            lo, hi = X.atom_by_id(s).lo, X.atom_by_id(s).hi
                            if not (lo <= v <= hi):
                                return None, None
                            env[s] = v
                            prog = True
                    if not prog:
                        break
                if len(env) < len(syms):
                    return None, None
                for q in preds:
                    if not p_eval(q, env, memo):
                        return False, q
                return True, None
            except EvalError:
                return None, None
            except OverflowError:
                return None, None

        for t in range(tries):
            if len(free) == 1 and t < len(cand[free[0]]):
                env = {free[0]: cand[free[0]][t]}
            else:
                env = {s: rv(s) for s in free}
            for rep_ in range(8):
                e2 = dict(env)
                r, bad = attempt(e2)
                if r:
                    return {X.atom_by_id(s).args[0]: e2[s] for s in syms}
                if r is None or bad is None or not free:
                    break
                # move one coordinate onto the violated facet
                if not self.repair(bad, env, e2, free, rngs, rnd):
                    break
        return None

    def repair(self, bad, env, full, free, rngs, rnd):
        ps = p_polys(bad, [])
        if not ps:
            return False
        p = rnd.choice(ps)
        cands = []
        for mono, c in p.t.items():
            for a, ex in mono:
                if a in env and ex == 1:
                    cands.append(a)
        if not cands:
            return False
        x = rnd.choice(cands)
        try:
            f0 = dict(full)
            f0[x] = 0
            v0 = evalp(p, f0, {})
            f0[x] = 1
            v1 = evalp(p, f0, {})
        except EvalError:
            return False
        sl = v1 - v0
        if sl == 0:
            return False
        new = -Fraction(v0) / Fraction(sl)
        k = new.numerator // new.denominator
        k += rnd.choice((0, 1, 1, -1, 0))
        lo, hi = rngs[x]
        if not (lo <= k <= hi) or k == env[x]:
            return False
        env[x] = k
        return True


def disjuncts(q):
    if isinstance(q, bool):
        return None
    if q[0] == 'or':
        return [q[1], q[2]]
    if q[0] == 'not' and not isinstance(q[1], bool):
        if q[1][0] == 'and':
            return [p_not(q[1][1]), p_not(q[1][2])]
        if q[1][0] == 'eq':
            p = q[1][1]
            return [p_ge(p - 1), p_ge(-p - 1)]
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + '...'
