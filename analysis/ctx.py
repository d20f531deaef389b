"""Abstract state facts: equalities (substitutions), intervals on atoms and on
linear templates, and the list of refinements that define the current cell of
the trace partition."""
import math
from fractions import Fraction
from expr import *
import expr as X


def canon_key(p):
    """sign-normalised non-constant part and sign"""
    n = p.nonconst()
    m = min(n.t)
    if n.t[m] < 0:
        return -n, -1
    return n, 1


def imul(a, b):
    xs = []
    for u in a:
        for v in b:
            if (u == 0) or (v == 0):
                xs.append(0)
            elif u in (INF, -INF) or v in (INF, -INF):
                xs.append(INF if (u > 0) == (v > 0) else -INF)
            else:
                xs.append(u * v)
    return (min(xs), max(xs))


def iadd(x, y):
    if x in (INF, -INF):
        return x
    if y in (INF, -INF):
        return y
    return x + y


def iadd3(x, y, z, bad):
    if bad in (x, y, z):
        return bad
    return iadd(iadd(x, y), z)


def ipow(a, e):
    if e == 1:
        return a
    if e == -1:
        # only used for strictly positive atoms
        return (0, 1) if a[0] >= 1 else (-INF, INF)
    if e < 0:
        return (0, 1) if a[0] >= 1 else (-INF, INF)
    lo, hi = a
    if e % 2 == 0:
        if lo >= 0:
            return (lo ** e, hi ** e)
        if hi <= 0:
            return (hi ** e, lo ** e)
        return (0, max(lo ** e, hi ** e))
    return (lo ** e, hi ** e)


_STATIC = {}


def _static(i):
    """range of an atom from the declared ranges of its leaves alone"""
    r = _STATIC.get(i)
    if r is not None:
        return r
    a = X.atom_by_id(i)
    lo, hi = a.lo, a.hi
    if a.kind == 'div' and a.args[1].is_const and a.args[1].const > 0:
        l = h = 0
        for m, c in a.args[0].t.items():
            ml = mh = 1
            for b, e in m:
                if e < 0:
                    ml, mh = -INF, INF
                    break
                sl, sh = _static(b)
                for _ in range(e):
                    ml, mh = imul((ml, mh), (sl, sh))
            x = imul((c, c), (ml, mh))
            l, h = iadd(l, x[0]), iadd(h, x[1])
        q = a.args[1].const
        lo = max(lo, l if l == -INF else l // q)
        hi = min(hi, h if h == INF else h // q)
    _STATIC[i] = r = (lo, hi)
    return r


class Ctx:
    __slots__ = ('sub', 'rng', 'arng', 'preds', 'dead', 'cop', 'memo', 'guard', 'weak')

    def __init__(self):
        self.sub = {}
        self.rng = {}
        self.arng = {}
        self.preds = []
        self.dead = False
        self.cop = []      # pairs of polys known coprime
        self.memo = {}     # ranges, valid until the facts change
        self.guard = 0
        self.weak = False  # facts were dropped: points of the cell prove nothing

    def copy(self):
        c = Ctx()
        c.sub = dict(self.sub)
        c.rng = dict(self.rng)
        c.arng = dict(self.arng)
        c.preds = list(self.preds)
        c.dead = self.dead
        c.cop = self.cop
        c.weak = self.weak
        return c

    # -------------------------------------------------------------- simplify
    def simp(self, p):
        if not self.sub:
            return p
        for _ in range(8):
            q = self._simp1(p)
            if q == p:
                return p
            p = q
        return p

    def _simp1(self, p):
        hit = False
        for a in p.atoms():
            if a in self.sub or self._touches(a):
                hit = True
                break
        if not hit:
            return p
        r = ZERO
        for m, c in p.t.items():
            t = P(c)
            if any(e < 0 and X.atom_by_id(a).kind == 'pow2' for a, e in m):
                E, m = self._group(m)
                t = t * mk_pow2(self.simp(E))
            for a, e in m:
                v = self._simp_atom(a)
                if e < 0:
                    if v.is_const and v.const in (1, -1):
                        t = t * (v ** (-e))
                    else:
                        i = v.single_atom()
                        if i is None:
                            # keep the original atom
                            t = t * Poly({((a, e),): 1})
                        else:
                            t = t * Poly({((i, e),): 1})
                else:
                    t = t * (v ** e)
            r = r + t
        return r

    def _touches(self, a):
        at = X.atom_by_id(a)
        if at.kind == 'sym':
            return False
        for x in at.args:
            if isinstance(x, Poly):
                for b in x.atoms():
                    if b in self.sub or self._touches(b):
                        return True
        return False

    def _simp_atom(self, a):
        if a in self.sub:
            return self.sub[a]
        at = X.atom_by_id(a)
        if at.kind == 'sym' or not self._touches(a):
            return P(at)
        args = tuple(self.simp(x) if isinstance(x, Poly) else x for x in at.args)
        if args == at.args:
            return P(at)
        return self.rebuild(at.kind, args)

    def rebuild(self, kind, args):
        if kind == 'div':
            return self.mk_div(*args)
        if kind == 'gcd':
            return self.mk_gcd(*args)
        if kind == 'pow2':
            return mk_pow2(*args)
        if kind == 'pow':
            return mk_pow(*args)
        if kind == 'abs':
            return self.mk_abs(*args)
        if kind == 'len':
            return self.mk_len(*args)
        if all(isinstance(x, Poly) and x.is_const for x in args) and kind in EVAL and kind != 'opaque':
            try:
                return P(EVAL[kind](*[x.const for x in args]))
            except EvalError:
                pass
        return P(atom(kind, args))

    # ----------------------------------------------------------------- range
    def arange(self, i, depth=0):
        k = (i, depth)
        r = self.memo.get(k)
        if r is None:
            r = self._arange(i, depth)
            self.memo[k] = r
        return r

    def _arange(self, i, depth):
        r = self.arng.get(i)
        a = X.atom_by_id(i)
        lo, hi = a.lo, a.hi
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if a.kind != 'sym':
            b = self._atom_range(a, depth + 1) if depth < 6 else _static(i)
            lo, hi = max(lo, b[0]), min(hi, b[1])
            if depth and (lo == -INF or hi == INF):
                b = _static(i)
                lo, hi = max(lo, b[0]), min(hi, b[1])
        return (lo, hi)

    def _atom_range(self, a, depth):
        k = a.kind
        if k == 'div':
            pl, ph = self.range(a.args[0], depth)
            ql, qh = self.range(a.args[1], depth)
            if ql >= 1:
                def fd(x, y):
                    if x in (INF, -INF):
                        return x if y != INF else (INF if x > 0 else -INF)
                    if y == INF:
                        return 0 if x >= 0 else -1
                    return x // y
                lo = fd(pl, qh) if pl >= 0 else fd(pl, ql)
                hi = fd(ph, ql) if ph >= 0 else fd(ph, qh)
                return (lo, hi)
            return (-INF, INF)
        if k == 'gcd':
            pl, ph = self.range(a.args[0], depth)
            ql, qh = self.range(a.args[1], depth)
            lo = 1 if (pl >= 1 or ph <= -1 or ql >= 1 or qh <= -1) else 0
            hi = INF
            if lo == 1:
                if pl >= 1:
                    hi = min(hi, ph)
                if ql >= 1:
                    hi = min(hi, qh)
            return (lo, hi)
        if k == 'pow2':
            el, eh = self.range(a.args[0], depth)
            lo = 1 << int(min(max(el, 0), 4096)) if el != -INF else 1
            hi = (1 << int(eh)) if eh != INF and eh < 5000 and eh >= 0 else INF
            return (lo, hi)
        if k == 'pow':
            bl, bh = self.range(a.args[0], depth)
            el, eh = self.range(a.args[1], depth)
            if bl >= 1:
                return (1 if el <= 0 or bl == 1 else bl, INF)
            if bl >= 0:
                return (0, INF)
            if a.args[0].is_const and a.args[0].const == -1:
                return (-1, 1)
            return (-INF, INF)
        if k == 'len':
            pl, ph = self.range(a.args[0], depth)
            lo = 1
            if pl != -INF and pl > 0:
                lo = limbs(pl)
            hi = INF if ph == INF else limbs(max(ph, 0))
            return (lo, hi)
        if k == 'isqrt':
            pl, ph = self.range(a.args[0], depth)
            return (0 if pl < 1 else 1, INF if ph == INF else X._isqrt(max(0, ph)))
        if k == 'abs':
            pl, ph = self.range(a.args[0], depth)
            if pl >= 0:
                return (pl, ph)
            if ph <= 0:
                return (-ph, -pl)
            return (0, max(-pl, ph))
        if k == 'and':
            hs = []
            for x in a.args:
                l, h = self.range(x, depth)
                if l >= 0:
                    hs.append(h)
            if hs:
                return (0, min(hs))
            return (-INF, INF)
        if k in ('or', 'xor'):
            h = 0
            for x in a.args:
                l, hh = self.range(x, depth)
                if l < 0 or hh == INF:
                    return (-INF, INF)
                h = max(h, (1 << int(hh).bit_length()) - 1)
            return (0, h)
        if k in ('ilog2', 'bitlen', 'ctz'):
            l, h = self.range(a.args[0], depth)
            if k == 'ilog2':
                return (int(l).bit_length() - 1 if l >= 1 and l != INF else 0, INF if h == INF else max(0, int(h).bit_length() - 1))
            if k == 'bitlen':
                return (int(l).bit_length() if 0 <= l < INF else 0, INF if h == INF else int(max(h, 0)).bit_length())
            return (0, INF if h == INF else int(h).bit_length())
        return (-INF, INF)

    def _mono_range(self, m, depth):
        r = (1, 1)
        E = None
        for a, e in m:
            at = X.atom_by_id(a)
            if at.kind == 'pow2' and len(m) > 1 or at.kind == 'pow2' and e != 1:
                E = at.args[0] * e if E is None else E + at.args[0] * e
                continue
            r = imul(r, ipow(self.arange(a, depth), e))
        if E is not None:
            lo, hi = self.range(E, max(depth, 1)) if depth < 6 else (-INF, INF)
            if not E.is_const and depth < 6:
                E2 = self.simp(E)
                if E2 != E:
                    lo, hi = self.range(E2, max(depth, 1))
            pl = (1 << int(min(lo, 4096))) if lo >= 0 else 0
            ph = INF if hi == INF or hi > 5000 else ((1 << int(hi)) if hi >= 0 else 1)
            r = imul(r, (pl, ph))
        return r

    def _group(self, m):
        """combined exponent of the powers of two of a monomial, other factors"""
        E, rest = ZERO, []
        for a, e in m:
            at = X.atom_by_id(a)
            if at.kind == 'pow2':
                E = E + at.args[0] * e
            else:
                rest.append((a, e))
        return E, rest

    def integral(self, m):
        """the Laurent monomial m certainly takes integer values"""
        if all(e >= 0 for _, e in m):
            return True
        E, rest = self._group(m)
        if any(e < 0 for _, e in rest):
            return False
        return self.range(E)[0] >= 0

    def _basic(self, p, depth):
        lo = hi = 0
        for m, c in p.t.items():
            a, b = self._mono_range(m, depth)
            a, b = imul((c, c), (a, b))
            lo = iadd(lo, a)
            hi = iadd(hi, b)
        return lo, hi

    def range(self, p, depth=0):
        if depth == 0:
            p = self.simp(p)
        if p.is_const:
            return (p.const, p.const)
        key = (p, depth)
        r = self.memo.get(key)
        if r is None:
            r = self._range(p, depth)
            self.memo[key] = r
        return r

    def _range(self, p, depth):
        lo, hi = self._basic(p, depth)
        if depth < 4 and len(p.t) > 1:
            if depth == 0 and len(p.t) > 4:
                lo, hi = self._peel(p, depth, lo, hi)
            if len(p.t) < 60:
                lo, hi = self._sym_range(p, depth, lo, hi)
            lo, hi = self._mod_range(p, depth, lo, hi)
            if lo < 0 < hi and depth < 2 and len(p.t) < 60:
                lo, hi = self._factor_range(p, depth, lo, hi)
                if lo < 0 < hi and len(p.t) < 24:
                    lo, hi = self._shift_range(p, depth, lo, hi)
        if depth == 0 and lo < 0 <= hi and self.rng and len(p.t) <= 6 and p.has_div() and all(e > 0 for m in p.t for _, e in m):
            b = self._flat_bounds(p)
            if b is not None and b[0] >= 0:
                lo = 0
        if self.rng and depth < 4 and p.single_div():
            lo, hi = self._quot_range(p, lo, hi)
        if self.rng and depth < 4:
            k, s = canon_key(p)
            r = self.rng.get(k)
            if r is not None:
                a, b = r if s > 0 else (-r[1], -r[0])
                lo, hi = max(lo, iadd(a, p.const)), min(hi, iadd(b, p.const))
            if len(p.t) > 1 and depth < 2:
                lo, hi = self._fact_range(p, depth, lo, hi, 3 if len(self.rng) < 10 else 2 if len(self.rng) < 40 else 1, ())
        return lo, hi

    def _quot_range(self, p, lo, hi):
        """c + k*floor(r/q): a fact alpha*f = r - L*q - const bounds the floor by L"""
        (m, k), = [(m, k) for m, k in p.t.items() if m != ()]
        r, q = X.atom_by_id(m[0][0]).args
        lm = max(q.t, key=mono_key)
        dl, dh = -INF, INF
        ql, qm = self.range(q, 2)
        ql = max(ql, 1)
        for f, (a, b) in self.rng.items():
            for x in f.t:
                if x in q.t or not r.t.get(x, 0):
                    continue
                al, sc = r.t[x], f.t[x]
                g = _g(al, sc) if sc > 0 else -_g(al, sc)
                al, sc = al // g, sc // g
                rest = r * sc - f * al
                cl = rest.t.get(lm, 0)
                # sc*r = al*f + cl/q_lm * q + const
                rest = rest * q.t[lm] - q * cl
                if not rest.is_const or rest.const % q.t[lm]:
                    break
                a2, b2 = imul((al, al), (a, b))
                a2, b2 = iadd(a2, rest.const // q.t[lm]), iadd(b2, rest.const // q.t[lm])
                L = Fraction(cl, q.t[lm] * sc)
                if a2 > -INF:
                    Q = qm if a2 >= 0 else ql
                    dl = max(dl, math.floor(L + (Fraction(int(a2), sc * int(Q)) if Q < INF else 0)))
                if b2 < INF:
                    Q = ql if b2 >= 0 else qm
                    if Q < INF:
                        dh = min(dh, math.floor(L + Fraction(int(b2), sc * int(Q))))
                    else:
                        dh = min(dh, math.ceil(L) - 1)
                break
        if dl > -INF:
            if k > 0:
                lo = max(lo, p.const + k * dl)
            else:
                hi = min(hi, p.const + k * dl)
        if dh < INF:
            if k > 0:
                hi = min(hi, p.const + k * dh)
            else:
                lo = max(lo, p.const + k * dh)
        return lo, hi

    def _fact_range(self, p, depth, lo, hi, more, used):
        """p = k*f + rest for recorded facts a <= f <= b, several at a time"""
        for f, (a, b) in self.rng.items():
            if f in used:
                continue
            for m in f.t:
                if m not in p.t:
                    continue
                cf, cp = f.t[m], p.t[m]
                sc = 1
                if cp % cf:
                    if used or len(p.t) > 4 or len(f.t) > 4:
                        continue
                    sc = abs(cf) // _g(cp, cf)
                kk = cp * sc // cf
                rest = p * sc - f * kk
                if len(rest.t) >= len(p.t) + len(f.t) - 1:
                    continue
                l2, h2 = self._basic(rest, depth + 2)
                if rest.nonconst().t:
                    k3, s3 = canon_key(rest)
                    r3 = self.rng.get(k3)
                    if r3 is not None:
                        a3, b3 = r3 if s3 > 0 else (-r3[1], -r3[0])
                        l2, h2 = max(l2, iadd(a3, rest.const)), min(h2, iadd(b3, rest.const))
                    if more > 1 and len(rest.t) > 1 and len(rest.t) < len(p.t):
                        l2, h2 = self._fact_range(rest, depth, l2, h2, more - 1, used + (f,))
                fa, fb = imul((kk, kk), (a, b))
                l2, h2 = iadd3(l2, fa, 0, -INF), iadd3(h2, fb, 0, INF)
                if sc > 1:
                    l2, h2 = l2 if l2 == -INF else -(int(-l2) // sc), h2 if h2 == INF else int(h2) // sc
                lo, hi = max(lo, l2), min(hi, h2)
                break
        return lo, hi

    def _shift_range(self, p, depth, lo, hi):
        """rewrite over x' = x - min(x): signs of all coefficients decide"""
        sh = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    return lo, hi
                if a not in sh:
                    l, h = self.arange(a, depth + 1)
                    if l == -INF:
                        return lo, hi
                    sh[a] = int(l)
        if not any(sh.values()):
            return lo, hi
        q = ZERO
        for m, c in p.t.items():
            t = P(c)
            for a, e in m:
                t = t * ((P(X.atom_by_id(a)) + sh[a]) ** e)
            q = q + t
        cs = [c for m, c in q.t.items() if m]
        if all(c >= 0 for c in cs):
            lo = max(lo, q.const)
        if all(c <= 0 for c in cs):
            hi = min(hi, q.const)
        return lo, hi

    def _factor_range(self, p, depth, lo, hi):
        """p = x*coef + rest, bounding the coefficient of x as a whole"""
        cnt = {}
        for m in p.t:
            if len(m) > 1 or (m and m[0][1] != 1):
                for a, e in m:
                    if e == 1:
                        cnt[a] = cnt.get(a, 0) + 1
        for a in cnt:
            coef, rest, bad = {}, {}, False
            for m, c in p.t.items():
                d = dict(m)
                e = d.pop(a, 0)
                if e == 0:
                    rest[m] = c
                elif e == 1:
                    coef[tuple(sorted(d.items()))] = c
                else:
                    bad = True
                    break
            if bad or len(coef) < 2:
                continue
            cd = imul(self.range(Poly(coef), depth + 1), self.arange(a, depth + 1))
            rr = self.range(Poly(rest), depth + 1) if rest else (0, 0)
            lo = max(lo, iadd3(rr[0], cd[0], 0, -INF))
            hi = min(hi, iadd3(rr[1], cd[1], 0, INF))
        return lo, hi

    def _sym_range(self, p, depth, lo, hi):
        """floor(r/q) - t is the floor of r with its coefficients brought next to zero"""
        rest, l, h, hit = p, 0, 0, False
        for m, c in list(p.t.items()):
            if len(m) != 1 or m[0][1] != 1:
                continue
            at = X.atom_by_id(m[0][0])
            if at.kind != 'div' or not at.args[1].is_const or at.args[1].const < 2:
                continue
            q = at.args[1].const
            t = ZERO
            for m2, k in at.args[0].t.items():
                s = (k + q // 2) % q - q // 2
                if s != k:
                    t = t + Poly({m2: (k - s) // q})
            if not t.t:
                continue
            r2 = rest - P(at) * c + t * c
            if len(r2.t) >= len(rest.t):
                continue
            a, b = self.range(at.args[0] - t * q, depth)
            if a == -INF or b == INF:
                continue
            rest, hit = r2, True
            a, b = imul((c, c), (a // q, b // q))
            l, h = l + a, h + b
        if not hit:
            return lo, hi
        b = self._basic(rest, depth)
        if rest.t and not rest.is_const and depth < 3:
            b = self.range(rest, depth + 1)
        return max(lo, iadd(b[0], l)), min(hi, iadd(b[1], h))

    def _peel(self, p, depth, lo, hi):
        """p = sum of k*(r mod q) + rest: take out all residues that cancel exactly"""
        l, h = 0, 0
        n = 0
        again = True
        while again and n < 200:
            again = False
            for m in list(p.t):
                if len(m) != 1 or m[0][1] != 1:
                    continue
                at = X.atom_by_id(m[0][0])
                if at.kind != 'div' or not at.args[1].is_const:
                    continue
                r, q = at.args[0], at.args[1].const
                cp = p.t.get(m)
                if cp is None or cp % q or q < 1:
                    continue
                k = -cp // q
                base = p - (r - P(at) * q) * k
                if len(base.t) > len(p.t) - max(2, len(r.t)):
                    continue
                p = base
                n += 1
                if k > 0:
                    h += k * (q - 1)
                else:
                    l += k * (q - 1)
                again = True
        if n < 2:
            return lo, hi
        b = self._basic(p, depth)
        return max(lo, iadd(b[0], l)), min(hi, iadd(b[1], h))

    def _mod_range(self, p, depth, lo, hi):
        """0 <= r - q*floor(r/q) <= q - 1 for every floor division in p"""
        seen = set()
        ats = []
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                at = X.atom_by_id(m[0][0])
                if at.kind == 'div':
                    ats.append((at, c))
        if 2 <= len(ats) <= 12:
            # floor(j*x) - j*floor(x) lies in 0..j-1
            for a, ca in ats:
                for b, cb in ats:
                    if a is b or ca % cb or -ca // cb < 2:
                        continue
                    j = -ca // cb
                    (an, ad), (bn, bd) = _nested(a), _nested(b)
                    if bn * ad != an * bd * j:
                        continue
                    r = self.range(p - P(a) * ca - P(b) * cb, depth + 1)
                    x = imul((cb, cb), (0, j - 1))
                    lo, hi = max(lo, iadd(r[0], x[0])), min(hi, iadd(r[1], x[1]))
            # k*floor(x) = floor(k*x) - (0..k-1), where floor(k*x) occurs below another floor
            if depth < 2:
                for a, ca in ats:
                    an, ad = _nested(a)
                    for b, _ in ats:
                        if a is b or not b.args[1].is_const:
                            continue
                        for m in b.args[0].t:
                            if len(m) != 1 or m[0][1] != 1:
                                continue
                            x = X.atom_by_id(m[0][0])
                            if x.kind != 'div' or x is a:
                                continue
                            xn, xd = _nested(x)
                            u, v = xn * ad, an * xd
                            if not v.t or not u.t:
                                continue
                            lm = max(v.t, key=mono_key)
                            k = u.t.get(lm, 0) // v.t[lm]
                            if k < 2 or ca % k or u != v * k:
                                continue
                            w = ca // k
                            r = self.range(p + (P(x) - P(a) * k) * w, depth + 1)
                            y = imul((-w, -w), (0, k - 1))
                            lo, hi = max(lo, iadd(r[0], y[0])), min(hi, iadd(r[1], y[1]))
            g = 0
            for m, c in p.t.items():
                if m != ():
                    g = _g(g, c)
            if g > 1 and all(self.integral(m) for m in p.t):
                c = p.const
                if lo > -INF:
                    lo = c - (c - int(lo)) // g * g
                if hi < INF:
                    hi = c + (int(hi) - c) // g * g
        for m in list(p.t):
            for a, e in m:
                if e != 1 or a in seen:
                    continue
                at = X.atom_by_id(a)
                if at.kind != 'div':
                    continue
                seen.add(a)
                r, q = at.args
                lm = max(q.t, key=mono_key)
                cp = p.t.get(mono_mul(lm, ((a, 1),)))
                if cp is None or cp % q.t[lm]:
                    continue
                k = -cp // q.t[lm]
                base = p - (r - q * P(at)) * k
                if self.range(q, depth + 1)[0] < 1:
                    continue
                if a in base.atoms():
                    # p = rest + coef*D - k*(r mod q)-ish: bound coef and D together
                    coef, rest, bad = {}, {}, False
                    for m2, c2 in base.t.items():
                        d = dict(m2)
                        ex = d.pop(a, 0)
                        if ex == 0:
                            rest[m2] = c2
                        elif ex == 1:
                            coef[tuple(sorted(d.items()))] = c2
                        else:
                            bad = True
                    if bad or len(rest) > len(p.t) + 4:
                        continue
                    coef, rest = Poly(coef), Poly(rest)
                    cd = imul(self.range(coef, depth + 1), self.arange(a, depth + 1))
                    rr = self.range(rest, depth + 1)
                    md = imul((k, k), (0, iadd(self.range(q, depth + 1)[1], -1)))
                    lo = max(lo, iadd3(rr[0], cd[0], md[0], -INF))
                    hi = min(hi, iadd3(rr[1], cd[1], md[1], INF))
                    continue
                if len(base.t) > len(p.t) + 2:
                    continue
                other = base + (q - 1) * k
                if k > 0:
                    lo = max(lo, self.range(base, depth + 1)[0])
                    hi = min(hi, self.range(other, depth + 1)[1])
                else:
                    lo = max(lo, self.range(other, depth + 1)[0])
                    hi = min(hi, self.range(base, depth + 1)[1])
        return lo, hi

    # ---------------------------------------------------------------- decide
    def clear(self, p):
        """multiply by positive atoms to remove negative exponents"""
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if not neg:
            return p
        f = Poly({tuple(sorted(neg.items())): 1})
        for a in neg:
            if self.arange(a)[0] < 1:
                return None
        return p * f

    def decide(self, q):
        """True / False / None"""
        if isinstance(q, bool):
            return q
        k = q[0]
        if k == 'ge':
            p = self.simp(q[1])
            p = self.clear(p)
            if p is None:
                return None
            lo, hi = self.range(p)
            if lo >= 0:
                return True
            if hi < 0:
                return False
            b = self._flat_bounds(p)
            if b is not None:
                if b[0] >= 0:
                    return True
                if b[1] < 0:
                    return False
            return self._decide_sq(p)
        if k == 'eq':
            p = self.simp(q[1])
            if p.is_const:
                return p.const == 0
            p = self.clear(p)
            if p is None:
                return None
            if p.is_const:
                return p.const == 0
            p = self._primitive(p)
            lo, hi = self.range(p)
            if lo > 0 or hi < 0:
                return False
            if lo == 0 and hi == 0:
                return True
            if len(p.t) > 1:
                cm = self._common(p)
                if cm:
                    r = Poly({mono_mul(m, tuple((a, -e) for a, e in cm)): c for m, c in p.t.items()})
                    d = self.decide(p_eq(r))
                    if d is True:
                        return True
                    if d is False and all(self.nonzero(a) for a, _ in cm):
                        return False
                r = self.radix(p)
                if r:
                    a, b = self.decide(p_eq(r[0])), self.decide(p_eq(r[1]))
                    if a is False or b is False:
                        return False
                    if a and b:
                        return True
            # product of nonzero factors
            if len(p.t) == 1:
                (m, c), = p.t.items()
                nz = True
                for a, e in m:
                    l, h = self.arange(a)
                    if l <= 0 <= h and not self._nz(a):
                        nz = False
                if nz:
                    return False
            if ('not', ('eq', p)) in self.preds or ('not', ('eq', -p)) in self.preds:
                return False
            d = self._eq_div(p)
            if d is not None:
                return d
            # content / modular: gcd of coefficients does not divide the constant
            g = 0
            for m, c in p.t.items():
                if m != () and all(e > 0 for _, e in m):
                    g = _g(g, c)
                elif m != ():
                    g = 1
            if g > 1 and p.const % g:
                return False
            return None
        if k == 'not':
            d = self.decide(q[1])
            return None if d is None else not d
        if k == 'and':
            a, b = self.decide(q[1]), self.decide(q[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a, b = self.decide(q[1]), self.decide(q[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if q in self.preds:
            return True
        if p_not(q) in self.preds:
            return False
        return None

    def _eq_div(self, p):
        """x == floor(r/q) iff q*x <= r < q*(x+1)"""
        if self.guard >= 2:
            return None
        for m, c in p.t.items():
            if abs(c) != 1 or len(m) != 1 or m[0][1] != 1:
                continue
            at = X.atom_by_id(m[0][0])
            if at.kind != 'div':
                continue
            x = (p - Poly({m: c})) * (-c)
            if m[0][0] in x.atoms():
                continue
            r, q = at.args
            if self.range(q)[0] < 1:
                continue
            self.guard += 1
            try:
                a = self.decide(p_ge(r - q * x))
                if a is False:
                    return False
                b = self.decide(p_ge(q * x + q - 1 - r))
                if b is False:
                    return False
                if a and b:
                    return True
            finally:
                self.guard -= 1
        # two quotients by the same divisor: floor(r2/q) = floor(r1/q) + floor((r1 mod q + r2 - r1)/q)
        ds = [(m, c) for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and X.atom_by_id(m[0][0]).kind == 'div']
        if len(ds) == 2 and ds[0][1] == -ds[1][1] and len(p.t) <= 3:
            c = ds[0][1]
            rest = p - Poly(dict(ds))
            if rest.is_const and rest.const % c == 0:
                A, B = X.atom_by_id(ds[0][0][0][0]), X.atom_by_id(ds[1][0][0][0])
                if A.args[1] == B.args[1] and A.args[1].is_const and A.args[1].const > 0:
                    q = A.args[1].const
                    want = rest.const // c         # p == 0 iff B - A == want
                    for U, V, w in ((A, B, want), (B, A, -want)):
                        l, h = self.range(V.args[0] - P(U) * q)
                        if l > -INF and h < INF and l // q == h // q:
                            return l // q == w
        return None

    def nonzero(self, a):
        l, h = self.arange(a)
        return l > 0 or h < 0 or self._nz(a)

    def _primitive(self, p):
        g = 0
        for m, c in p.t.items():
            g = _g(g, c)
            if g == 1:
                return p
        if g > 1:
            return Poly({m: c // g for m, c in p.t.items()})
        return p

    def _common(self, p):
        it = iter(p.t)
        cm = dict(next(it))
        for m in it:
            d = dict(m)
            for a in list(cm):
                k = min(cm[a], d.get(a, 0))
                if k <= 0:
                    del cm[a]
                else:
                    cm[a] = k
            if not cm:
                return None
        cm = {a: e for a, e in cm.items() if e > 0}
        return tuple(sorted(cm.items())) or None

    def _nz(self, a):
        p = P(X.atom_by_id(a))
        return ('not', ('eq', p)) in self.preds

    def _decide_sq(self, p):
        return None

    # ---------------------------------------------------------------- assume
    def assume(self, q, record=True):
        """refine by q; returns False when the cell becomes empty"""
        if q is True:
            return True
        if q is False:
            self.dead = True
            return False
        d = self.decide(q)
        if d is True:
            return True
        if d is False:
            self.dead = True
            return False
        if record:
            self.preds.append(q)
        k = q[0]
        if k == 'ge':
            p = self._content(q[1])
            if ('not', ('eq', p)) in self.preds or ('not', ('eq', -p)) in self.preds:
                return self._assume_ge(p - 1)
            return self._assume_ge(q[1])
        if k == 'eq':
            return self._assume_eq(q[1])
        if k == 'and':
            return self.assume(q[1], False) and self.assume(q[2], False)
        if k == 'not':
            r = q[1]
            if r[0] == 'or':
                return self.assume(p_not(r[1]), False) and self.assume(p_not(r[2]), False)
            if r[0] == 'and':
                # !(a && b): if one side is decided true the other is false
                a, b = self.decide(r[1]), self.decide(r[2])
                if a is True:
                    return self.assume(p_not(r[2]), False)
                if b is True:
                    return self.assume(p_not(r[1]), False)
                return True
            if r[0] == 'eq':
                if not record:
                    self.preds.append(q)
                p = self.clear(self.simp(r[1])) if True else r[1]
                if p is not None and not p.is_const:
                    lo, hi = self.range(p)
                    if lo == 0:
                        return self._assume_ge(p - 1)
                    if hi == 0:
                        return self._assume_ge(-p - 1)
                return True
            return True
        if k == 'or':
            a, b = self.decide(q[1]), self.decide(q[2])
            if a is False:
                return self.assume(q[2], False)
            if b is False:
                return self.assume(q[1], False)
            return True
        return True

    def _flat_bounds(self, p):
        """bounds of a quantity that is >= 0 exactly when p is"""
        f = self._flat(p)
        if f is None:
            return None
        lo, hi = self._basic(f, 0)
        if f.nonconst().t:
            key, s = canon_key(f)
            r = self.rng.get(key)
            if r is not None:
                a, b = r if s > 0 else (-r[1], -r[0])
                lo, hi = max(lo, iadd(a, f.const)), min(hi, iadd(b, f.const))
        return lo, hi

    def _flat(self, p):
        """c + floor(n/q) >= 0 iff q*c + n >= 0, and c - floor(n/q) >= 0 iff q*c + q-1 - n >= 0"""
        hit, n = False, 0
        small = len(p.t) <= 6
        if any(len(m) > 1 for m in p.t) and not small:
            return None
        nc = [m for m in p.t if m != ()]
        if len(nc) == 1 and len(nc[0]) == 1 and nc[0][0][1] == 1:
            at, k = X.atom_by_id(nc[0][0][0]), p.t[nc[0]]
            if at.kind == 'div' and not at.args[1].is_const:
                r, q = at.args
                if self.range(q)[0] < 1:
                    return None
                if k > 0:
                    return self._content(self.simp(r + q * (p.const // k)))
                return self._content(self.simp(q * (p.const // -k + 1) - 1 - r))
        while n < 120:
            best = None
            for m, c in p.t.items():
                if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                    continue
                at = X.atom_by_id(m[0][0])
                if at.kind == 'div' and at.args[1].is_const and at.args[1].const > 1:
                    if best is None or at.id > best[0].id:
                        best = (at, c)
            if best is None:
                break
            at, c = best
            r, q = at.args[0], at.args[1].const
            if any(len(m) > 1 for m in r.t) and not small:
                return None
            rest = p - P(at) * c
            if at.id in rest.atoms() or any(e < 0 for m in rest.t for _, e in m):
                break
            p = rest * q + r if c == 1 else rest * q + (q - 1) - r
            if len(p.t) > 160:
                return None
            p = self.simp(p)
            hit = True
            n += 1
        if not hit:
            return None
        return self._content(p)

    def _content(self, p):
        """p >= 0 divided by the content of its non-constant part"""
        g = 0
        for m, c in p.t.items():
            if m != ():
                g = _g(g, c)
        if g > 1 and all(e > 0 for m in p.t for _, e in m):
            p = Poly({m: c // g for m, c in p.t.items() if m != ()}) + (p.const // g)
        return p

    def _record(self, p):
        """note p >= 0 as a fact, without looking for consequences"""
        if p.is_const:
            if p.const < 0:
                self.dead = True
                return False
            return True
        key, s = canon_key(p)
        lo, hi = self._basic(key, 0)
        r = self.rng.get(key)
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if s > 0:
            lo = max(lo, -p.const)
        else:
            hi = min(hi, p.const)
        if lo > hi:
            self.dead = True
            return False
        self.rng[key] = (lo, hi)
        self.memo = {}
        return True

    def _assume_ge(self, p, flat=True):
        p = self.simp(p)
        p2 = self.clear(p)
        if p2 is not None:
            p = p2
        if p.is_const:
            if p.const < 0:
                self.dead = True
                return False
            return True
        if flat:
            f = self._flat(p)
            if f is not None and not self._record(f):
                return False
        # integer tightening by content
        g = 0
        for m, c in p.t.items():
            if m != ():
                g = _g(g, c)
        if g > 1 and all(e > 0 for m in p.t for _, e in m):
            p = Poly({m: c // g for m, c in p.t.items() if m != ()}) + (p.const // g)
        n = p.nonconst()
        c = p.const
        # n >= -c
        if len(n.t) == 1:
            (m, k), = n.t.items()
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                a = m[0][0]
                lo, hi = self.arange(a)
                if k == 1:
                    lo = max(lo, -c)
                else:
                    hi = min(hi, c)
                if lo > hi:
                    self.dead = True
                    return False
                self.arng[a] = (lo, hi)
                self.memo = {}
                if not self._len_fact(a, lo, hi):
                    return False
                if lo == hi:
                    if lo == 0 and X.atom_by_id(a).kind in ('gcd', 'pow'):
                        return self._assume_eq(P(X.atom_by_id(a)))
                    return self._subst(a, P(int(lo)))
                return True
            if len(m) > 1 and c <= 0 and all(e > 0 for _, e in m):
                # k*prod >= -c >= 0: the sign of the one undetermined factor follows
                unk, sg = [], (1 if k > 0 else -1)
                for a, e in m:
                    l, h = self.arange(a)
                    if e % 2 == 0:
                        if l <= 0 <= h and c == 0:
                            unk.append((a, e))
                    elif l >= 1:
                        pass
                    elif h <= -1:
                        sg = -sg
                    else:
                        unk.append((a, e))
                if len(unk) == 1 and unk[0][1] % 2 == 1:
                    x = P(X.atom_by_id(unk[0][0])) * sg
                    if not self._assume_ge(x - (1 if c < 0 else 0)):
                        return False
        key, s = canon_key(p)
        cur = self.range(key)
        lo, hi = cur
        if s > 0:
            lo = max(lo, -c)
        else:
            hi = min(hi, c)
        if lo > hi:
            self.dead = True
            return False
        self.rng[key] = (lo, hi)
        self.memo = {}
        if lo == hi:
            return self._assume_eq(key - int(lo))
        # propagate onto single atoms (one round)
        return self._propagate(key, lo, hi)

    def _len_fact(self, a, lo, hi):
        """lo <= len(x) <= hi: x has at least lo limbs and at most hi"""
        at = X.atom_by_id(a)
        if at.kind != 'len':
            return True
        x = at.args[0]
        if 2 <= lo < 4096 and not self._assume_ge(x - (1 << (32 * (int(lo) - 1)))):
            return False
        if 1 <= hi < 4096 and not self._assume_ge(P((1 << (32 * int(hi))) - 1) - x):
            return False
        return True

    def _propagate(self, f, lo, hi):
        for m, c in f.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                a = m[0][0]
                rest = f - Poly({m: c})
                rl, rh = self._basic(rest, 1)
                al, ah = self.arange(a)
                # lo <= c*a + rest <= hi
                if c == 1:
                    nl = -INF if rh == INF or lo == -INF else iadd(lo, -rh)
                    nh = INF if rl == -INF or hi == INF else iadd(hi, -rl)
                else:
                    nl = -INF if hi == INF or rl == -INF else iadd(rl, -hi)
                    nh = INF if lo == -INF or rh == INF else iadd(rh, -lo)
                if nl != nl:
                    nl = -INF
                if nh != nh:
                    nh = INF
                al2, ah2 = max(al, nl), min(ah, nh)
                if al2 > ah2:
                    self.dead = True
                    return False
                if (al2, ah2) != (al, ah):
                    self.arng[a] = (al2, ah2)
                    self.memo = {}
        return True

    def _assume_eq(self, p):
        p = self.simp(p)
        p2 = self.clear(p)
        if p2 is not None:
            p = p2
        if p.is_const:
            if p.const:
                self.dead = True
                return False
            return True
        # product == 0 with all but one factor nonzero
        if len(p.t) == 1:
            (m, c), = p.t.items()
            zs = [a for a, e in m if self.arange(a)[0] <= 0 <= self.arange(a)[1] and not self._nz(a)]
            if len(zs) == 1:
                at = X.atom_by_id(zs[0])
                if at.kind == 'gcd':
                    return self._assume_eq(at.args[0]) and self._assume_eq(at.args[1])
                if at.kind == 'pow':
                    return self._assume_eq(at.args[0])
                return self._subst(zs[0], ZERO)
            if not zs:
                self.dead = True
                return False
        else:
            r = self.radix(p)
            if r:
                return self._assume_eq(r[0]) and self._assume_eq(r[1])
            if len(p.t) == 2 and len(self.cop) >= 2:
                for i, (n1, d1) in enumerate(self.cop):
                    for n2, d2 in self.cop[i + 1:]:
                        x = n1 * d2 - n2 * d1
                        if x == p or x == -p:
                            if self.range(d1)[0] >= 1 and self.range(d2)[0] >= 1:
                                return self._assume_eq(n1 - n2) and self._assume_eq(d1 - d2)
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                a = m[0][0]
                rest = (p - Poly({m: c})) * (-c)
                if self._occurs(a, rest):
                    continue
                k = X.atom_by_id(a).kind
                rank = (0 if k != 'sym' else 1, -a)
                if rest.is_const:
                    rank = (-1, -a)
                if best is None or rank < best[0]:
                    best = (rank, a, rest)
        if best:
            # range consistency
            lo, hi = self.arange(best[1])
            rl, rh = self.range(best[2])
            if rl > hi or rh < lo:
                self.dead = True
                return False
            at = X.atom_by_id(best[1])
            if at.kind == 'div' and at.args[1].is_const and at.args[1].const > 1 and len(best[2].t) < 100:
                r, q = at.args
                for x in (r - q * best[2], q * best[2] + q - 1 - r):
                    f = self._flat(x)
                    if f is None:
                        f = self.simp(x)
                        if len(f.t) > 4 or f.has_div() or any(e < 0 for m in f.t for _, e in m):
                            continue
                        f = self._content(f)
                    if not self._record(f):
                        return False
            elif at.kind == 'div' and best[2].is_const and self.range(at.args[1])[0] >= 1:
                r, q = at.args
                for x in (r - q * best[2], q * best[2] + q - 1 - r):
                    if not self._record(self._content(self.simp(x))):
                        return False
            if not self._subst(best[1], best[2]):
                return False
            # transfer interval knowledge to the replacement
            if not best[2].is_const:
                if lo > -INF and not self._assume_ge(best[2] - int(lo)):
                    return False
                if hi < INF and not self._assume_ge(P(int(hi)) - best[2]):
                    return False
            return True
        key, s = canon_key(p)
        v = -p.const * s
        lo, hi = self.range(key)
        if v < lo or v > hi:
            self.dead = True
            return False
        self.rng[key] = (v, v)
        self.memo = {}
        return True

    def _occurs(self, a, p):
        for b in p.atoms():
            if b == a:
                return True
            at = X.atom_by_id(b)
            if at.kind != 'sym':
                for x in at.args:
                    if isinstance(x, Poly) and self._occurs(a, x):
                        return True
        return False

    def _subst(self, a, p):
        pre = [self.range(d)[0] for _, d in self.cop]
        if not self._subst0(a, p):
            return False
        # a reduced fraction whose denominator divides the numerator is an integer
        for (n, d), lo in zip(self.cop, pre):
            if a in n.atoms() or a in d.atoms():
                n2, d2 = self.simp(n), self.simp(d)
                if d2.is_const or not d2.t:
                    continue
                if exact_div(n2, d2) is not None and lo >= 1:
                    if lo > 1:
                        self.dead = True
                        return False
                    if not self._assume_eq(d2 - 1):
                        return False
        return True

    def _subst0(self, a, p):
        lo, hi = self.arange(a)
        r = self.range(p)
        if r[0] > hi or r[1] < lo:
            self.dead = True
            return False
        self.sub[a] = p
        self.memo = {}
        if p.is_const and not self._len_fact(a, p.const, p.const):
            return False
        for k in list(self.sub):
            if k != a:
                self.sub[k] = self._simp1(self.sub[k])
        old = self.rng
        self.rng = {}
        self.memo = {}
        for f, (l, h) in old.items():
            g = self.simp(f)
            if g == f:
                self.rng[f] = (l, h)
                self.memo = {}
                continue
            if g.is_const:
                if not (l <= g.const <= h):
                    self.dead = True
                    return False
                continue
            if l > -INF and not self._assume_ge(g - int(l)):
                return False
            if h < INF and not self._assume_ge(P(int(h)) - g):
                return False
        return True

    # ---------------------------------------------------------- constructors
    def learn(self, v, a, b):
        """record the implied fact a <= v <= b unless it is already visible"""
        if v.is_const:
            return
        rl, rh = self.range(v)
        if rl >= a and rh <= b:
            return
        a, b = max(a, rl), min(b, rh)
        i = v.single_atom()
        if i is not None:
            self.arng[i] = (a, b)
            self.memo = {}
            return
        key, s = canon_key(v)
        a, b = iadd(a, -v.const), iadd(b, -v.const)
        if s < 0:
            a, b = -b, -a
        o = self.rng.get(key, (-INF, INF))
        self.rng[key] = (max(a, o[0]), min(b, o[1]))
        self.memo = {}

    def mk_div(self, p, q):
        """floor division, q > 0"""
        p, q = self.simp(p), self.simp(q)
        if q.is_const and q.const > 1:
            lo, hi = self.range(p)
            if lo > -INF and hi < INF and 0 < hi // q.const - lo // q.const <= 2 and len(p.t) <= 6 and p.has_div():
                # few candidates for the quotient, and the divisor inside is not a constant: decide it
                a, b = int(lo) // q.const, int(hi) // q.const
                while a < b and self.decide(('ge', p - (a + 1) * q.const)) is True:
                    a += 1
                while a < b and self.decide(('ge', p - b * q.const)) is False:
                    b -= 1
                if a == b:
                    return P(a)
            v = self._mk_div(p, q)
            if not v.is_const and (lo > -INF or hi < INF):
                c = q.const
                self.learn(v, lo if lo == -INF else int(lo) // c, hi if hi == INF else int(hi) // c)
            return v
        if not q.is_const and p.t and q.t:
            g = 0
            for k in list(p.t.values()) + list(q.t.values()):
                g = _g(g, k)
                if g == 1:
                    break
            if g > 1 and all(e > 0 for x in (p, q) for m in x.t for _, e in m):
                p = Poly({m: k // g for m, k in p.t.items()})
                q = Poly({m: k // g for m, k in q.t.items()})
                if q.is_const:
                    return self.mk_div(p, q)
        return self._mk_div(p, q)

    def _mk_div(self, p, q):
        if q.is_const:
            c = q.const
            if c == 1:
                return p
            if c <= 0:
                return opaque('div by nonpositive')
            u, r = {}, {}
            for m, k in p.t.items():
                if m and any(e < 0 for _, e in m) and not self.integral(m):
                    r[m] = k
                    continue
                a, b = divmod(k, c)
                if m != () and b > c // 2 and False:
                    a, b = a + 1, b - c
                if a:
                    u[m] = a
                if b:
                    r[m] = b
            u, r = Poly(u), Poly(r)
            # prefer small signed remainders for non-constant monomials when it
            # makes the remainder vanish or fall in range
            if not r.t:
                return u
            lo, hi = self.range(r)
            if lo > -INF and hi < INF and lo // c == hi // c:
                return u + int(lo // c)
            # try with the original (unsplit) negative coefficients
            neg = Poly({m: (k if k <= c // 2 else k - c) for m, k in r.t.items() if m != ()}) + r.const
            if neg != r:
                u2 = u + Poly({m: 1 for m, k in r.t.items() if m != () and k > c // 2})
                lo, hi = self.range(neg)
                if lo > -INF and hi < INF and lo // c == hi // c:
                    return u2 + int(lo // c)
            # common factor
            g = c
            for m, k in r.t.items():
                if m != ():
                    g = _g(g, k)
            if g > 1:
                r = Poly({m: k // g for m, k in r.t.items() if m != ()}) + (r.const // g)
                c //= g
                if c == 1:
                    return u + r
            i = r.single_atom()
            if i is not None:
                at = X.atom_by_id(i)
                if at.kind == 'div':
                    if at.args[1].is_const:
                        return u + self.mk_div(at.args[0], at.args[1] * c)
                    return u + self.mk_div(self.mk_div(at.args[0], P(c)), at.args[1])
                if at.kind == 'and' and at.args[1].is_const and c & (c - 1) == 0:
                    return u + self.mk_and(self.mk_div(at.args[0], P(c)), at.args[1].const // c)
            # drop low part: r = m*X + small with small in [0, gcd) -> handled by ranges
            r2 = self._drop_low(r, c)
            if r2 is not None:
                return u + self.mk_div(r2[0], P(r2[1]))
            return u + P(atom('div', (r, P(c))))
        if p.is_const and p.const == 0:
            return ZERO
        # exact polynomial division
        if p == q:
            return ONE
        e = exact_div(p, q)
        if e is not None:
            return e
        i = q.single_atom()
        if i is not None:
            at = X.atom_by_id(i)
            if at.kind == 'gcd':
                x, y = at.args
                for z in (x, y):
                    if not z.t:
                        continue
                    e = exact_div(p, z)
                    if e is not None:
                        return p * Poly({((i, -1),): 1})
            # pull out monomials divisible by the atom
            u, r = {}, {}
            for m, k in p.t.items():
                d = dict(m)
                if d.get(i, 0) >= 1:
                    u[mono_mul(m, ((i, -1),))] = k
                else:
                    r[m] = k
            if u:
                return Poly(u) + self.mk_div(Poly(r), q)
        else:
            pass
        if len(q.t) == 1:
            (m0, c0), = q.t.items()
            if c0 == 1 and len(m0) >= 1:
                u, r = {}, {}
                for m, k in p.t.items():
                    d = dict(m)
                    m2 = mono_mul(m, tuple((a, -e) for a, e in m0))
                    if all(d.get(a, 0) >= e for a, e in m0) or self.integral(m2):
                        u[m2] = k
                    else:
                        r[m] = k
                if u:
                    return Poly(u) + self.mk_div(Poly(r), q)
        lo, hi = self.range(p)
        ql, qh = self.range(q)
        if lo >= 0 and ql >= 1:
            if self.decide(p_lt(p, q)) is True:
                return ZERO
        if len(q.t) > 1 or q.t and next(iter(q.t.values())) != 1:
            u, r = self._pull(p, q)
            if u.t:
                v = u + self.mk_div(r, q)
                if lo >= 0 and ql >= 1 and not v.is_const and self.guard < 3:
                    # what the unsplit quotient is known to satisfy
                    self.guard += 1
                    try:
                        cap = INF
                        for b in (8, 16, 32, 64, 96, 128):
                            if self.decide(p_lt(p, q * (1 << b))) is True:
                                cap = (1 << b) - 1
                                break
                        self.learn(v, 0, cap)
                    finally:
                        self.guard -= 1
                return v
        return P(atom('div', (p, q)))

    def _pull(self, p, q):
        """p = q*u + r with as many whole multiples of q taken out as are visible"""
        lm = max(q.t, key=mono_key)
        lc = q.t[lm]
        u = ZERO
        for m in list(p.t):
            c = p.t.get(m)
            if c is None or c % lc:
                continue
            d = dict(m)
            if not all(d.get(a, 0) >= e for a, e in lm):
                continue
            t = mono_mul(m, tuple((a, -e) for a, e in lm))
            if any(e < 0 for _, e in t):
                continue
            k = c // lc
            if all(p.t.get(mono_mul(mq, t)) == k * cq for mq, cq in q.t.items()):
                u = u + Poly({t: k})
                p = p - q * Poly({t: k})
        return u, p

    def _drop_low(self, r, c):
        """r = g*H + L with 0 <= L < g, g | c: floor(r/c) = floor(H/(c/g))"""
        cs = sorted({abs(k) for m, k in r.t.items() if m != ()}, reverse=True)
        for g in cs:
            if g <= 1 or c % g:
                continue
            H = Poly({m: k for m, k in r.t.items() if k % g == 0 and m != ()})
            L = r - H
            if not L.t:
                continue
            lo, hi = self.range(L)
            if lo >= 0 and hi < g:
                return Poly({m: k // g for m, k in H.t.items()}), c // g
            if lo > -INF and hi < INF and lo // g == hi // g:
                return Poly({m: k // g for m, k in H.t.items()}) + int(lo // g), c // g
        return None

    def mk_mod(self, p, q):
        return p - q * self.mk_div(p, q)

    def mk_gcd(self, a, b):
        a, b = self.simp(a), self.simp(b)
        # sign and order insensitive
        a, b = self._possign(a), self._possign(b)
        if a.is_const and b.is_const:
            return P(X._gcd(a.const, b.const))
        if a.is_const and abs(a.const) == 1 or b.is_const and abs(b.const) == 1:
            return ONE
        if not a.t:
            return self.mk_abs(b)
        if not b.t:
            return self.mk_abs(a)
        for x, y in self.cop:
            if (self._possign(x), self._possign(y)) in ((a, b), (b, a)):
                return ONE
        # gcd(x + y*t, y) = gcd(x, y)
        for x, y in ((a, b), (b, a)):
            if y.is_const and not any(e < 0 for m in x.t for _, e in m) and any(abs(c) >= abs(y.const) or c.denominator != 1 for c in x.t.values()):
                if all(c.denominator == 1 for c in x.t.values()):
                    return self.mk_gcd(Poly({m: c % abs(y.const) for m, c in x.t.items() if c % abs(y.const)}), y)
        for x, y in ((a, b), (b, a)):
            if len(y.t) == 1 and len(x.t) >= 1:
                r = {m: c for m, c in x.t.items() if any(e < 0 for _, e in m) or exact_div(Poly({m: c}), y) is None}
                if len(r) < len(x.t):
                    return self.mk_gcd(Poly(r), y)
            elif len(y.t) > 1:
                u, r = self._pull(x, y)
                if u.t:
                    return self.mk_gcd(r, y)
        if hash_key(a) > hash_key(b):
            a, b = b, a
        return P(atom('gcd', (a, b), 0, INF))

    def mk_div_exact(self, p, g):
        """p / g where g divides p by construction (g a gcd having p as argument)"""
        p, g = self.simp(p), self.simp(g)
        if g.is_const and g.const == 1:
            return p
        i = g.single_atom()
        if i is not None and X.atom_by_id(i).kind == 'gcd':
            return p * Poly({((i, -1),): 1})
        return self.mk_div(p, g)

    # ------------------------------------------------------------- coprimality
    def _factors(self, p):
        """multiplicative factors: ('p', poly) or ('c', poly, gcd atom) = poly / gcd"""
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        out = []
        if neg:
            if any(X.atom_by_id(a).kind != 'gcd' for a in neg):
                return None
            A = p * Poly({tuple(sorted(neg.items())): 1})
            for a, e in neg.items():
                for _ in range(e):
                    x, y = X.atom_by_id(a).args
                    for z in (x, y):
                        q = exact_div(A, z) if z.t else None
                        if q is not None:
                            out.append(('c', z, a))
                            A = q
                            break
                    else:
                        return None
            p = A
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if abs(c) != 1 or not m:
                out.append(('p', P(c)))
            for a, e in m:
                at = X.atom_by_id(a)
                if at.kind == 'pow':
                    out.append(('p', at.args[0]))
                else:
                    out.append(('p', P(at)))
        else:
            out.append(('p', p))
        return out

    def coprime(self, a, b, depth=0):
        if depth > 6:
            return False
        a, b = self._possign(self.simp(a)), self._possign(self.simp(b))
        for x, y in ((a, b), (b, a)):
            if x.is_const and x.const == 1:
                return True
        if a.is_const and b.is_const:
            return X._gcd(a.const, b.const) == 1
        if not a.t or not b.t:
            return False
        for x, y in self.cop:
            if (self._possign(x), self._possign(y)) in ((a, b), (b, a)):
                return True
        g = self.simp(self._gcd_atom(a, b))
        if g.is_const and g.const == 1:
            return True
        # gcd(a + b*x, b) = gcd(a, b)
        for x, y in ((a, b), (b, a)):
            if len(y.t) == 1 and len(x.t) > 1:
                r = {m: c for m, c in x.t.items() if exact_div(Poly({m: c}), y) is None}
                if len(r) < len(x.t):
                    return self.coprime(Poly(r), y, depth + 1)
        fa, fb = self._factors(a), self._factors(b)
        if fa is None or fb is None:
            return False
        if len(fa) == 1 and len(fb) == 1 and fa[0][0] == 'p' and fb[0][0] == 'p':
            x, y = fa[0][1], fb[0][1]
            if (self._possign(x), self._possign(y)) == (a, b):
                return False
            return self.coprime(x, y, depth + 1)
        for x in fa:
            for y in fb:
                if not self._cop_pair(x, y, depth):
                    return False
        return True

    def _cop_pair(self, x, y, depth):
        if x[0] == 'c' and y[0] == 'c' and x[2] == y[2]:
            g = X.atom_by_id(x[2])
            if {x[1], y[1]} == set(g.args) or {self._possign(x[1]), self._possign(y[1])} == set(g.args):
                return True
        return self.coprime(x[1], y[1], depth + 1)

    def _gcd_atom(self, a, b):
        if hash_key(a) > hash_key(b):
            a, b = b, a
        return P(atom('gcd', (a, b), 0, INF))

    def _possign(self, p):
        if p.t and p.t[min(p.t)] < 0:
            return -p
        return p

    def mk_abs(self, p):
        p = self.simp(p)
        lo, hi = self.range(p)
        if lo >= 0:
            return p
        if hi <= 0:
            return -p
        return P(atom('abs', (self._possign(p),), 0, INF))

    def mk_ilog2(self, p):
        """floor(log2 p), p >= 1"""
        p = self.simp(p)
        if p.is_const:
            return P(p.const.bit_length() - 1)
        lo, hi = self.range(p)
        if lo >= 1 and hi < INF and int(lo).bit_length() == int(hi).bit_length():
            return P(int(lo).bit_length() - 1)
        cs = sorted({abs(k) for m, k in p.t.items() if m != ()}, reverse=True)
        for g in cs:
            if g <= 1 or g & (g - 1):
                continue
            H = Poly({m: k for m, k in p.t.items() if k % g == 0})
            L = p - H
            l, h = self.range(L)
            if l >= 0 and h < g:
                H = Poly({m: k // g for m, k in H.t.items()})
                if self.range(H)[0] >= 1:
                    return self.mk_ilog2(H) + (g.bit_length() - 1)
        return P(atom('ilog2', (p,), 0, INF))

    def radix(self, p):
        """p = g*H + L with |L| < g: p == 0 iff H == 0 and L == 0"""
        cs = sorted({abs(k) for m, k in p.t.items() if m != ()})
        if len(cs) < 2:
            return None
        for g in cs[1:]:
            H = Poly({m: k // g for m, k in p.t.items() if k % g == 0})
            L = p - H * g
            if not L.t or not H.t:
                continue
            lo, hi = self.range(L)
            if -g < lo and hi < g:
                return H, L
        return None

    def mk_len(self, p):
        if not p.is_const:
            lo, hi = self.range(p)
            if 0 <= lo and hi < INF and limbs(lo) == limbs(hi):
                return P(limbs(lo))
        return mk_len(p)

    def mk_and(self, p, mask):
        """p & const mask, p >= 0"""
        if mask == 0:
            return ZERO
        if p.is_const:
            return P(p.const & mask)
        if len(p.t) == 1:
            (m, k), = p.t.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                at = X.atom_by_id(m[0][0])
                if at.kind in ('xor', 'or'):
                    x, y = self.mk_and(at.args[0], mask), self.mk_and(at.args[1], mask)
                    return self.mk_xor(x, y) if at.kind == 'xor' else self.mk_or(x, y)
        lo, hi = self.range(p)
        if lo < 0:
            return P(atom('and', (p, P(mask))))
        # contiguous low mask
        if mask & (mask + 1) == 0:
            return self.mk_mod(p, P(mask + 1))
        # contiguous shifted mask
        low = mask & -mask
        hm = mask // low
        if hm & (hm + 1) == 0:
            return self.mk_mod(self.mk_div(p, P(low)), P(hm + 1)) * low
        if hi < INF and int(hi) < (1 << mask.bit_length()):
            pass
        return P(atom('and', (p, P(mask))))

    def align(self, p):
        """largest power of two known to divide p"""
        g = 0
        for m, c in p.t.items():
            if any(e < 0 for _, e in m):
                return 1
            cc = c
            for a, e in m:
                at = X.atom_by_id(a)
                if at.kind == 'pow2':
                    l, _ = self.range(at.args[0])
                    if 0 < l < 100000:
                        cc <<= int(l) * e
            g = _g(g, cc)
        return g & -g if g else 1 << 4096

    def one_bit(self, p, w):
        """the value (0 or 1) of the bit of weight w (a power of two) of p >= 0"""
        lo, hi = self.range(p)
        if lo < 0:
            return None
        b = self.mk_div(p, P(w))
        if b.is_const or hi < 2 * w:
            return self.simp(b) if not b.is_const else P(b.const & 1)
        return self.mk_mod(b, P(2))

    def mk_or(self, p, q):
        """p | q, both >= 0; exact sum when the bit ranges are disjoint"""
        if p.is_const and q.is_const:
            return P(p.const | q.const)
        for a, b in ((p, q), (q, p)):
            if b.is_const and b.const > 0 and b.const & (b.const - 1) == 0 and not self.range(a)[1] < b.const:
                t = self.one_bit(a, b.const)
                if t is not None:
                    return a + (1 - t) * b.const
        for a, b in ((p, q), (q, p)):
            if not b.t:
                return a
            la, ha = self.range(a)
            lb, hb = self.range(b)
            if la >= 0 and lb >= 0 and ha < INF and ha < self.align(b):
                return a + b
        if hash_key(p) > hash_key(q):
            p, q = q, p
        return P(atom('or', (p, q)))

    def mk_xor(self, p, q):
        if p.is_const and q.is_const:
            return P(p.const ^ q.const)
        for a, b in ((p, q), (q, p)):
            la, ha = self.range(a)
            lb, hb = self.range(b)
            if la >= 0 and lb >= 0 and ha < INF and ha < self.align(b):
                return a + b
            if b.is_const and b.const > 0 and b.const & (b.const - 1) == 0:
                t = self.one_bit(a, b.const)
                if t is not None:
                    return a + (1 - 2 * t) * b.const
        if hash_key(p) > hash_key(q):
            p, q = q, p
        return P(atom('xor', (p, q)))


def _nested(at):
    """floor(floor(r/c)/q) = floor(r/(c*q))"""
    n, d = at.args
    while len(n.t) == 1:
        (m, k), = n.t.items()
        if k != 1 or len(m) != 1 or m[0][1] != 1:
            break
        x = X.atom_by_id(m[0][0])
        if x.kind != 'div':
            break
        n, d = x.args[0], x.args[1] * d
    return n, d


def hash_key(p):
    return sorted(p.t.items())


_g = X._gcd


def mk_pow2(e):
    if e.is_const and 0 <= e.const < 20000:
        return P(1 << e.const)
    # normal form: 2^(c + sum k_i m_i) = 2^c * prod (2^m_i)^k_i
    c = e.const
    r = ONE
    if 0 < c < 20000:
        r = P(1 << c)
        e = e - c
        c = 0
    if c == 0 and all(abs(k) <= 4096 for k in e.t.values()):
        mono = []
        for m, k in e.t.items():
            a = atom('pow2', (Poly({m: 1}),), 0, INF)
            mono.append((a.id, k))
        return r * Poly({tuple(sorted(mono)): 1})
    return r * P(atom('pow2', (e,), 0, INF))


def mk_pow(b, e):
    if e.is_const and 0 <= e.const <= 64:
        if len(b.t) <= 2 or e.const <= 4 or len(b.t) ** e.const <= 100000 and e.const <= 9:
            return b ** e.const
    if b.is_const and b.const == 2:
        return mk_pow2(e)
    if b.is_const and b.const == 1:
        return ONE
    if b.is_const and b.const == 0 and e.is_const:
        return ONE if e.const == 0 else ZERO
    # pull a sign out of a single negative monomial
    return P(atom('pow', (b, e)))


def mk_len(p):
    if p.is_const:
        return P(limbs(p.const))
    return P(atom('len', (p,), 1, INF))


def exact_div(p, q):
    """p / q when the polynomial division is exact (multivariate, lex order)"""
    if not q.t:
        return None
    if len(q.t) == 1:
        (m0, c0), = q.t.items()
        r = {}
        for m, c in p.t.items():
            if c % c0:
                return None
            d = dict(m)
            if not all(d.get(a, 0) >= e for a, e in m0):
                return None
            r[mono_mul(m, tuple((a, -e) for a, e in m0))] = c // c0
        return Poly(r)
    lm = max(q.t, key=mono_key)
    lc = q.t[lm]
    r = {}
    cur = p
    for _ in range(60):
        if not cur.t:
            return Poly(r)
        cm = max(cur.t, key=mono_key)
        cc = cur.t[cm]
        d = dict(cm)
        if cc % lc or not all(d.get(a, 0) >= e for a, e in lm):
            return None
        m = mono_mul(cm, tuple((a, -e) for a, e in lm))
        if any(e < 0 for _, e in m):
            return None
        r[m] = r.get(m, 0) + cc // lc
        cur = cur - q * Poly({m: cc // lc})
    return None


def mono_key(m):
    # graded: total degree first, then lexicographic on atoms
    return (sum(e for _, e in m), tuple(sorted(m, reverse=True)))
