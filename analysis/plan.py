"""Which functions, on which partition of their inputs, decide which property."""
import itertools
import json
import os
import re
import specs as SP
import verify as VF
import engine as EN
import fspecs as FS
import fplan as FPL
import tspecs as TS
import tplan as TPL

HERE = os.path.dirname(os.path.abspath(__file__))
ANCHORS = json.load(open(os.path.join(HERE, 'anchors.json'))) if os.path.exists(os.path.join(HERE, 'anchors.json')) else {}


# functions whose one cell 'any length' is decided (they do not index limbs in a loop)
ANYLEN = set(ANCHORS.get('anylen', []))


class FnItem:
    """one function body against its summary, for one shape of its inputs"""

    def __init__(self, fn, shapes=None, aspects=('value', 'panic', 'canon'), pre=None, limit=40, weight=1, max_steps=60000, spec=None, tag=None, given=None, max_visits=None, text=False):
        self.given, self.max_visits, self.text = given, max_visits, text
        self.fn, self.shapes, self.aspects, self.pre, self.limit, self.weight, self.max_steps, self.spec = fn, shapes, aspects, pre, limit, weight, max_steps, spec
        self.tag = tag

    def label(self):
        return '%s%s%s' % (self.fn, self.shapes if self.shapes and any(s is not None for s in self.shapes) else '', ' ' + self.tag if self.tag else '')

    def run(self, prog, seed, rep):
        v = VF.Verifier(prog, seed=seed)
        v.analyse(self.fn, shapes=self.shapes, aspects=self.aspects, pre=self.pre, rep=rep, max_steps=self.max_steps, spec=self.spec, given=self.given, tag=self.label(), **dict({'max_visits': self.max_visits} if self.max_visits else {}, **({'text': True} if self.text else {})))


class CodeItem:
    """a rule over the resolved program"""

    def __init__(self, fn, run, limit=120, weight=1):
        self.fn, self._run, self.limit, self.weight = fn, run, limit, weight

    def label(self):
        return self.fn

    def run(self, prog, seed, rep):
        self._run(prog, seed, rep)


# --------------------------------------------------------------- input cells
CONST_ARG = {
    # exponents and shift amounts: a partition by value, so that loop counts are fixed
    'UBigInt::pow_u32': {1: [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17]},
    'UBigInt::pow_u32_mut': {1: [0, 1, 2, 3, 4, 5, 7, 8]},
    'UBigInt::pow2': {0: [0, 1, 5, 31, 32, 33, 63, 64, 65, 95, 96, 100]},
    'UBigInt::exp2': {0: [0, 1, 5, 31, 32, 33, 63, 64, 65, 95, 96, 100]},
    'UBigInt::mul_pow2': {1: [0, 1, 7, 31, 32, 33, 63, 64, 65]},
    'UBigInt::mul_pow2_mut': {1: [0, 1, 7, 31, 32, 33, 63, 64, 65]},
    'UBigInt::rem_pow2': {1: [1 << i for i in range(32)]},
    'UBigInt::shift_left': {1: [0, 1, 2, 3]},
    'UBigInt::shift_left_mut': {1: [0, 1, 2, 3]},
    'UBigInt::shift_right': {1: [0, 1, 2, 3, 4]},
    'UBigInt::shift_right_mut': {1: [0, 1, 2, 3, 4]},
    'UBigInt::slice_right': {1: [0, 1, 2, 3, 4]},
    'UBigInt::slice_right_mut': {1: [0, 1, 2, 3, 4]},
}
DIVSH = [[a, b] for a in range(4, 9) for b in range(1, a + 1) if a >= 5] + [[4, 5], [5, 7], [9, 2], [10, 3], [11, 6]]
EXTRA_SHAPES = {
    'UBigInt::mul': [[65, 65], [65, 66], [67, 65], [65, 131], [140, 66], [100, 101]],
    'UBigInt::mul_mut': [[65, 65], [70, 66]],
    'UBigInt::div': DIVSH,
    'UBigInt::div_mut': [[6, 3], [7, 5], [5, 5]],
    'UBigInt::rem': [[6, 3], [7, 5], [5, 5]],
    'UBigInt::rem_mut': [[6, 3], [7, 5], [5, 5]],
}
EXTRA_THOROUGH = {
    'UBigInt::mul': [[a, b] for a in (65, 70, 81, 128, 129, 160, 200) for b in (65, 68, 97, 130, 131)],
    'UBigInt::div': [[a, b] for a in range(9, 15) for b in range(2, a + 1)],
}
SKIP = {'gcd_i32', 'UBigInt::sqrt', 'BigInt::sqrt', 'gcd_ubi', 'gcd_bi'}
HEAVY = re.compile(r'UBigInt::(div|rem|mul|log2|exp2)')


def kinds(prog, fn):
    v = VF.Verifier.__new__(VF.Verifier)
    v.prog = prog
    f = prog.names[fn]
    args, res, outi = v.sig(f)
    return [a[2] if a[0] == 'ref' else a for a in args], res


def has_u(k):
    return k[0] == 'U'


def thresholds(prog, fn):
    """word-size constants a body (or a helper without a summary of its own) compares or switches on"""
    seen, todo, out = set(), [prog.names[fn]], set()
    while todo:
        f = todo.pop()
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        for b in f['blocks']:
            if b.get('u'):
                continue
            for st in b['s']:
                _consts(prog, st, out)
            _consts(prog, b['t'], out)
        todo += [g for g in callees(prog, f) if g.get('short') not in SP.SPECS]
    return out


def _consts(prog, x, out):
    if isinstance(x, list):
        if x and x[0] == 'bin' and (x[1].startswith('Sh') or ('c' in x[2] and 'c' in x[3])):
            return
        if x and x[0] == 'assert':
            return
        if x and x[0] == 'switch':
            for v in x[2]:
                out.add(int(v[0]))
        for y in x:
            _consts(prog, y, out)
    elif isinstance(x, dict):
        c = x.get('c')
        if isinstance(c, dict) and 'int' in c:
            v, t = int(c['int']), prog.types[x['t']]
            if v not in (32, 64, 96, 128) or 'size' in json.dumps(t):
                out.add(v)


LONG1 = [6, 8, 12, 20]
LONG2 = [[6, 5], [5, 6], [6, 6], [8, 1], [1, 8], [8, 2], [2, 8], [12, 8], [8, 12], [20, 1], [1, 20]]
NOLONG = {'UBigInt::rem_u32', 'UBigInt::rem_u32_mut'}
LONGMUL = [[6, 5], [5, 6], [6, 6], [8, 1], [1, 8], [8, 2], [2, 8], [9, 4]]


def long_items(prog, fn, aspects, tier, have):
    """cells with many limbs: a few fixed lengths, and the lengths around every constant the body mentions"""
    ks, _ = kinds(prog, fn)
    us = [i for i, k in enumerate(ks) if k[0] == 'U']
    ca = CONST_ARG.get(fn, {})
    th = sorted(c for c in thresholds(prog, fn) if 4 <= c <= 130)
    shapes = []

    def fill(d):
        return [d.get(i) for i in range(len(ks))]
    if len(us) == 1:
        for n in LONG1 + [c + d for c in th if c <= 40 for d in (-1, 0, 1)]:
            if not ca:
                shapes.append(fill({us[0]: n}))
            elif not fn.startswith('UBigInt::pow'):
                for i, vs in ca.items():
                    for v in (vs[1], vs[-1]):
                        shapes.append(fill({us[0]: n, i: v}))
    elif len(us) == 2:
        pairs = list(LONGMUL if '::mul' in fn else LONG2)
        cap = 12 if '::mul' in fn else 40
        for c in th:
            for d in (-1, 0, 1):
                n = c + d
                if n <= cap:
                    pairs += [[n, n], [n, 2], [2, n], [n, n - 1], [n - 1, n]]
                elif n <= 40 and '::mul' in fn:
                    pairs += [[n, 1], [1, n], [n, 2], [2, n]]
                if d == 1 and n <= 38:
                    pairs += [[n, 1], [1, n], [n + 1, 1], [1, n + 1], [n + 2, 2], [2, n + 2]]
        few = [c for c in th if c <= 24][:4]
        pairs += [[a + i, b + j] for a in few for b in few if a != b and a * b <= 150 for i, j in ((0, 0), (1, 0), (0, 1), (1, 1), (-1, 0), (0, -1))]
        for a, b in pairs:
            shapes.append(fill({us[0]: a, us[1]: b}))
    for i, vs in ca.items():
        # amounts around every constant
        for c in th:
            for d in (-1, 0, 1):
                if c + d not in vs and c + d <= 40 and not fn.startswith('UBigInt::pow_u32'):
                    for l in ([2, 4] if us else [None]):
                        shapes.append(fill({**({us[0]: l} if us else {}), i: c + d}))
    out, seen = [], set(map(repr, have))
    for sh in shapes:
        if repr(sh) in seen:
            continue
        seen.add(repr(sh))
        out.append(FnItem(fn, sh, aspects, limit=60 if tier == 'quick' else 200, weight=3 * sum(x for x in sh if x), max_steps=400000))
    return out


def limb_items(prog, fn, mx, aspects, mx1=None):
    ks, _ = kinds(prog, fn)
    nu = sum(1 for k in ks if k[0] == 'U')
    opts = []
    ca = CONST_ARG.get(fn, {})
    top = mx if nu > 1 else (mx1 or mx)
    for i, k in enumerate(ks):
        if k[0] == 'U':
            opts.append(list(range(1, top + 1)))
        elif i in ca:
            opts.append(ca[i])
        else:
            opts.append([None])
    out = []
    for s in itertools.product(*opts):
        w = sum(x for x in s if isinstance(x, int)) + (5 if HEAVY.search(fn) else 0)
        if fn.startswith('UBigInt::pow_u32') and s[0] * (s[1] or 0) > 20:
            continue
        out.append(FnItem(fn, list(s), aspects, limit=60, weight=w))
    return out


# matrices and polynomials: cells by dimension
CD = 'cd'


def vv(*rows):
    return [[CD] * r for r in rows]


SQ = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5)]
ANYM = [(0, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1)]
CELLS = {
    'BigInt::rem_pow2': [[None, 1 << i] for i in range(31)],
    'Matrix::from_vec': [[vv()], [vv(0)], [vv(1)], [vv(2, 2)], [vv(3, 3)], [vv(2, 3)], [vv(3, 2)], [vv(1, 1, 1)], [vv(2, 2, 1)], [vv(2, 1, 2)], [vv(0, 1)], [vv(1, 0)], [vv(2, 2, 2, 3)], [vv(3, 3, 3)]],
    'Matrix::from_raw': [[vv(2, 2), 2, 2], [vv(3, 3), 3, 2], [vv(1, 1, 1), 1, 3], [vv(), 0, 0]],
    'Matrix::zeros': [[a, b] for a in range(0, 4) for b in range(0, 4)],
    'Matrix::identity': [[a] for a in range(0, 6)],
    'Matrix::is_square': [[a] for a in ANYM],
    'Matrix::get': [[(r, c), i, j] for r, c in ((1, 1), (2, 2), (2, 3), (3, 2), (1, 4)) for i in range(r) for j in range(c)],
    'Matrix::add': [[a, a] for a in ANYM + [(4, 4)]] + [[(2, 2), (2, 3)], [(2, 2), (3, 2)], [(2, 3), (3, 2)], [(1, 4), (2, 2)], [(0, 0), (1, 1)], [(1, 4), (4, 1)], [(2, 6), (3, 4)]],
    'Matrix::mul': [[a, b] for a in ANYM for b in ANYM if a[0] * a[1] * b[1] <= 27] + [[(4, 4), (4, 4)]],
    'Matrix::mul_k': [[a, CD] for a in ANYM + [(4, 4)]],
    'Matrix::transpose': [[a] for a in ANYM + [(4, 4), (2, 5), (3, 4)]],
    'Matrix::determinant': [[a] for a in SQ + [(6, 6), (1, 2), (2, 1), (3, 2), (2, 3), (4, 5), (5, 4), (1, 4)]],
    'Matrix::determinant_2_by_2': [[(2, 2)]],
    'Matrix::determinant_3_by_3': [[(3, 3)]],
    'Matrix::determinant_4_by_4': [[(4, 4)]],
    'Matrix::inverse': [[a] for a in SQ[:5] + [(1, 2), (2, 1), (3, 2), (2, 3), (4, 5)]],
    '<Matrix as Clone>::clone': [[a] for a in ANYM],
    '<Matrix as PartialEq>::eq': [[a, b] for a in ANYM[:7] for b in ANYM[:7]],
    'Polynomial::from_vec': [[[CD] * n] for n in range(0, 7)],
    'Polynomial::to_vec': [[n] for n in range(1, 5)],
    'Polynomial::calc': [[n, CD] for n in range(1, 8)],
    'Polynomial::differentiate': [[n] for n in range(1, 9)],
    'Polynomial::mul_k': [[n, CD] for n in range(1, 7)],
    'Polynomial::newton_method': [[n, CD, None] for n in range(1, 6)] + [[n, CD, m] for n, m in ((2, 1), (3, 2), (4, 3), (2, 3))],
    '<Polynomial as Clone>::clone': [[n] for n in range(1, 4)],
    'linear_2_points': [[CD] * 4],
    'cubic_2_points': [],
    'quadratic_3_points': [],
    'from_points': [],
    'from_points_generic::<hmath::ratio::Ratio>': [],
}
for a_, b_ in (('Matrix::from_vec_generic', 'Matrix::from_vec'), ('Matrix::get_mut', 'Matrix::get'), ('Matrix::add_mut', 'Matrix::add'), ('Matrix::mul_k_mut', 'Matrix::mul_k'), ('Matrix::transpose_mut', 'Matrix::transpose'),
               ('Polynomial::from_vec_generic', 'Polynomial::from_vec'), ('Polynomial::differentiate_mut', 'Polynomial::differentiate'), ('Polynomial::mul_k_mut', 'Polynomial::mul_k')):
    CELLS[a_] = CELLS[b_]
CELLS_THOROUGH = {
    'Matrix::inverse': [[(5, 5)]],
    'Matrix::determinant': [[(7, 7)]],
    'Matrix::mul': [[(5, 5), (5, 5)], [(3, 4), (4, 5)]],
}


def points(layout, perm, kind):
    """interpolation nodes in every order: layout = gaps between the sorted nodes (0 = equal), perm = argument order"""
    def given(v, st):
        from expr import P, INF
        EQ = EN.Q
        D = v.sym(st, 'D', 1, INF)
        x = v.sym(st, 'x', -INF, INF)
        xs = [x]
        for i, g in enumerate(layout):
            if g:
                x = x + v.sym(st, 'h%d' % i, 1, INF)
            xs.append(x)
        xs = [EQ(xs[k], D) for k in perm]
        ys = [EQ(v.sym(st, 'y%d' % i, -INF, INF), D) for i in range(len(xs))]
        if kind == 'sep':
            return xs + ys
        if kind == 'hermite':
            ds = [EQ(v.sym(st, 'd%d' % i, -INF, INF), D) for i in range(len(xs))]
            return xs + ys + ds
        return [('seq',) + tuple(('seq', a, b) for a, b in zip(xs, ys))]
    return given


def point_items(prog, fn, tier, aspects):
    out = []

    def add(n, kind, full):
        for lay in itertools.product((0, 1), repeat=n - 1):
            for perm in itertools.permutations(range(n)):
                if not full and (list(perm) not in (list(range(n)), list(range(n))[::-1], [1, 0] + list(range(2, n)), list(range(1, n)) + [0])):
                    continue
                out.append(FnItem(fn, None, aspects, given=points(lay, perm, kind), limit=90, weight=5 * n, tag='nodes %s order %s' % (lay, perm)))
    if fn == 'cubic_2_points':
        add(2, 'hermite', True)
    elif fn == 'quadratic_3_points':
        add(3, 'sep', True)
    elif fn == 'linear_2_points':
        add(2, 'sep', True)
    elif fn.startswith('from_points'):
        for n in (1, 2, 3):
            add(n, 'pairs', True)
        if fn == 'from_points':
            add(4, 'pairs', tier == 'thorough')
    return out


def fn_items(prog, names, tier, aspects):
    """abstract cells for every function; limb-shaped cells for those with raw limbs"""
    out = []
    mx = 3 if tier == 'quick' else 5
    for n in names:
        if n not in prog.names or n not in SP.SPECS:
            continue
        f = prog.names[n]
        if n in SKIP:
            continue
        if n in FS.FNAMES:
            for tag, g in FPL.cells(n, tier, thresholds(prog, n)):
                out.append(FnItem(n, None, aspects, given=g, tag=tag, limit=120 if tier == 'quick' else 400, weight=FPL.weight(n, tag), max_steps=400000, max_visits=600))
            continue
        if n in TS.TNAMES:
            for tag, sh, g in TPL.cells(n, tier, thresholds(prog, n)):
                out.append(FnItem(n, sh, aspects, given=g, tag=tag, limit=60 if tier == 'quick' else 300, max_steps=400000, max_visits=600, text=True))
            continue
        if n in CELLS:
            for sh in CELLS[n] + (CELLS_THOROUGH.get(n, []) if tier == 'thorough' else []):
                w = max([1] + [x[0] * 3 for x in sh if isinstance(x, tuple)])
                out.append(FnItem(n, sh, aspects, limit=60 if tier == 'quick' else 400, weight=w, max_steps=400000))
            out += point_items(prog, n, tier, aspects)
            continue
        ks, res = kinds(prog, n)
        if any(k[0] == 'U' for k in ks) or (res[0] == 'U' and n in CONST_ARG):
            out.extend(limb_items(prog, n, mx, aspects, mx1=mx + 2))
            if n not in NOLONG:
                have = [it.shapes for it in out if it.fn == n]
                out.extend(long_items(prog, n, aspects, tier, have))
            if n in ANYLEN:
                out.append(FnItem(n, None, aspects, limit=20, tag='any length'))
            for sh in EXTRA_SHAPES.get(n, []) + (EXTRA_THOROUGH.get(n, []) if tier == 'thorough' else []):
                out.append(FnItem(n, list(sh), aspects, limit=90, weight=sum(sh) + 10, max_steps=400000))
        else:
            out.append(FnItem(n, None, aspects, limit=90))
    return out


# ---------------------------------------------------------------- properties
def callees(prog, f):
    """names of local functions mentioned by a body (direct, through closures and function values)"""
    memo = prog.__dict__.setdefault('_callees', {})
    if f['key'] in memo:
        return memo[f['key']]
    out = []
    memo[f['key']] = out

    def walk(x):
        if isinstance(x, dict):
            if 't' in x and isinstance(x['t'], int):
                t = prog.types[x['t']]
                if t['k'] == 'fndef':
                    g = prog.fns.get(t['f']['key'] or t['f']['decl'])
                    if g is not None and g['local']:
                        out.append(g)
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for b in f['blocks']:
        if not b.get('u'):
            walk(b)
    for l in f['locals']:
        t = prog.types[l]
        if t['k'] == 'closure' and t['f'] in prog.fns:
            out.append(prog.fns[t['f']])
    return out


def closure(prog, names):
    """spec'd or not: every local function reachable over the call graph from the named ones"""
    seen, todo = {}, [prog.names[n] for n in names if n in prog.names]
    start = set(f['key'] for f in todo)
    while todo:
        f = todo.pop()
        for g in callees(prog, f):
            if g['key'] not in seen:
                seen[g['key']] = g
                todo.append(g)
    return sorted(g['short'] for k, g in seen.items() if k not in start)


class Prop:
    def __init__(self, pid, names, aspects, rule, extra=None, assumptions=(), closed=True, fp=False, text=False):
        self.closed, self.fp, self.text = closed, fp, text
        self.pid, self.names, self.aspects, self.rule, self.extra = pid, names, aspects, rule, extra
        self.assumptions = list(assumptions) + BASE_ASSUME
        a = ANCHORS.get(pid, {})
        self._anchors = a.get('functions', [])

    def anchors(self):
        return self._anchors

    def select(self, prog):
        return [n for n in SP.SPECS if n in prog.names and prog.names[n].get('reach') and (n in FS.FNAMES) == self.fp and (n in TS.TNAMES) == self.text and any(re.search(p, n) for p in self.names)]

    def items(self, prog, tier):
        core = self.select(prog)
        out = fn_items(prog, core, tier, self.aspects)
        if self.extra:
            out += self.extra(prog, tier)
            core = core + [i.fn for i in out]
        if self.closed:
            # every summary a body of this property leans on is checked with it
            dep = [n for n in closure(prog, core) if n in SP.SPECS and n not in core]
            self.deps = dep
            out += fn_items(prog, dep, tier, ('value', 'panic', 'canon'))
            if any(n.startswith('gcd_') for n in dep):
                out += gcd_items(('value', 'panic', 'canon'))
        return out


BASE_ASSUME = [
    'the MIR that rustc +nightly builds for /repo (dev profile, overflow checks on, all features) is the program',
    'the transfer functions written for the standard-library calls it makes are right (analysis/stdmodels.py)',
    'partial correctness: a call is replaced by the summary of its callee, whose own body is analysed against that summary; termination is not decided',
    'inputs are in canonical form, as every public constructor is shown to deliver them',
]
RULE = ('Every listed function body (MIR) is interpreted abstractly over a domain of polynomial normal forms with interval, divisibility and coprimality facts, '
        'one partition cell of inputs at a time; calls use the summaries of their callees. Obligation per abstract exit state: ')
PROPS = {}


def prop(pid, names, aspects, rule, **kw):
    PROPS[pid] = Prop(pid, names, aspects, RULE + rule, **kw)


U_ADD = [r'^UBigInt::(add|sub|abs_diff|mul|pow)', r'^UBigInt::(exp2|shift_left)', r'^UBigInt::(zero|one|is_zero|is_one)$', r'^<UBigInt as (Clone|Default)']
U_DIV = [r'^UBigInt::(div|rem|shift_right|slice_right|log2|len)(_u32)?(_mut)?$']
Z_ARI = [r'^BigInt::(add|sub|mul|div|rem|neg|abs|pow|shift|slice|exp2)', r'^BigInt::(zero|one|is_zero|is_one|is_neg)$', r'^<BigInt as (Clone|Default)']
Q_ARI = [r'^Ratio::(add|sub|mul|div|neg|abs|reci|pow)', r'^Ratio::(zero|one|is_zero|is_one|is_neg|is_integer|from_denom)', r'^<Ratio as (Clone|Default)', '^common_denom$']
CMP = [r'^(UBigInt|BigInt|Ratio)::(lt|gt|leq|geq|eq|neq|comp)(_u32|_i32)?$', r'^<(UBigInt|BigInt|Ratio) as (PartialEq|Ord|PartialOrd)>', r'^Ratio::(lt|gt)_one$', r'::is_(zero|one|neg)$']
CONV = [r'as (Try)?From<', r'::(from|to)_[iu](32|64|128)$', r'::(from|to)_u?bi$']

# ------------------------------------------------------------------- gcd cells
def euclid(depth, swap, signs=(1, 1), hi=None):
    """all pairs (g*x, g*y) whose Euclidean remainder sequence has the given length"""
    from expr import P, INF, ZERO

    def given(v, st):
        g = v.sym(st, 'g', 1, INF if hi is None else hi)
        a, b = ZERO, g
        for i in range(depth):
            k = v.sym(st, 'k%d' % i, 2 if i == 0 else 1, INF if hi is None else hi)
            a, b = b, b * k + a
        a, b = a * signs[0], b * signs[1]
        return [b, a] if swap else [a, b]
    return given


def gcd_items(aspects):
    out = []
    for d in range(0, 5):
        for swap in (False, True):
            out.append(FnItem('gcd_ubi', None, aspects, given=euclid(d, swap), tag='Euclid depth %d%s' % (d, ' swapped' if swap else ''), limit=30))
    for sg in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
        out.append(FnItem('gcd_bi', None, aspects, tag='signs %d %d' % sg, limit=30, given=euclid(2, False, sg)))
    out.append(FnItem('gcd_bi', None, aspects, limit=30))
    for d in range(0, 4):
        for sg in ((1, 1), (-1, 1), (1, -1)):
            out.append(FnItem('gcd_i32', None, aspects, limit=30, tag='Euclid depth %d signs %d %d' % ((d,) + sg), given=euclid(d, d % 2 == 1, sg, hi=60)))
    return out


# ------------------------------------------------------------------ properties
G = lambda asp: (lambda prog, tier: gcd_items(asp))
VP = ('value', 'panic', 'canon')
prop('C01', U_ADD, VP, 'the returned (or written-back) limb vector denotes exactly the required natural number, and no cell with a defined result ends in a panic.')
prop('C02', U_DIV + U_ADD, VP, 'quotient, remainder, limb shifts and gcd denote floor(a/b), a mod b, floor(a/2^(32n)), gcd(a,b); zero divisors end in a panic.', extra=G(VP))
prop('C03', Z_ARI + U_ADD + U_DIV, VP, 'the result denotes the required integer (division truncates toward zero, remainder has the sign of the dividend).')
prop('C04', Q_ARI + Z_ARI + U_ADD + U_DIV, VP, 'numerator and denominator of the result cross-multiply to the field formula.', extra=G(VP))
prop('C05', [r'UBigInt|BigInt|Ratio|common_denom|log2_u32|gcd'], ('canon',), 'the result is in canonical form: no leading zero limb, no negative zero, denominator at least one and coprime to the numerator.', extra=G(('value',)))
prop('C06', CMP + [r'^(BigInt|Ratio|UBigInt)::(len|is_)'] + U_ADD, VP, 'the answer is the one of the order of the denoted numbers, for the method, operator and small-operand forms alike.')
prop('C07', [r'::(div|rem|reci|pow)', r'::sub', r'from_denom'], ('mustpanic',), 'a cell whose divisor is zero (or whose natural-number difference is negative) never returns a value.')
prop('C08', CONV, VP, 'a conversion yields exactly the same number, or the error value when the target type cannot hold it.')
prop('C09', [r'^Ratio::(truncate|frac|floor|round|ceil)', r'^Ratio::is_integer', r'^Ratio::get_'] + Q_ARI + Z_ARI + U_DIV, ('value', 'panic', 'canon'), 'rounding functions return the required integer / fractional part.')
prop('C10', [r'_mut$', r'_(u32|i32|bi)$', r'::(add|sub|mul|div|rem|neg|abs|reci|pow_u32|pow_i32|shift_left|shift_right|slice_right|truncate|frac|floor|round|abs_diff|mul_pow2)$'], VP, 'in-place and small-operand variants denote the same number as the plain operation.')



MATF = [r'^Matrix::', r'^<Matrix as']
POLF = [r'^Polynomial::', r'^<Polynomial as', r'_points$', r'^from_points']
VPC = ('value', 'panic', 'canon')
prop('C11', MATF + Q_ARI, VPC, 'each entry, dimension and error of the result is the one of the ring of matrices over the rationals (determinant by Laplace expansion, inverse as adjugate over determinant), and the recorded dimensions match the data.')
prop('C12', POLF + MATF + Q_ARI, VPC, 'the resulting coefficient list denotes the required polynomial, has no leading zero coefficient, and interpolants satisfy every condition they were given.')


FX = [r'^F192::(neg|abs|shl|shr|step_epsilon|from_pow2|ilog2|is_integer|truncate|floor|ceil|round|frac)$', r'^<F192 as (Default|Clone|PartialEq|PartialOrd|Ord)>', r'^<F192 as From<[iu]', r'as TryFrom<F192>>', r'^<Ratio as From<&?F192>>']
FA = [r'^F192::(add|sub|mul|mul_i32|div_i32)$', r'^<F192 as From<&?Ratio>>']
prop('C13', FX, VPC, 'sign, order, scaling by powers of two, rounding to integers and conversions act on the denoted dyadic number exactly.', fp=True)
prop('C14', FA, VPC, 'the result is a normal form whose value lies within the stated number of units in the last place of the exact result.', fp=True)


IEEE = [r'ieee754', r'TryFrom<&?f\d\d>', r'^<f\d\d as (Try)?From<']
prop('C15', IEEE, VPC, 'a float becomes exactly the number it denotes (or its integer part), a number becomes the nearest float (among denormals one of the two next to it), and NaN, infinities and numbers too large are errors.', fp=True)
prop('C16', [r'to_string_', r'to_ratio_string', r'as (Display|LowerHex|Octal|Binary)>::fmt', r'from_string$', r'FromStr>', r'TryFrom<(&str|String)>'], VPC, 'a number is written as its digits in the radix (sign, prefix and no leading zeros), and a text in the documented grammar is read as the number it denotes; other texts are errors.', text=True)
