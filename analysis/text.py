"""Texts.  A text is a tuple of pieces: a literal (python str), ('c', p) one
character with code point p, ('n', p, radix, width) the digits of the natural
number p, zero padded to width (0: not padded)."""
from expr import *
from engine import *

RAD = {'new_display': 10, 'new_debug': 10, 'new_lower_hex': 16, 'new_octal': 8, 'new_binary': 2}


def lit(v):
    return () if v == '' else (v,) if isinstance(v, str) else v


def pieces(e, st, v):
    """-> tuple of pieces or None"""
    for _ in range(6):
        if isinstance(v, Ref):
            v = e.load(st, v.c, v.path)
        else:
            break
    if isinstance(v, Str):
        return None if v.s is None else lit(v.s)
    return None


def mk(ps):
    out = []
    for p in ps:
        if not isinstance(p, str) and p[0] == 'c' and p[1].is_const:
            p = chr(p[1].const)
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return Str(tuple(out) if out else '')


def chars(st, ps):
    """code points, or None when the text has pieces of unknown length"""
    out = []
    for p in ps:
        if isinstance(p, str):
            out += [P(ord(c)) for c in p]
        elif p[0] == 'c':
            out.append(st.ctx.simp(p[1]))
        elif p[3] and st.ctx.decide(('ge', P(p[2] ** p[3] - 1) - p[1])) is True and p[2] <= 10:
            for i in range(p[3] - 1, -1, -1):
                q = st.ctx.mk_div(p[1], P(p[2] ** i))
                out.append(st.ctx.simp(q - st.ctx.mk_div(q, P(p[2])) * p[2]) + 48)
        else:
            return None
    return out


def width(st, c):
    lo, hi = st.ctx.range(c)
    for a, b, w in ((0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xffff, 3), (0x10000, 0x10ffff, 4)):
        if a <= lo and hi <= b:
            return w
    return None


def offsets(st, cs):
    """byte offset of every character and of the end; None when unknown"""
    out = [0]
    for c in cs:
        w = width(st, c)
        if w is None:
            return None
        out.append(out[-1] + w)
    return out


def ascii_(st, cs):
    return all(st.ctx.range(c)[1] < 128 for c in cs)


def length(e, st, ps):
    n = ZERO
    for p in ps:
        if isinstance(p, str):
            n = n + len(p.encode())
        elif p[0] == 'c':
            w = width(st, p[1])
            if w is None:
                return None
            n = n + w
        elif p[3] and st.ctx.decide(('ge', P(p[2] ** p[3] - 1) - p[1])) is True:
            n = n + p[3]
        else:
            n = n + P(atom('ndig', (p[1], P(p[2]), P(p[3])), max(1, p[3]), 1 << 40))
    return n


def num(e, st, p, radix, width=0):
    """-> list of (state, pieces) of an integer; negative numbers get their sign"""
    out = []
    for s, neg in e.split(st, ('not', p_ge(p))):
        if neg:
            out.append((s, ('-', ('n', -p, radix, max(width - 1, 0)))) if radix == 10 else (s, None))
        else:
            out.append((s, (('n', p, radix, width),)))
    return out


def template(bs):
    out, i, arg = [], 0, 0
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 128:
            out.append(bytes(bs[i:i + n]).decode())
            i += n
        elif n == 128:
            k = bs[i] + 256 * bs[i + 1]
            out.append(bytes(bs[i + 2:i + 2 + k]).decode())
            i += 2 + k
        else:
            fl, w, pr = 0x60000020, 0, None
            if n & 1:
                fl = int.from_bytes(bytes(bs[i:i + 4]), 'little')
                i += 4
            if n & 2:
                w = bs[i] + 256 * bs[i + 1]
                i += 2
            if n & 4:
                pr = bs[i] + 256 * bs[i + 1]
                i += 2
            if n & 8:
                arg = bs[i] + 256 * bs[i + 1]
                i += 2
            out.append((arg, fl, w, pr, bool(n & 16), bool(n & 32)))
            arg += 1


PREFIX = {16: '0x', 8: '0o', 2: '0b'}


def render(e, st, args, depth):
    """-> list of (state, pieces or None); args: It('fmtargs', template, values)"""
    cur = [(st, ())]
    for t in args.a[0]:
        nx = []
        for s, acc in cur:
            if acc is None:
                nx.append((s, None))
            elif isinstance(t, str):
                nx.append((s, acc + (t,)))
            else:
                arg, fl, w, pr, wi, pi = t
                a = args.a[1][arg] if arg < len(args.a[1]) else None
                if pr is not None or pi or not isinstance(a, It) or a.k != 'fmtarg':
                    nx.append((s, None))
                    continue
                if wi:
                    x = args.a[1][w] if w < len(args.a[1]) else None
                    x = e.load(s, x.a[1].c, x.a[1].path) if isinstance(x, It) and isinstance(x.a[1], Ref) else x.a[1] if isinstance(x, It) else None
                    if not isinstance(x, Poly) or not s.ctx.simp(x).is_const:
                        nx.append((s, None))
                        continue
                    w = s.ctx.simp(x).const
                for s2, ps in show(e, s, a.a[0], a.a[1], a.a[2], fl, w, depth):
                    nx.append((s2, None if ps is None else acc + ps))
        cur = nx
    return cur


def show(e, st, how, v, ty, fl, w, depth):
    for _ in range(6):
        if isinstance(v, Ref):
            x = e.load(st, v.c, v.path)
            if isinstance(x, Adt) and 'hmath' in x.p:
                break
            v = x
        else:
            break
    while ty is not None and ty['k'] == 'ref':
        ty = e.prog.types[ty['e']]
    if isinstance(v, Poly):
        if ty is not None and ty['k'] == 'char':
            return [(st, (('c', v),))] if how == 'new_display' and not w else [(st, None)]
        if how not in RAD:
            return [(st, None)]
        r = RAD[how]
        if fl & (1 << 21):
            return [(st, None)]
        zero = fl & (1 << 24)
        if w and not zero:
            return [(st, None)]
        out = []
        for s, ps in num(e, st, v, r, w if zero else 0):
            if ps is not None and fl & (1 << 23):
                ps = (PREFIX[r],) + (('n', ps[0][1], r, max(w - 2, 0) if zero else 0),) if r != 10 and ps[0] != '-' else None
            out.append((s, ps))
        return out
    if isinstance(v, Str):
        ps = pieces(e, st, v)
        return [(st, ps if not w and how == 'new_display' else None)]
    if ty is not None and ty['k'] == 'adt' and ty.get('local'):
        tr = {'new_display': 'Display', 'new_lower_hex': 'LowerHex', 'new_octal': 'Octal', 'new_binary': 'Binary'}.get(how)
        f = e.prog.names.get('<%s as %s>::fmt' % (ty['p'].rsplit('::', 1)[-1], tr))
        if f is not None and not w:
            c, c2 = ('fmt', e.fresh()), ('fmt', e.fresh())
            st.cells[c] = Adt('std::fmt::Formatter', 0, (Str(''), bool(fl & (1 << 23))))
            if not isinstance(v, Ref):
                st.cells[c2] = v
                v = Ref(c2)
            out = []
            for o in e.call(st, f['key'], [v, Ref(c)], depth + 1):
                if o.kind == 'ret':
                    b = o.st.cells.get(c)
                    out.append((o.st, pieces(e, o.st, b.f[0]) if isinstance(b, Adt) else None))
                else:
                    out.append((o.st, None))
            return out
    return [(st, None)]


def opaque(ps):
    return Str(None) if ps is None else mk(ps)


def rets(rs):
    return [Outcome('ret', s, v) for s, v in rs]


def bound(e, st, ps, r):
    """start and end of a range value over the text"""
    n = length(e, st, ps)
    if not isinstance(r, Adt):
        return None
    if r.p == 'std::ops::Range':
        a, b = r.f
    elif r.p == 'std::ops::RangeFrom':
        a, b = r.f[0], n
    elif r.p == 'std::ops::RangeTo':
        a, b = ZERO, r.f[0]
    elif r.p == 'std::ops::RangeFull':
        a, b = ZERO, n
    elif r.p == 'std::ops::RangeToInclusive':
        a, b = ZERO, r.f[0] + 1
    else:
        return None
    if n is None or not all(isinstance(x, Poly) for x in (a, b, n)):
        return None
    a, b, n = st.ctx.simp(a), st.ctx.simp(b), st.ctx.simp(n)
    if not (a.is_const and b.is_const and n.is_const):
        return None
    return a.const, b.const, n.const


def cut(st, ps, a, b):
    cs = chars(st, ps)
    at = None if cs is None else offsets(st, cs)
    if at is None:
        return None
    if a not in at or b not in at:
        return False          # not on a character boundary
    return mk([('c', c) for c in cs[at.index(a):at.index(b)]])


def match_char(e, st, pat, c, depth):
    """-> list of (state, bool) : the pattern matches character c"""
    if isinstance(pat, Poly):
        return e.split(st, p_eq(pat - c))
    if isinstance(pat, (Clo, FnI)) or (isinstance(pat, Ref) and isinstance(e.load(st, pat.c, pat.path), (Clo, FnI))):
        out = []
        for o in e.call_value(st, pat, [c], depth):
            if o.kind != 'ret' or not isinstance(o.val, (bool, tuple)):
                return None
            out += e.split(o.st, o.val)
        return out
    v = pat
    if isinstance(v, Ref):
        v = e.load(st, v.c, v.path)
    if isinstance(v, VecV) and all(isinstance(x, Poly) for x in v.xs):
        q = False
        for x in v.xs:
            q = p_or(q, p_eq(x - c))
        return e.split(st, q)
    return None


def search(e, st, cs, pat, depth, back=False):
    """-> list of (state, index or None) or None"""
    order = range(len(cs) - 1, -1, -1) if back else range(len(cs))
    out, cur = [], [st]
    for i in order:
        nx = []
        for s in cur:
            r = match_char(e, s, pat, cs[i], depth)
            if r is None:
                return None
            for s2, b in r:
                if b:
                    out.append((s2, i))
                else:
                    nx.append(s2)
        cur = nx
    return out + [(s, None) for s in cur]


def str_method(e, st, name, path, args, finfo, depth):
    """methods of str and String; None: not modelled"""
    a0 = args[0] if args else None
    if name in ('new', 'with_capacity') and ('String' in path):
        return rets([(st, Str(''))])
    ps = pieces(e, st, a0) if a0 is not None else None
    if name in ('from', 'to_string', 'to_owned', 'into', 'as_str', 'as_ref', 'clone', 'deref', 'into_boxed_str', 'into_string', 'must_use', 'borrow', 'from_str_unchecked'):
        if ps is not None and not isinstance(a0, Poly):
            return rets([(st, mk(ps))])
        return None
    if name in ('push', 'push_str', 'add', 'add_assign', 'insert', 'insert_str', 'clear', 'pop', 'truncate', 'extend'):
        if ps is None:
            return None
        if name == 'pop':
            cs = chars(st, ps)
            if cs is None:
                return None
            e.store(st, a0.c, a0.path, mk([('c', c) for c in cs[:-1]]))
            return rets([(st, some(cs[-1]) if cs else NONE)])
        if name == 'clear':
            e.store(st, a0.c, a0.path, Str(''))
            return rets([(st, UNIT)])
        b = args[-1]
        if isinstance(b, Poly):
            more = (('c', st.ctx.simp(b)),)
        else:
            more = pieces(e, st, b)
        if name in ('insert', 'insert_str'):
            i = args[1]
            if not (isinstance(i, Poly) and i.is_const and i.const == 0):
                more = None
            new = None if more is None else mk(more + ps)
        elif name in ('truncate', 'extend'):
            new = None
        else:
            new = None if more is None else mk(ps + more)
        if new is None:
            new = Str(None)
        if name == 'add':
            return rets([(st, new)])
        e.store(st, a0.c, a0.path, new)
        return rets([(st, UNIT)])
    if ps is None:
        return None
    if name in ('len', 'is_empty'):
        n = length(e, st, ps)
        if n is None:
            return None
        return rets([(st, n if name == 'len' else p_eq(n))])
    if name in ('eq', 'ne'):
        b = pieces(e, st, args[1])
        x, y = chars(st, ps), None if b is None else chars(st, b)
        if x is None or y is None:
            return None
        q = len(x) == len(y)
        if q:
            for u, v in zip(x, y):
                q = p_and(q, p_eq(u - v))
        return rets([(st, q if name == 'eq' else p_not(q))])
    if name == 'repeat':
        n = args[1]
        if isinstance(n, Poly) and n.is_const and n.const < 200:
            return rets([(st, mk(ps * n.const))])
        return None
    if name == 'trim_start_matches':
        if isinstance(args[1], Poly) and args[1].is_const:
            return rets(trim(e, st, ps, chr(args[1].const)))
        return None
    if name == 'get' or name in ('index', 'split_at'):
        if name == 'split_at':
            return None
        b = bound(e, st, ps, args[1])
        if b is None:
            return None
        if not (b[0] <= b[1] <= b[2]):
            return rets([(st, NONE)]) if name == 'get' else [Outcome('panic', st, None, 'slice index')]
        r = cut(st, ps, b[0], b[1])
        if r is None:
            return None
        if r is False:
            return rets([(st, NONE)]) if name == 'get' else [Outcome('panic', st, None, 'slice index')]
        return rets([(st, some(r) if name == 'get' else r)])
    cs = chars(st, ps)
    if cs is None:
        return None
    if name == 'chars':
        return rets([(st, It('vals', tuple(cs)))])
    if name == 'char_indices':
        at = offsets(st, cs)
        if at is None:
            return None
        return rets([(st, It('vals', tuple(Tup((P(i), c)) for i, c in zip(at, cs))))])
    if name in ('bytes', 'as_bytes', 'into_bytes'):
        if not ascii_(st, cs):
            return None
        if name == 'bytes':
            return rets([(st, It('vals', tuple(cs)))])
        if name == 'into_bytes':
            return rets([(st, VecV(cs))])
        c = ('bytes', e.fresh())
        st.cells[c] = VecV(cs)
        return rets([(st, Ref(c))])
    if name in ('find', 'rfind', 'contains', 'starts_with', 'ends_with', 'strip_prefix', 'strip_suffix', 'split_once'):
        pat = args[1]
        at = offsets(st, cs)
        if at is None:
            return None
        sub = pieces(e, st, pat) if not isinstance(pat, Poly) else None
        if sub is not None:
            w = chars(st, sub)
            if w is None or name not in ('starts_with', 'ends_with', 'strip_prefix', 'strip_suffix'):
                return None
            start = name in ('starts_with', 'strip_prefix')
            if len(w) > len(cs):
                q = False
            else:
                q = True
                for u, v in zip(w, cs if start else cs[len(cs) - len(w):]):
                    q = p_and(q, p_eq(u - v))
            if name.endswith('_with'):
                return rets([(st, q)])
            out = []
            for s, b in e.split(st, q):
                rest = cs[len(w):] if start else cs[:len(cs) - len(w)]
                out.append((s, some(mk([('c', c) for c in rest])) if b else NONE))
            return rets(out)
        if name in ('starts_with', 'strip_prefix', 'ends_with', 'strip_suffix'):
            start = name in ('starts_with', 'strip_prefix')
            if not cs:
                return rets([(st, False if name.endswith('_with') else NONE)])
            r = match_char(e, st, pat, cs[0] if start else cs[-1], depth)
            if r is None:
                return None
            rest = cs[1:] if start else cs[:-1]
            return rets([(s, b if name.endswith('_with') else (some(mk([('c', c) for c in rest])) if b else NONE)) for s, b in r])
        r = search(e, st, cs, pat, depth, name == 'rfind')
        if r is None:
            return None
        if name == 'split_once':
            return rets([(s, NONE if i is None else some(Tup((mk([('c', c) for c in cs[:i]]), mk([('c', c) for c in cs[i + 1:]]))))) for s, i in r])
        return rets([(s, (i is not None) if name == 'contains' else NONE if i is None else some(P(at[i]))) for s, i in r])
    return None


def trim(e, st, ps, ch):
    out, cur = [], [(st, tuple(ps))]
    while cur:
        s, p = cur.pop()
        if not p:
            out.append((s, Str('')))
            continue
        h = p[0]
        if isinstance(h, str):
            t = h.lstrip(ch)
            if t:
                out.append((s, mk((t,) + p[1:])))
            else:
                cur.append((s, p[1:]))
        elif h[0] == 'c':
            for s2, b in e.split(s, p_eq(h[1] - ord(ch))):
                if b:
                    cur.append((s2, p[1:]))
                else:
                    out.append((s2, mk(p)))
        elif ch == '0':
            for s2, b in e.split(s, p_eq(h[1])):
                if b:
                    cur.append((s2, p[1:]))
                else:
                    out.append((s2, mk((('n', h[1], h[2], 0),) + p[1:])))
        else:
            out.append((s, Str(None)))
    return out


def fmt_method(e, st, name, path, args, finfo, depth):
    a0 = args[0] if args else None
    if name in RAD or name in ('new_upper_hex', 'from_usize') and 'Argument' in path:
        ty = e.prog.types[finfo['args'][-1]] if finfo.get('args') else None
        return rets([(st, It('fmtarg', name, a0, ty if ty is None else Hash(ty)))])
    if path.endswith("Arguments::<'a>::new") or name in ('new_v1', 'new'):
        t, xs = a0, args[1] if len(args) > 1 else None
        for _ in range(4):
            t = e.load(st, t.c, t.path) if isinstance(t, Ref) else t
            xs = e.load(st, xs.c, xs.path) if isinstance(xs, Ref) else xs
        if isinstance(t, VecV) and isinstance(xs, VecV) and all(isinstance(x, Poly) and x.is_const for x in t.xs):
            return rets([(st, It('fmtargs', tuple(template([x.const for x in t.xs])), tuple(xs.xs)))])
        return None
    if name in ('from_str', 'new_const') and 'Arguments' in path:
        ps = pieces(e, st, a0)
        if ps is None or not all(isinstance(p, str) for p in ps):
            return None
        return rets([(st, It('fmtargs', tuple(ps), ()))])
    if name == 'format' or name in ('to_string', 'write_fmt'):
        a = args[-1]
        if name == 'to_string':
            ty = e.prog.types[finfo['args'][0]] if finfo.get('args') else None
            return rets([(s, opaque(ps)) for s, ps in show(e, st, 'new_display', a, ty, 0x60000020, 0, depth)])
        if not isinstance(a, It) or a.k != 'fmtargs':
            return None
        r = render(e, st, a, depth)
        if name == 'format':
            return rets([(s, opaque(ps)) for s, ps in r])
        return [o for s, ps in r for o in write(e, s, a0, ps)]
    if name in ('write_str', 'write_char', 'pad') and 'Formatter' in path:
        ps = (('c', args[1]),) if name == 'write_char' else pieces(e, st, args[1])
        return write(e, st, a0, ps)
    if name == 'alternate':
        v = e.load(st, a0.c, a0.path) if isinstance(a0, Ref) else None
        if isinstance(v, Adt) and len(v.f) == 2:
            return rets([(st, v.f[1])])
    return None


def write(e, st, ref, ps):
    if not isinstance(ref, Ref):
        return None
    v = e.load(st, ref.c, ref.path)
    if isinstance(v, Ref):
        ref = v
        v = e.load(st, v.c, v.path)
    if isinstance(v, Str):           # write!(string, ..)
        old = pieces(e, st, v)
        e.store(st, ref.c, ref.path, opaque(None if ps is None or old is None else old + ps))
    elif isinstance(v, Adt) and len(v.f) == 2:
        old = pieces(e, st, v.f[0])
        e.store(st, ref.c, ref.path, Adt(v.p, 0, (opaque(None if ps is None or old is None else old + ps), v.f[1])))
    else:
        return None
    return rets([(st, ok(UNIT))])


class Hash(dict):
    def __hash__(self):
        return hash(self.get('s'))


def models(e, st, name, path, decl, args, finfo, depth):
    if 'panicking' in path or name.startswith('panic'):
        return None
    if path.startswith('core::fmt') or path.startswith('std::fmt') or name == 'to_string':
        return fmt_method(e, st, name, path, args, finfo, depth)
    if name == 'must_use':
        return rets([(st, args[0])])
    v = args[0] if args else None
    for _ in range(6):
        if isinstance(v, Ref):
            v = e.load(st, v.c, v.path)
        else:
            break
    if isinstance(v, Str) or path.startswith('std::string::String'):
        if isinstance(v, Str) and v.s is None:
            return None
        return str_method(e, st, name, path, args, finfo, depth)
    if isinstance(v, Poly) and ('char' in path or 'u8' in path):
        r = char_method(e, st, name, v, args)
        if r is not None:
            return rets(r)
    if name in ('from_digit',) and 'char' in path and len(args) == 2 and all(isinstance(a, Poly) for a in args) and args[1].is_const:
        out, r = [], args[1].const
        for s, b in e.split(st, p_ge(P(r - 1) - args[0])):
            if not b:
                out.append((s, NONE))
            else:
                for s2, d in e.split(s, p_ge(P(9) - args[0])):
                    out.append((s2, some(args[0] + (48 if d else 87))))
        return rets(out)
    return None


def cases(e, st, v, spans):
    """-> list of (state, span or None): which of the disjoint spans v lies in"""
    out, cur = [], [st]
    for lo, hi, what in spans:
        nx = []
        for s in cur:
            for s2, b in e.split(s, p_and(p_ge(v - lo), p_ge(P(hi) - v))):
                if b:
                    out.append((s2, what))
                else:
                    nx.append(s2)
        cur = nx
    return out + [(s, None) for s in cur]


CLASSES = {
    'is_ascii_digit': ((48, 57),), 'is_ascii_hexdigit': ((48, 57), (65, 70), (97, 102)), 'is_ascii_lowercase': ((97, 122),),
    'is_ascii_uppercase': ((65, 90),), 'is_ascii_alphabetic': ((65, 90), (97, 122)), 'is_ascii_alphanumeric': ((48, 57), (65, 90), (97, 122)), 'is_ascii': ((0, 127),),
}


def char_method(e, st, name, v, args):
    if name in CLASSES:
        q = False
        for lo, hi in CLASSES[name]:
            q = p_or(q, p_and(p_ge(v - lo), p_ge(P(hi) - v)))
        return [(st, q)]
    if name in ('to_digit', 'is_digit') and len(args) == 2 and isinstance(args[1], Poly):
        r = st.ctx.simp(args[1])
        if not r.is_const or not 2 <= r.const <= 36:
            return None
        r = int(r.const)
        spans = [(48, 47 + min(r, 10), 48)] + ([(97, 86 + r, 87), (65, 54 + r, 55)] if r > 10 else [])
        return [(s, (w is not None) if name == 'is_digit' else NONE if w is None else some(s.ctx.simp(v - w))) for s, w in cases(e, st, v, spans)]
    if name == 'to_ascii_lowercase':
        return [(s, v if w is None else v + 32) for s, w in cases(e, st, v, [(65, 90, 1)])]
    if name == 'to_ascii_uppercase':
        return [(s, v if w is None else v - 32) for s, w in cases(e, st, v, [(97, 122, 1)])]
    return None


def joined(e, st, xs, sep):
    if not e.text:
        return Str(None)
    acc = []
    for i, x in enumerate(xs):
        p = pieces(e, st, x)
        if p is None or sep is None:
            return Str(None)
        if i:
            acc += lit(sep)
        acc += p
    return mk(acc)


def collect(e, st, xs):
    acc = []
    for x in xs:
        v = x
        if isinstance(v, Ref):
            v = e.load(st, v.c, v.path)
        if isinstance(v, Poly):
            acc.append(('c', st.ctx.simp(v)))
        else:
            p = pieces(e, st, v)
            if p is None:
                return Str(None)
            acc += p
    return mk(acc)


# ------------------------------------------------------------------ reading
DIG = '0123456789abcdef'


def number(ctx, ps, radix):
    """(value, width, violated) of a run of digit pieces; width 0: first piece not padded; violated: predicate
    'the text is not made of digits as claimed'; None: cannot tell"""
    acc, width, bad = None, None, False
    for p in ps:
        if isinstance(p, str):
            if any(c not in DIG[:radix] for c in p):
                return None, None, True
            v, w, r = P(int(p, radix)), len(p), radix
        elif p[0] == 'c':
            lo, hi = ctx.range(p[1])
            if 48 <= lo and hi < 48 + min(radix, 10):
                v = p[1] - 48
            elif 97 <= lo and hi < 87 + radix:
                v = p[1] - 87
            else:
                return None
            w, r = 1, radix
        else:
            v, r, w = p[1], p[2], p[3]
        if r != radix:
            return None, None, True if v.is_const is False else None
        if acc is None:
            acc, width = v, w
            if w and ctx.decide(('ge', P(radix ** w - 1) - v)) is not True:
                return None
            continue
        if not w or ctx.decide(('ge', P(radix ** w - 1) - v)) is not True:
            # a group that is not padded to its full width: its length depends on its value
            if width is None or isinstance(width, Poly) or width != 0 and ctx.decide(p_ge(acc - radix ** (width - 1))) is not True:
                return None
            if width == 0:
                bad = p_or(bad, p_not(p_ge(acc - 1)))
            else:
                width += 1
            acc = P(atom('catd', (acc, v, P(radix), P(w)), 0, INF))
            continue
        if width == 0:
            bad = p_or(bad, p_not(p_ge(acc - 1)))
        else:
            width += w
        acc = acc * radix ** w + v
    if acc is None:
        return None, None, True
    return ctx.simp(acc), width, bad


def differs(ctx, got, exp):
    """predicate: the texts differ; None when not comparable"""
    got = list(got)
    bad = False
    for i, x in enumerate(exp):
        if isinstance(x, str):
            while x:
                if not got:
                    return True
                h = got[0]
                if isinstance(h, str):
                    k = min(len(h), len(x))
                    if h[:k] != x[:k]:
                        return p_or(bad, True)
                    x = x[k:]
                    got = ([h[k:]] if h[k:] else []) + got[1:]
                elif h[0] == 'c':
                    bad = p_or(bad, p_not(p_eq(h[1] - ord(x[0]))))
                    x, got = x[1:], got[1:]
                else:
                    return True if not x[0].isalnum() else None
            continue
        # a number: up to the first character that is no digit
        run = []
        while got:
            h = got[0]
            if isinstance(h, str):
                k = 0
                while k < len(h) and h[k] in DIG[:x[2]]:
                    k += 1
                if k:
                    run.append(h[:k])
                got = ([h[k:]] if h[k:] else []) + got[1:]
                if k < len(h):
                    break
            else:
                run.append(h)
                got = got[1:]
        r = number(ctx, run, x[2])
        if r is None:
            return None
        v, w, b = r
        if b is True or v is None:
            return b if b is None else True
        bad = p_or(bad, b)
        bad = p_or(bad, p_not(p_eq(v - x[1])))
        if w > 1 and w > x[3]:
            bad = p_or(bad, p_not(p_ge(v - x[2] ** (w - 1))))
    if got:
        return True
    return bad
