"""Partition cells for texts: numbers by limb count, strings by their sequence of character classes."""
from expr import P, INF, ZERO
import tspecs as TS

CLASS = {'9': (49, 57), 'd': (48, 57), 'h': (97, 102), 'H': (65, 70), 'q': (48, 55), 'b': (48, 49), '~': (103, 110), 'G': (71, 78), '!': (33, 42), 'u': (0x100, 0x7ff), 'U': (0x800, 0xd7ff)}


def txt(pat):
    """a pattern: letters of CLASS are symbolic characters, `x stands for x itself"""
    def given(v, st):
        out, i = [], 0
        while i < len(pat):
            ch = pat[i]
            if ch == '`':
                out.append(pat[i + 1])
                i += 2
                continue
            if ch in CLASS:
                lo, hi = CLASS[ch]
                out.append(('c', v.sym(st, 'c%d' % len(out), lo, hi)))
            else:
                out.append(ch)
            i += 1
        return [('txt',) + tuple(out)]
    return given


def around(ths, top):
    return sorted({t + d for t in ths if 2 < t <= top for d in (-1, 0, 1, 2)})


def nat_patterns(tier, ths=()):
    N = 70 if tier == 'quick' else 160
    out = [('empty', ''), ('0', '0'), ('0_', '0_'), ('0__', '0__')]
    out += [('%d digits' % n, '9' + 'd' * (n - 1)) for n in list(range(1, N + 1)) + [100, 128, 200] + around(ths, 400)]
    for pre, c, lab in (('0x', 'd', 'hex'), ('0x', 'h', 'hex'), ('0X', 'H', 'HEX'), ('0`b', 'b', 'bin'), ('0B', 'b', 'BIN'), ('0o', 'q', 'oct'), ('0O', 'q', 'OCT')):
        M = {'b': 140}.get(c, 70)
        for n in (list(range(1, 18)) + [24, 32, 33, 40] if c != 'b' else list(range(1, 6)) + list(range(26, 36)) + [63, 64, 65, 96]) + around(ths, 130):
            out.append(('%s %s x%d' % (lab, c, n), pre + c * n))
        if tier != 'quick':
            out += [('%s %s x%d' % (lab, c, n), pre + c * n) for n in range(18, M, 3)]
    out += [('mixed hex', '0xdhHdhHdhHdhH'), ('mixed hex 2', '0xHhdHhdHhdHhdHhd'), ('hex zeros', '0x000000000d'), ('bin zeros', '0`b00000000000000000000000000000000000b'), ('oct zeros', '0o000000000000q')]
    for p in ('9_d', '9__', '9_ddd_ddd_ddd_ddd', '9d_', '0xh_h', '0x_h', '0xh_', '0`bb_b', '0oq_q', '9ddddddd_d', '9dddddddd_d_'):
        out.append(('under ' + p, p))
    for p in ('_', '_9', '00', '0d', '0~', '~', '9~', '9d~', '9h', '9dddddddddh', '0xG', '0xd~', '0`b2', '0`bb2', '0o8', '0oq8', '0o9', '0x', '0X', '0`b', '0o', '0O', '9.d', '9e9', '-9', '--9', '+9', '!', '9!', '9u', 'u', 'U', '9dU', 'h', 'H', '9H', '0xdddddddd~', '0`bh', '0oh', ' 9', '9 ', '9dddddddddddddddd!', '0x-d', '9-9', '.', '-'):
        out.append(('odd ' + p, p))
    return out


def int_patterns(tier, ths=()):
    out = nat_patterns(tier, ths)
    out += [('neg ' + t, '-' + p) for t, p in nat_patterns('quick') if tier != 'quick' or len(p) < 14 or len(p) in (20, 26, 40)]
    return out


def ratio_patterns(tier, ths=()):
    out = [(t, p) for t, p in int_patterns('quick', ths) if not any(c in p for c in 'hH') or len(p) < 8]
    F = 8 if tier == 'quick' else 20
    for s in ('', '-'):
        for ip in ('0', '9', '9d', '9dddddddddd'):
            for n in list(range(0, F + 1)) + [12, 19, 30] + around(ths, 60):
                out.append(('%s%s.%d digits' % (s, ip, n), s + ip + '.' + 'd' * n))
        out += [('%sunder %s' % (s, p), s + p) for p in ('9_d.d_d', '9.d_', '9._d')]
        # exponents: the digits that decide the common factors with the power of ten are fixed
        q = lambda t: t.replace('9', '`9')
        for k, fs in ((1, '0123456789'), (2, '00 04 05 08 12 16 20 25 36 37 50 75 91 99'), (3, '000 125 256 500 640 375 101 048 005 999 002'), (5, '00000 03125 65536 50000 31250 00032 12345 99999 00005'), (9, '000000000 001953125 000000512 123456789 500000000')):
            for t in (fs if k == 1 else fs.split()):
                for m in sorted({0, 1, k // 2, k}):
                    for ip in ('', '9', '9d'):
                        if m == k and ip == '':
                            ip = '0'
                        if ip == '' and (t[0] == '0' or s == '-'):
                            continue
                        if tier == 'quick' and (ip == '9d' and k > 2 or s == '-' and (k == 3 or k == 9)):
                            continue
                        body = ip + q(t[:k - m]) + ('.' + q(t[k - m:]) if m else '')
                        e = 'eE'[(k + m) % 2]
                        for x in sorted({-(k - m), -(k - m) + 1, 0, m, m + 2, m - 1}):
                            if -x <= k - m:
                                out.append(('%s%s%s%d' % (s, body, e, x), '%s%s%s%s' % (s, body, e, q('%d' % x))))
        out += [('zero ' + p, s + p) for p in ('0e0', '0e5', '0e-5', '0.0e3', '0.00e-3', '0e`9', '0e-`9')]
        out += [('%sany %s' % (s, p), s + p) for p in ('9e0', '9e1', '9e5', '9ddde3', '9e12', '9E7')]
    for p in ('9e', '9.de', '9e-', '9e~', '9.~', '9.d~', '9e9.d', '9.d.d', '9e1e1', '0x9.d', '0`bb.b', '0oq.q', '9.-d', '9e--1', '9e+1', '~.d', '9~.d', '00.d', '0d.d', '9.d!', '9eu', '9.u', 'u.d', '-e1', 'e1', '.e1', '.', '9e2147483648', '9.de4294967296', '9e-4294967297', '9e18446744073709551617'):
        out.append(('odd ' + p, p))
    return out


def cells(n, tier, ths=()):
    """-> (tag, shapes, given)"""
    if 'from_str' in n or 'try_from' in n:
        ps = nat_patterns(tier, ths) if 'UBigInt' in n else int_patterns(tier, ths) if 'BigInt' in n else ratio_patterns(tier, ths)
        if 'from_string' not in n:
            ps = ps[::7] + ps[-3:]
        return [(t, None, txt(p)) for t, p in dict(ps).items()]
    if n == 'Ratio::to_ratio_string':
        return [('any', None, None)]
    out = []
    if '<' in n or n.startswith('BigInt'):
        out += [('any length' + ('' if a is None else ' #' if a else ' plain'), None, None if a is None else (lambda v, st, a=a: [None, a])) for a in ([None] if 'to_string' in n else [False, True])]
    mx = 5 if tier == 'quick' else 9
    alt = [None] if 'to_string' in n else [False, True]
    two = 'dec' not in n
    for a in alt:
        if n.startswith('UBigInt') or n.startswith('<UBigInt'):
            for k in list(range(1, 25 if 'to_string' in n else mx + 1)) + ([32, 40] if 'to_string' in n else []) + around(ths, 80):
                def given(v, st, a=a):
                    return [None, a]
                out.append(('%d limbs%s' % (k, '' if a is None else ' #' if a else ' plain'), [k, None] if two else [k], given if a is not None else None))
        else:
            for neg in (False, True):
                for k in list(range(1, mx + 1)) + [8, 12] + around(ths, 80):
                    def given(v, st, a=a):
                        return [None, a]
                    sh = ('signed', k, neg)
                    out.append(('%s%d limbs%s' % ('-' if neg else '', k, '' if a is None else ' #' if a else ' plain'), [sh, None] if two else [sh], given if a is not None else None))
    return out
