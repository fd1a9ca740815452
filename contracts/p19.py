"""strtod and wcstod (bounded: strings of unbounded length, locale and decNumber text conversion are beyond the verifier)."""
from common import *
from verify import classify
import re
WS = ' \t\n\v\f\r'
NUM = re.compile(r'([ \t\n\v\f\r]*)([-+]?)(?:(\d+(?:\.\d*)?|\.\d+)(?:[eE]([-+]?\d+))?|(inf(?:inity)?)|(nan)(\(\w*\))?)', re.I | re.A)
def decval(f, bits):
    d = classify(f, bits)
    return d.kind, d.s.c, (d.e.c - f.bias if d.kind == 'fin' else None), (d.c.c if d.kind == 'fin' else None)
def round_digits(N, cut, rm, sg):
    """N / 10^cut rounded to an integer"""
    if cut <= 0: return N * 10 ** -cut, True
    q, r = divmod(N, 10 ** cut)
    if r == 0: return q, True
    h = 5 * 10 ** (cut - 1)
    up = {RNE: r > h or r == h and q & 1, RNA: r >= h, RZ: False, RU: sg == 0, RD: sg == 1}[rm]
    return q + bool(up), False
def value(f, sg, N, q, rm):
    """('fin', exponent or None, coefficient), 'inf', 'max', or 'under'"""
    etop = f.emax - f.bias; etiny = -f.bias
    if N == 0: return ('fin', q if etiny <= q <= etop else None, 0)
    n = len(str(N)); E = q + max(n - f.p, 0)
    if E < etiny: return 'under'
    c, exact = round_digits(N, E - q, rm, sg)
    if c == 10 ** f.p: c = 10 ** (f.p - 1); E += 1
    if E > etop:
        pad = E - etop
        if len(str(c)) + pad > f.p: return 'inf' if rm in (RNE, RNA) or rm == (RD if sg else RU) else 'max'
        return ('fin', None, (c, E))
    return ('fin', E, c)
def parse(s):
    m = NUM.match(s)
    if not m: return None
    sg = int(m.group(2) == '-')
    if m.group(5): return ('inf', sg, m.end())
    if m.group(6): return ('nan', sg, m.end())
    t = m.group(3); i, _, fr = t.partition('.')
    e = m.group(4)
    ev = 0 if e is None else max(-10 ** 8, min(10 ** 8, int(e)))
    return ('num', sg, m.end(), int((i + fr) or '0'), ev - len(fr))
def judge(w):
    f = F[w]
    def j(c, rm, inp, r):
        s = inp[0].decode('latin1'); bad = []
        def need(name, ok):
            if not ok: bad.append(name)
        k, sg, e, cf = decval(f, r['ret'])
        p = parse(s)
        if p is None:
            need('no conversion: zero', k == 'fin' and cf == 0 and sg == 0); need('no conversion: end pointer is the string', r['outs'][1] == 0)
            return bad
        need('end pointer after the longest valid prefix', r['outs'][1] == p[2])
        need('sign', sg == p[1])
        if p[0] == 'inf': need('infinity', k == 'inf'); need('errno unchanged', r['errno'] == 0); return bad
        if p[0] == 'nan': need('quiet NaN', k == 'qnan'); need('errno unchanged', r['errno'] == 0); return bad
        v = value(f, sg, p[3], p[4], rm)
        if v == 'under': need('zero for digits below the least exponent', k == 'fin' and cf == 0); need('ERANGE on underflow', r['errno'] == 34); return bad
        if v in ('inf', 'max'):
            need('overflow', k == 'inf' if v == 'inf' else k == 'fin' and (cf, e) == (f.cmax, f.emax - f.bias)); need('ERANGE on overflow', r['errno'] == 34); return bad
        need('errno unchanged', r['errno'] == 0)
        if k != 'fin': need('finite', False); return bad
        _, we, wc = v
        if wc == 0: need('zero', cf == 0); need('quantum of the zero as written', we is None or e == we); return bad
        if we is None: c0, e0 = wc; need('value rounded once', cf == c0 * 10 ** (e0 - e) if e0 >= e else False); return bad
        need('value rounded once', cf * 10 ** max(e - we, 0) == wc * 10 ** max(we - e, 0)); 
        if len(str(p[3])) <= f.p: need('quantum as written', e == we or we > f.emax - f.bias - f.p + 1)
        return bad
    return j
def digits(R, n):
    k = R.randrange(6)
    if k == 0: return '9' * n
    if k == 1: return '1' + '0' * (n - 1) if n else ''
    if k == 2: return ''.join(R.choice('09') for _ in range(n))
    return ''.join(R.choice('0123456789') for _ in range(n))
def text(R, f):
    k = R.randrange(24)
    sign = R.choice(('', '', '-', '+'))
    if k == 0: return R.choice(('', ' ', '\t\n')) + sign + R.choice(('inf', 'INF', 'infinity', 'InFiNiTyx', 'infinit', 'nan', 'NAN', 'nan(12ab_)', 'nan(', 'nan()z', 'nanx', 'in', 'na'))
    if k == 1: return R.choice(('', ' ', '.', '-', '+.', 'e5', '.e5', '-.', 'x1', '--1', '+-1', '0x1p3', '1.2.3', '1e', '1e+', '1e-x', '0', '-0', '00', '0.', '.0', '-0.000', '0e5', '0e-5', '0e400', '-0e-9999', '0.00e9', '1..', '5 6', '0e', '00e1x'))
    if k < 8:           # a tie, or next to one
        body = R.choice('123456789') + digits(R, f.p - 1) + R.choice('555504967') + R.choice(('', '0' * R.randint(1, 40), '0' * R.randint(0, 60) + '1', '9' * R.randint(1, 30), digits(R, R.randint(1, 50))))
    elif k < 12: body = digits(R, R.randint(1, f.p + 1))
    elif k < 14: body = digits(R, R.choice((80, 97, 98, 100, 120, 300, 380, 390, 400, 420)))
    elif k < 16: body = digits(R, R.randint(1, 2 * f.p + 4)) + '0' * R.randint(0, 130)
    else: body = digits(R, R.randint(1, 3 * f.p))
    q = R.randrange(5)
    if q == 0: pos = 0
    elif q == 1: pos = len(body)
    else: pos = R.randint(0, len(body))
    z = R.choice(('', '', '', '0', '0' * R.randint(1, 30)))
    if R.random() < .5: t = z + body
    elif R.random() < .3: t = z + '.' + '0' * R.randint(0, 120) + body
    else: t = z + body[:pos] + '.' + body[pos:]
    q = R.randrange(8); n = len(body)
    if q == 0: ex = ''
    elif q == 1: ex = str(R.randint(-20, 20))
    elif q == 2: ex = str(f.emax - f.bias - len(t) + R.randint(-10, 40))
    elif q == 3: ex = str(-f.bias + R.randint(-5, 2 * len(t)))
    elif q == 4: ex = str(f.emax - f.bias - R.randint(0, f.p + 3))
    elif q == 5: ex = str(-f.bias + R.randint(-3, f.p + 3))
    elif q == 6: ex = str(R.choice((1, -1)) * R.choice((10 ** 5, 99999, 2147483647, 2147483648, 4294967296, 4294967300, 10 ** 12, 10 ** 30)))
    else: ex = str(R.randint(-f.bias, f.bias))
    if ex: t += R.choice('eE') + (R.choice(('', '+')) if ex[0] != '-' else '') + (ex if R.random() < .8 else ex[:ex[0] == '-'] + '00' + ex.lstrip('-'))
    return R.choice(('', '', '', ' ', '\n\t ')) + sign + t + R.choice(('', '', '', ' ', 'x', '.', 'e', '-', '0x', 'f', ',1'))
def gen(w):
    def g(R): return R.randrange(5), [text(R, F[w]).encode(), 0]
    return g
def mk(fn, w, wide=False):
    c = Contract(fn, 'd%d' % w, ['W', 'F'] if wide else ['S', 'E'], None, uses_rm=True, gen=gen(w))
    c.judge = judge(w)
    return c
EXPL = 'strtodN/wcstodN walk strings of unbounded length through the locale interfaces of glibc and the text conversion of decNumber, which the verifier does not reach; the contract is evaluated on directed strings run through the built library (bounded).'
def prop(tier):
    bd = [mk('strtod%d' % w, w) for w in W] + [mk('wcstod%d' % w, w, True) for w in W]
    return {'contracts': [], 'bounded': bd, 'level': 'other', 'explanation': EXPL, 'bounded_n': {'quick': 40000, 'thorough': 1000000}, 'bounded_t': {'quick': 60, 'thorough': 1500}}
