"""printf, strfrom and decoded: decimals as text (bounded: glibc streams and strings are beyond the verifier)."""
from common import *
from p19 import decval, round_digits
import sys, re
sys.set_int_max_str_digits(0)
def fin_e(c, q, prec, rm, sg, alt, up, mind=2):
    n = len(str(c))
    if c == 0: s = '0' * (prec + 1); x = 0
    else:
        r, _ = round_digits(c, n - (prec + 1), rm, sg); x = q + n - 1
        if r == 10 ** (prec + 1): r //= 10; x += 1
        s = str(r)
    return mant(s[0], s[1:], alt) + expo(x, up, mind), x
def mant(i, f, alt): return i + ('.' + f if f or alt else '')
def expo(x, up, mind): return ('E' if up else 'e') + '%s%0*d' % ('-' if x < 0 else '+', mind, abs(x))
def fin_f(c, q, prec, rm, sg, alt):
    r, _ = round_digits(c, -prec - q, rm, sg)
    s = str(r).rjust(prec + 1, '0')
    return mant(s[:len(s) - prec], s[len(s) - prec:] if prec else '', alt)
def body(f, kind, c, q, prec, rm, sg, alt):
    up = kind.isupper(); k = kind.lower()
    if k == 'e': return fin_e(c, q, 6 if prec is None else prec, rm, sg, alt, up)[0]
    if k == 'f': return fin_f(c, q, 6 if prec is None else prec, rm, sg, alt)
    if k == 'g':
        P = 6 if prec is None else prec or 1
        t, X = fin_e(c, q, P - 1, rm, sg, True, up)
        if P > X >= -4: m, e = fin_f(c, q, P - 1 - X, rm, sg, True), ''
        else: m, e = re.match(r'([^eE]*)(.*)', t).groups()
        if not alt: m = m.rstrip('0').rstrip('.')
        return m + e
    n = len(str(c))
    if prec is not None and 0 < prec < f.p and prec < n:
        r, _ = round_digits(c, n - prec, rm, sg); q += n - prec
        if r == 10 ** prec: r //= 10; q += 1
        c, n = r, prec
    s = str(c)
    if 0 >= q >= -(n + 5): s = s.rjust(1 - q, '0'); return mant(s[:len(s) + q] if q else s, s[len(s) + q:] if q else '', False)
    return mant(s[0], s[1:], False) + expo(q + n - 1, up, 1)
FMT = re.compile(r"%([-+ #0]*)(\d*)(?:\.(\d+))?(?:H|DD|D)?([aAeEfFgG])")
def text_of(f, fmt, bits, rm):
    flags, width, prec, kind = FMT.fullmatch(fmt).groups()
    k, sg, q, c = decval(f, bits)
    if k == 'fin': t = body(f, kind, c, q, None if prec is None else int(prec), rm, sg, '#' in flags)
    else:
        t = 'inf' if k == 'inf' else 'nan'
        if kind.isupper(): t = t.upper()
    s = '-' if sg else '+' if '+' in flags else ' ' if ' ' in flags else ''
    w = int(width or 0) - len(s)
    if '-' in flags: return (s + t).ljust(int(width or 0))
    if '0' in flags and k == 'fin': return s + t.rjust(w, '0')
    return (s + t).rjust(int(width or 0))
def judge(w):
    f = F[w]
    def j(c, rm, inp, r):
        if len(inp) == 4: fmt, bits, n = inp[1].decode(), inp[2], inp[3]
        else: fmt, bits, n = inp[1].decode(), inp[2], 9000
        t = text_of(f, fmt, bits, rm).encode(); got = r['outs'][0]; bad = []
        if got != t[:n - 1]: bad.append('text is %r' % t[:60].decode())
        if r['ret'] != len(t): bad.append('returns the length %d of the text' % len(t))
        return bad
    return j
def jdecoded(w):
    f = F[w]
    def j(c, rm, inp, r):
        k, sg, q, cf = decval(f, inp[1])
        if k != 'fin': q, cf = -f.bias, 0
        s = str(cf).rjust({32: 7, 64: 16, 128: 34}[w], '0')
        g = [s[0]] + [s[i:i + 3] for i in range(1, len(s), 3)]
        t = '%s%sE%+d' % ('-' if sg else '+', ','.join(g), q)
        return [] if r['outs'][0] == t.encode() else ['text is %r' % t]
    return j
import gen as G
def enc(R, f):
    n = R.randint(1, f.p); c = int(''.join(R.choice('0123456789') for _ in range(n)))
    z = R.randrange(6)
    if z == 0: c = c // 10 ** (n // 2) * 10 ** (n // 2)
    elif z == 1: c = 10 ** n - R.choice((1, 1, 2, 5, 50))
    elif z == 2: c = int(str(c)[:n // 2 + 1] + R.choice('5049') + R.choice('09') * max(n - n // 2 - 3, 0) + R.choice('015'))
    c %= 10 ** f.p
    if R.random() < .04: c = 0
    e = R.choice((R.randint(-2 * f.p, 5), R.randint(-12, 6), R.randint(-n - 8, -n + 8), R.randint(-f.bias, f.emax - f.bias)))
    if R.random() < .75: e = max(e, -60); e = min(e, 40)
    return G.encode(f, R.randrange(2), max(0, min(e + f.bias, f.emax)), c)
def fmt(R, mod, flags):
    k = R.choice('aAeEfFgG'); p = ''
    if R.random() < .7: p = '.%d' % R.choice((R.randint(0, 8), R.randint(0, 40)))
    if k in 'aA' and p == '.0': p = '.1'
    s = '%'
    if flags:
        fl = ''.join(x for x in '-+ 0#' if R.random() < .25)
        if k in 'aA': fl = fl.replace('#', '')
        if R.random() < .5: fl = ''
        s += fl
        if R.random() < .5: s += str(R.choice((R.randint(1, 15), R.randint(1, 60))))
    return s + p + mod + k
MOD = {32: 'H', 64: 'D', 128: 'DD'}
def mk(w):
    f = F[w]; out = []
    c = Contract('v_strfrom%d' % w, 'i32', ['O', 'S', 'd%d' % w, 'i32'], None, uses_rm=True,
                 gen=lambda R: (R.randrange(5), [0, fmt(R, '', False).encode(), enc_any(R, f), R.choice((9000, 9000, R.randint(1, 40)))]))
    c.csrc = 'extern int strfromd%d(char*,size_t,const char*,_Decimal%d); static int v_strfrom%d(char*o,const char*f,_Decimal%d x,int n){return strfromd%d(o,n,f,x);}' % ((w,) * 5)
    c.judge = judge(w); out.append(c)
    c = Contract('v_printf%d' % w, 'i32', ['O', 'S', 'd%d' % w], None, uses_rm=True, gen=lambda R: (R.randrange(5), [0, fmt(R, MOD[w], True).encode(), enc_any(R, f)]))
    c.csrc = 'static int v_printf%d(char*o,const char*f,_Decimal%d x){return snprintf(o,9000,f,x);}' % (w, w)
    c.judge = judge(w); out.append(c)
    c = Contract('v_decoded%d' % w, 'i32', ['O', 'd%d' % w], None, gen=lambda R: (R.randrange(5), [0, enc_any(R, f)]))
    c.csrc = 'extern char*decoded%d(_Decimal%d,char*); static int v_decoded%d(char*o,_Decimal%d x){return decoded%d(x,o)==o;}' % ((w,) * 5)
    c.judge = jdecoded(w); out.append(c)
    return out
def enc_any(R, f):
    k = R.randrange(12)
    if k == 0: return R.getrandbits(f.k)
    if k == 1: return R.choice((0b11110, 0b11111)) << (f.k - 6) | R.randrange(2) << (f.k - 1) | R.getrandbits(f.k - 6)
    if k == 2: return R.getrandbits(1) << (f.k - 1) | 3 << (f.k - 3) | R.getrandbits(f.k - 4)
    return enc(R, f)
EXPL = 'The text is built through glibc streams and nl_langinfo, which the verifier does not reach; the contract is evaluated on directed operands and formats run through the built library (bounded).'
def prop(tier):
    bd = [c for w in W for c in mk(w)]
    return {'contracts': [], 'bounded': bd, 'level': 'other', 'explanation': EXPL, 'bounded_n': {'quick': 40000, 'thorough': 1000000}, 'bounded_t': {'quick': 60, 'thorough': 1500}}
