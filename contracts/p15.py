"""The decimal rounding mode: fe_dec_setround, fe_dec_getround, __dn_getround,
and the frame condition of every other function (engine/frame.py)."""
from common import *
import gen as G
# FE_DEC_* -> stored value; stored value -> decContext rounding (libdecnumber/decContext.h)
STORED = {0: RNE, 1: RZ, 2: RU, 3: RD, 4: RNA}
DN = {RNE: 3, RZ: 5, RU: 0, RD: 6, RNA: 2}
def setround(E):
    n = E.a[0]; rm0 = E.st.ghost['rm']
    for v, s in STORED.items():
        if E.decide(eq0(n - v)):
            E.goal('accepted', eq0(E.retint())); E.goal('mode selected', eq0(E.mode() - s)); return
    E.goal('rejected', not_(eq0(E.retint()))); E.goal('mode unchanged', eq0(E.mode() - rm0))
def getter(of):
    def ens(E):
        rm0 = E.st.ghost['rm']
        E.goal('mode unchanged', eq0(E.mode() - rm0))
        E.goal('names the mode', eq0(E.retint() - of(E.rm())))
    return ens
def keepmode(c, rm, inp, r): return [] if r['rmkept'] else ['the rounding mode on return is the mode on entry (now %d)' % r['mode']]
def crash_is_none(c): c.judge = keepmode; return c
UN = 'acos acosh asin asinh atan atanh cbrt ceil cos cosh erfc erf exp2 exp expm1 fabs floor lgamma log10 log1p log2 logb log nearbyint nextdown nextup quantum rint round roundeven sin sinh sqrt tan tanh tgamma trunc'.split()
BI = 'atan2 copysign fdim fmax fmaxmag fmin fminmag fmod hypot nextafter pow quantize remainder'.split()
def near1(R, f):
    """an operand of ordinary size three times out of four"""
    k = R.random()
    if k < .06:         # the ends of the range
        return R.randrange(2) << (f.k - 1) | R.choice((0, 1, 0x1e << (f.k - 6), G.encode(f, 0, f.emax, f.cmax), G.encode(f, 0, f.emax, 1), G.encode(f, 0, 0, f.cmax), G.encode(f, 0, 0, 10 ** (f.p - 1))))
    if k < .3: return G.decimal(R, f)
    n = R.randint(1, f.p); c = G.coef(R, n)
    return G.encode(f, R.randrange(2), f.bias + R.randint(-n - 3, 3 - n), c)
def mk(w):
    f = F[w]; d = 'd%d' % w; out = []
    def add(fn, ret, args):
        def g(R, args=args):
            return (R.randrange(5), [near1(R, F[DECW[a]]) if a in DECW else R.choice((0, 1, 2, 10, R.randrange(16), R.randrange(-400, 400), R.getrandbits(31))) if a in INTW else 0 for a in args])
        out.append(crash_is_none(Contract(fn, ret, args, None, gen=g)))
    for n in UN: add(n + d, d, [d])
    for n in BI: add(n + d, d, [d, d])
    add('nexttoward' + d, d, [d, 'd128']); add('fma' + d, d, [d, d, d])
    for n in ('llround', 'lround', 'lrint', 'llrint', 'llquantexp', 'llogb'): add(n + d, 'i64', [d])
    for n in ('ldexp', 'scalbn', 'scalbln'): add(n + d, d, [d, 'i64' if n == 'scalbln' else 'i32'])
    add('frexp' + d, d, [d, 'Pi32']); add('modf' + d, d, [d, 'P' + d])
    m = MODE[w]
    for n in ('add', 'sub', 'mul', 'div'): add('__bid_%s%sd3' % (n, m), d, [d, d])
    for o, t in (('trunc', 'sd'), ('extend', 'td')):
        for n in (32, 64, 128):
            if o == 'trunc' and n < w: add('__bid_trunc%sd%sd2' % (m, MODE[n]), 'd%d' % n, [d])
            if o == 'extend' and n > w: add('__bid_extend%sd%sd2' % (m, MODE[n]), 'd%d' % n, [d])
    for t, c in (('si', 'i32'), ('di', 'i64'), ('ti', 'i128')):
        add('__bid_fix%sd%s' % (m, t), c, [d]); add('__bid_fixuns%sd%s' % (m, t), 'u' + c[1:], [d])
        if t != 'ti': add('__bid_float%s%sd' % (t, m), d, [c]); add('__bid_floatuns%s%sd' % (t, m), d, ['u' + c[1:]])
    return out
def prop(tier):
    import p19, p20
    cs = [Contract('fe_dec_setround', 'i32', ['i32'], setround, gen=lambda R: (R.randrange(5), [R.choice((R.randint(-2, 8), R.getrandbits(32) - (1 << 31), 16 * R.randrange(8)))])),
          Contract('fe_dec_getround', 'i32', [], getter(lambda s: {v: k for k, v in STORED.items()}[s]), uses_rm=True),
          Contract('__dn_getround', 'i32', [], getter(lambda s: DN[s]), uses_rm=True)]
    cs[2].internal = True; cs[2].build = lambda st, vals: []
    bd = [c for w in W for c in mk(w)]
    for c in p19.prop(tier)['bounded'] + p20.prop(tier)['bounded']: bd.append(crash_is_none(c))
    return {'contracts': cs, 'bounded': bd, 'frame': True, 'bounded_n': {'quick': 1500, 'thorough': 40000}, 'bounded_t': {'quick': 40, 'thorough': 1500},
            'assumptions': ['frame condition: the mode is reached only through its name (IR of every unit is scanned for stores, escapes of its address and static pointers to it or to fe_dec_setround); functions outside the library do not change it unless they call fe_dec_setround',
                            'the objects built only from assembly or data (no IR) are checked by their symbol references']}
