"""Conversions between the decimal formats."""
from common import *
import arith
def conv(E):
    x = E.a[0]; st = E.st; f = x.f; g = F[DECW[E.c.ret]]
    r = E.retdec()
    if isnan(x):
        E.goal('quiet NaN', r[0] == 'qnan')
        if r[0] == 'qnan': E.goal('sign', eq0(r[1] - x.s))
        E.goal('invalid exactly for a signaling NaN', bool(E.exc & INVALID) == (x.kind == 'snan')); return
    E.goal('no invalid, no division by zero', not E.exc & (INVALID | DIVZERO))
    if x.kind == 'inf': E.goal('infinity of the same sign', and_(r[0] == 'inf', eq0(r[1] - x.s))); return
    e = x.e - f.bias + g.bias
    if g.w > f.w:
        E.goal('finite', r[0] == 'fin')
        if r[0] == 'fin': E.goal('same sign, coefficient and exponent', and_(eq0(r[1] - x.s), eq0(r[3] - x.c), eq0(r[2] - e)))
        return
    sg = E.conc(x.s)
    if E.decide(eq0(x.c)):
        E.goal('zero', r[0] == 'fin' and eq0(r[3]))
        if r[0] == 'fin': E.goal('sign', eq0(r[1] - x.s)); E.goal('nearest exponent', or_(eq0(r[2] - e), and_(eq0(r[2]), ge(-e)), and_(eq0(r[2] - g.emax), ge(e - g.emax))))
        return
    if E.decide(ge(-e - f.p - 1)): e = const(-f.p - 1); tiny = True
    kind, exact = arith.round_goals(E, g, r, E.rm(), sg, x.c * 2, st.simp(P(e)))
    if kind == 'round':
        E.goal('preferred exponent when exact', or_(not_(exact), eq0(r[2] - e), ge(r[3] - 10 ** (g.p - 1)), eq0(r[2])))
NAMES = ((32, 64, 'extendsddd2'), (32, 128, 'extendsdtd2'), (64, 128, 'extendddtd2'), (64, 32, 'truncddsd2'), (128, 32, 'trunctdsd2'), (128, 64, 'trunctddd2'))
def sp(f, g):
    """narrowing a finite number: by rounding mode and by exponent (biased to the target)"""
    def split(forms, tier):
        if forms[0] not in ('small', 'large'): return None
        cut = [-10 ** 5, -f.p, 0, 1, g.emax - f.p, g.emax + 1, 10 ** 5]
        return [('%s e=%d..%d' % (('rne', 'rd', 'ru', 'rz', 'rna')[m], a, b - 1),
                 lambda v, r, a=a, b=b, m=m: [ge(v[0].e - f.bias + g.bias - a), ge(-v[0].e + f.bias - g.bias + b - 1), eq0(r - m)])
                for m in range(5) for a, b in zip(cut, cut[1:])]
    return split
def prop(tier):
    cs = [Contract('__bid_' + n, 'd%d' % b, ['d%d' % a], conv, uses_rm=True, split=sp(F[a], F[b]) if b < a else None) for a, b, n in NAMES]
    pr, bd = select(cs, tier, quick=['__bid_extend.*', '__bid_truncddsd2'], partial={'__bid_trunctd.*': lambda c: c[0] in ('inf', 'small_nc', 'large_nc')})
    return {'contracts': pr, 'bounded': bd}
