"""Multiplication."""
from common import *
import arith
def mul(flags):
    def ens(E):
        x, y = E.a; f = x.f; st = E.st
        r = E.retdec()
        if isnan(x) or isnan(y):
            if flags: arith.nan_goals(E, r, [x, y])
            else: E.goal('quiet NaN', r[0] == 'qnan')
            return
        rm = E.rm(); sg = E.conc(x.s) ^ E.conc(y.s)
        if x.kind == 'inf' or y.kind == 'inf':
            o = y if x.kind == 'inf' else x
            if o.kind == 'fin' and E.decide(eq0(o.c)):
                E.goal('inf * 0 is NaN', r[0] == 'qnan')
                if flags: E.goal('invalid raised', E.exc & INVALID != 0)
                return
            E.goal('infinity', and_(r[0] == 'inf', eq0(r[1] - sg)))
            E.goal('no flags', not E.exc & ~INEXACT); return
        e0 = st.simp(x.e + y.e - f.bias)
        if E.decide(or_(eq0(x.c), eq0(y.c))):
            arith.zero_goals(E, f, r, sg, e0); E.goal('no flags', not E.exc & ~INEXACT); return
        kind, exact = arith.round_goals(E, f, r, rm, sg, x.c * y.c * 2, e0)
        arith.preferred(E, f, r, kind, exact, e0)
        if flags: arith.flags_of(E, f, r, kind, exact, None)
    return ens
def esplit(f):
    """finite operands: by rounding mode and by the exponent of the product (biased)"""
    cuts = [-10 ** 5, -2 * f.p - 1] + list(range(-2 * f.p, 1, 2)) + [f.emax - f.p + 1 - f.p % 2] 
    cuts += list(range(cuts[-1] + 2, f.emax + 2, 2)) + [10 ** 5]
    def sp(forms, tier):
        if forms[0] not in ('small', 'large') or forms[1] not in ('small', 'large'): return None
        return [('%s e=%d..%d' % (('rne', 'rd', 'ru', 'rz', 'rna')[m], a, b - 1),
                 lambda v, r, a=a, b=b, m=m: [ge(v[0].e + v[1].e - f.bias - a), ge(-v[0].e - v[1].e + f.bias + b - 1), eq0(r - m)])
                for m in range(5) for a, b in zip(cuts, cuts[1:])]
    return sp
def prop(tier):
    cs = []
    for w in W:
        d = 'd%d' % w
        cs.append(Contract('__bid_mul%sd3' % MODE[w], d, [d, d], mul(w < 128), uses_rm=True, split=esplit(F[w])))
    def easy(case, label):
        e = int(label.split('e=')[1].split('..')[0]) if label else 0
        return specials(case) or e >= 0 or e <= -18
    pr, bd = select(cs, tier, thorough=['__bid_mulsd3'],
                    partial={'__bid_mul(sd|td)3': specials, '__bid_muldd3': specials if tier == 'quick' else easy})
    return {'contracts': pr, 'bounded': bd, 'level': 'other', 'explanation': 'quick tier: special and non-canonical operands are proved, and for canonical finite operands the postcondition is evaluated on directed inputs run through the built library; thorough tier: decimal32, and decimal64 outside the subnormal range, are under proof',
            'weight': lambda c, case: (c.fn[-3] == 'd') + bool(case[1])}
