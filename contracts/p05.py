"""Division."""
from common import *
import arith
def div(flags):
    def ens(E):
        x, y = E.a; f = x.f; st = E.st
        r = E.retdec()
        if isnan(x) or isnan(y):
            if flags: arith.nan_goals(E, r, [x, y])
            else: E.goal('quiet NaN', r[0] == 'qnan')
            return
        rm = E.rm(); sg = E.conc(x.s) ^ E.conc(y.s)
        if x.kind == 'inf':
            if y.kind == 'inf':
                E.goal('inf / inf is NaN', r[0] == 'qnan')
                if flags: E.goal('invalid raised', E.exc & INVALID != 0)
                return
            E.goal('infinity', and_(r[0] == 'inf', eq0(r[1] - sg))); E.goal('no flags', not E.exc & ~INEXACT); return
        if y.kind == 'inf':
            E.goal('zero', and_(r[0] == 'fin', eq0(r[1] - sg), eq0(r[3])) if r[0] == 'fin' else FALSE); E.goal('no flags', not E.exc & ~INEXACT); return
        if E.decide(eq0(y.c)):
            if E.decide(eq0(x.c)):
                E.goal('0 / 0 is NaN', r[0] == 'qnan')
                if flags: E.goal('invalid raised', E.exc & INVALID != 0)
                return
            E.goal('x / 0 is infinity', and_(r[0] == 'inf', eq0(r[1] - sg)))
            if flags: E.goal('division by zero raised', (E.exc & ~INEXACT) == DIVZERO)
            return
        e0 = st.simp(x.e - y.e + f.bias)
        if E.decide(eq0(x.c)):
            arith.zero_goals(E, f, r, sg, e0); E.goal('no flags', not E.exc & ~INEXACT); return
        kind, exact = arith.round_goals(E, f, r, rm, sg, x.c * 2, e0, D=y.c)
        arith.preferred(E, f, r, kind, exact, e0)
        if flags: arith.flags_of(E, f, r, kind, exact, None)
    return ens
def prop(tier):
    cs = []
    for w in W:
        d = 'd%d' % w
        cs.append(Contract('__bid_div%sd3' % MODE[w], d, [d, d], div(w < 128), uses_rm=True))
    pr, bd = select(cs, tier, partial={'__bid_div(sd|dd|td)3': nonfinite})
    return {'contracts': pr, 'bounded': bd, 'level': 'other',
            'explanation': 'operands that are a NaN or an infinity are proved; for finite operands (whose quotient digits come from floating-point division) the postcondition is evaluated on directed inputs run through the built library'}
