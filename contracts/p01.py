"""Classification and sign operations."""
from common import *
import codec
FP_NAN, FP_INF, FP_ZERO, FP_SUB, FP_NORM = 0, 1, 2, 3, 4
def nonzero(x): return ge(x.c - 1)
def normal(x): return pow10_le(x, x.f.p - 1)
def k_is(*kinds):
    def ens(E): truth(E, 'true exactly for ' + '/'.join(kinds), E.a[0].kind in kinds)
    return ens
def isnormal(E):
    x = E.a[0]
    truth(E, 'true exactly for normal numbers', normal(x) if x.kind == 'fin' else False)
def signbit(E): truth(E, 'true exactly for a set sign', eq0(E.a[0].s - 1))
def fpclass(E):
    x = E.a[0]; r = E.retint()
    if isnan(x): E.goal('FP_NAN', eq0(r - FP_NAN))
    elif x.kind == 'inf': E.goal('FP_INFINITE', eq0(r - FP_INF))
    else:
        z, n = not_(nonzero(x)), normal(x)
        E.goal('class of a finite value', and_(implies(z, eq0(r - FP_ZERO)), implies(n, eq0(r - FP_NORM)), implies(and_(not_(z), not_(n)), eq0(r - FP_SUB))))
def fabs(E): 
    E.goal('only the sign bit is cleared', eq0(E.retbits() - (E.a[0].bits - E.a[0].s * (1 << (E.a[0].f.k - 1)))))
def copysign(E):
    x, y = E.a
    E.goal('only the sign bit, to that of y', eq0(E.retbits() - (x.bits - x.s * (1 << (x.f.k - 1)) + y.s * (1 << (x.f.k - 1)))))
def prop(tier):
    cs = []; cc = codec.callees()
    for w in W:
        d = 'd%d' % w
        cs += [Contract(p + d, 'i32', [d], e, callees=cc) for p, e in (
            ('isnan', k_is('qnan', 'snan')), ('__isnan', k_is('qnan', 'snan')), ('isinf', k_is('inf')), ('__isinf', k_is('inf')),
            ('isfinite', k_is('fin')), ('finite', k_is('fin')), ('__isfinite', k_is('fin')), ('issignaling', k_is('snan')),
            ('isnormal', isnormal), ('signbit', signbit), ('__signbit', signbit), ('fpclassify', fpclass), ('__fpclassify', fpclass))]
        cs.append(Contract('fabs' + d, d, [d], fabs))
        cs.append(Contract('copysign' + d, d, [d, d], copysign))
    return {'contracts': cs + codec.bodies()}
