"""Fused multiply-add."""
from common import *
import arith
EXPL = "no obligation is discharged in this tier: the contracts are evaluated on directed inputs run through the built library (bounded stand-in)"
def fma(E):
    x, y, z = E.a; f = x.f; st = E.st
    r = E.retdec()
    if isnan(x) or isnan(y): E.goal('NaN', r[0] == 'qnan'); return
    rm = E.rm(); ps = E.conc(x.s) ^ E.conc(y.s)
    pinf = x.kind == 'inf' or y.kind == 'inf'
    if pinf:
        o = y if x.kind == 'inf' else x
        if o.kind == 'fin' and E.decide(eq0(o.c)):
            E.goal('inf * 0 is NaN', r[0] == 'qnan'); E.goal('invalid raised', E.exc & INVALID != 0); E.goal('EDOM', eq0(E.errno() - 33)); return
    if isnan(z): E.goal('NaN', r[0] == 'qnan'); return
    zs = E.conc(z.s)
    if pinf:
        if z.kind == 'inf' and zs != ps: E.goal('inf - inf is NaN', r[0] == 'qnan'); E.goal('invalid raised', E.exc & INVALID != 0); E.goal('EDOM', eq0(E.errno() - 33)); return
        E.goal('infinity', and_(r[0] == 'inf', eq0(r[1] - ps))); return
    if z.kind == 'inf': E.goal('infinity', and_(r[0] == 'inf', eq0(r[1] - zs))); return
    pe = st.simp(x.e + y.e - f.bias); pc = x.c * y.c
    zsign = ps if ps == zs else (1 if rm == RD else 0)
    if E.decide(eq0(pc)):
        e0 = pe if E.decide(ge(z.e - pe)) else z.e
        if E.decide(eq0(z.c)): arith.zero_goals(E, f, r, zsign, e0); return
        kind, exact = arith.round_goals(E, f, r, rm, zs, z.c * 2, z.e)
        arith.preferred(E, f, r, kind, exact, e0)
        return
    d = st.simp(pe - z.e)
    D = 3 * f.p + 4
    if E.decide(ge(d - D)):
        zero = E.decide(eq0(z.c))
        N2 = pc * (2 * 10 ** (2 * f.p + 4)) + (0 if zero else 1 if ps == zs else -1)
        kind, exact = arith.round_goals(E, f, r, rm, ps, N2, pe - (2 * f.p + 4)); return
    if E.decide(ge(-d - D)):
        if E.decide(eq0(z.c)):
            k = None
        else:
            N2 = z.c * (2 * 10 ** (2 * f.p + 4)) + (1 if ps == zs else -1)
            kind, exact = arith.round_goals(E, f, r, rm, zs, N2, z.e - (2 * f.p + 4)); return
        arith.round_goals(E, f, r, rm, ps, pc * 2, pe); return
    k = E.conc(d)
    a = pc * 10 ** max(k, 0); b = z.c * 10 ** max(-k, 0); e0 = z.e if k > 0 else pe
    N = a * (1 - 2 * ps) + b * (1 - 2 * zs)
    if ps == zs: sg = ps; N = a + b
    else: sg = None
    if E.decide(eq0(N)): arith.zero_goals(E, f, r, zsign, e0); return
    if sg is None:
        if E.decide(ge(N)): sg = 0
        else: sg = 1; N = -N
    kind, exact = arith.round_goals(E, f, r, rm, sg, N * 2, e0)
    arith.preferred(E, f, r, kind, exact, e0)
def prop(tier):
    cs = [Contract('fmad%d' % w, 'd%d' % w, ['d%d' % w] * 3, fma, uses_rm=True) for w in W]
    return {'contracts': [], 'bounded': cs, 'level': 'other', 'explanation': EXPL}
