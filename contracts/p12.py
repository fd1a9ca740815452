"""Neighbours."""
from common import *
import arith, codec, p02
def step(E, x, up, r):
    """r is the neighbour of x above (up) or below"""
    f = x.f; st = E.st
    s = E.conc(x.s)
    if x.kind == 'inf':
        if (s == 0) == up: E.goal('infinity', and_(r[0] == 'inf', eq0(r[1] - s)))
        else: arith.value_is(E, f, r, s, f.cmax, const(f.emax))
        return
    if E.decide(eq0(x.c)): arith.value_is(E, f, r, 0 if up else 1, 1, const(0)); return
    away = (s == 0) == up
    n = arith.digits(E, x.c, f.p)
    if E.decide(ge(x.e - (f.p - n))): k = f.p - n
    else: k = E.conc(x.e)
    c = x.c * 10 ** k; e = x.e - k
    if away:
        if E.decide(and_(eq0(c - f.cmax), eq0(e - f.emax))): E.goal('infinity', and_(r[0] == 'inf', eq0(r[1] - s))); return
        arith.value_is(E, f, r, s, c + 1, e); return
    if E.decide(and_(eq0(c - 10 ** (f.p - 1)), ge(e - 1))): arith.value_is(E, f, r, s, const(f.cmax), e - 1); return
    if E.decide(eq0(c - 1)): E.goal('zero', eq0(r[3]) if r[0] == 'fin' else FALSE); E.goal('zero: sign', eq0(r[1] - s)); return
    arith.value_is(E, f, r, s, c - 1, e)
def nextup(up):
    def ens(E):
        x = E.a[0]; r = E.retdec()
        if isnan(x): E.goal('NaN', r[0] in ('qnan', 'snan')); return
        step(E, x, up, r)
    return ens
def nextafter(E):
    x, y = E.a; r = E.retdec()
    if isnan(x) or isnan(y): E.goal('NaN', r[0] in ('qnan', 'snan')); return
    c = arith.cmp_cond(x, y, E.st, E)
    if c == 0:
        if x.kind == 'inf': E.goal('x', and_(r[0] == 'inf', eq0(r[1] - x.s))); return
        if E.decide(eq0(x.c)): E.goal('zero', zero(x.f, r)); E.goal('zero with the sign of y', eq0(r[1] - y.s)); return
        arith.value_is(E, x.f, r, E.conc(x.s), x.c, x.e); return
    step(E, x, c < 0, r)
def prop(tier):
    cs = []
    cc = {'__bid_%s%sd2' % (op, MODE[w]): p02.callee(op, w) for w in W for op in p02.OPS}
    for w in W:
        d = 'd%d' % w
        cs.append(Contract('nextup' + d, d, [d], nextup(True), uses_rm=True))
        cs.append(Contract('nextdown' + d, d, [d], nextup(False), uses_rm=True))
        cs.append(Contract('nextafter' + d, d, [d, d], nextafter, uses_rm=True, callees=cc))
        cs.append(Contract('nexttoward' + d, d, [d, 'd128'], nextafter, uses_rm=True, callees=cc))
    pr, bd = select(cs, tier, quick=['next(up|down)d(32|64)'])
    return {'contracts': pr, 'bounded': bd}
