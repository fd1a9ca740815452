"""Scaling and decomposition."""
from common import *
import arith, codec
IMAX = (1 << 31) - 1; IMIN = -(1 << 31); LMAX = (1 << 63) - 1; LMIN = -(1 << 63)
def scale(E):
    x, n = E.a; f = x.f; st = E.st; r = E.retdec()
    if isnan(x): E.goal('NaN', r[0] == 'qnan' or r[0] == 'snan'); return
    if x.kind == 'inf': E.goal('infinity of the same sign', and_(r[0] == 'inf', eq0(r[1] - x.s))); return
    sg = E.conc(x.s)
    if E.decide(eq0(x.c)): E.goal('zero of the same sign', and_(zero(f, r), eq0(r[1] - sg))); return
    lim = 2 * f.emax + 2 * f.p
    if E.decide(ge(n - lim)): n = const(lim)
    elif E.decide(ge(-n - lim)): n = const(-lim)
    e0 = st.simp(x.e + n)
    if E.decide(ge(-e0 - f.p - 2)): e0 = const(-f.p - 2)
    kind, exact = arith.round_goals(E, f, r, RNE, sg, x.c * 2, e0)
    if kind == 'inf': E.goal('ERANGE on overflow', eq0(E.errno() - 34))
def frexp(E):
    x = E.a[0]; f = x.f; st = E.st; r = E.retdec()
    if isnan(x): E.goal('NaN', r[0] in ('qnan', 'snan')); return
    if x.kind == 'inf': E.goal('infinity of the same sign', and_(r[0] == 'inf', eq0(r[1] - x.s))); return
    y = E.out(1)
    if E.decide(eq0(x.c)): E.goal('zero of the same sign', and_(zero(f, r), eq0(r[1] - x.s), eq0(y))); return
    n = arith.digits(E, x.c, f.p)
    E.goal('exponent', eq0(y - (x.e - f.bias + n)))
    arith.value_is(E, f, r, E.conc(x.s), x.c, const(f.bias - n), 'fraction in [0.1, 1)')
def logb(E):
    x = E.a[0]; f = x.f; r = E.retdec()
    if isnan(x): E.goal('NaN', r[0] == 'qnan'); return
    if x.kind == 'inf': E.goal('+infinity', and_(r[0] == 'inf', eq0(r[1]))); return
    if E.decide(eq0(x.c)): E.goal('-infinity', and_(r[0] == 'inf', eq0(r[1] - 1))); E.goal('division by zero raised', E.exc & DIVZERO != 0); E.goal('ERANGE', eq0(E.errno() - 34)); return
    n = arith.digits(E, x.c, f.p)
    v = E.st.simp(x.e - f.bias + n - 1)
    if E.decide(eq0(v)): E.goal('zero', eq0(r[3]) if r[0] == 'fin' else FALSE); return
    sg = 0 if E.decide(ge(v)) else 1
    arith.value_is(E, f, r, sg, -v if sg else v, const(f.bias), 'adjusted exponent')
def ilogb(lo, hi, l0, lnan):
    def ens(E):
        x = E.a[0]; f = x.f; r = E.retint()
        if isnan(x): E.goal('FP_ILOGBNAN', eq0(r - lnan)); E.goal('EDOM', eq0(E.errno() - 33)); return
        if x.kind == 'inf': E.goal('extreme value', or_(eq0(r - hi), eq0(r - lo))); E.goal('EDOM', eq0(E.errno() - 33)); return
        if E.decide(eq0(x.c)): E.goal('FP_ILOGB0', eq0(r - l0)); E.goal('EDOM', eq0(E.errno() - 33)); return
        n = arith.digits(E, x.c, f.p)
        E.goal('adjusted exponent', eq0(r - (x.e - f.bias + n - 1)))
    return ens
def modf(E):
    x = E.a[0]; f = x.f; st = E.st; r = E.retdec()
    if isnan(x): E.goal('NaN', r[0] in ('qnan', 'snan')); return
    y = E.dec(f.w, E.out(1))
    if x.kind == 'inf':
        E.goal('zero fraction', eq0(r[3]) if r[0] == 'fin' else FALSE); E.goal('sign', eq0(r[1] - x.s))
        E.goal('infinite integral part', and_(y[0] == 'inf', eq0(y[1] - x.s)))
        return
    if r[0] != 'fin' or y[0] != 'fin': E.goal('finite', FALSE); return
    sg = E.conc(x.s)
    if E.decide(eq0(x.c)): E.goal('zeros', and_(eq0(r[3]), eq0(y[3]))); E.goal('sign', eq0(y[1] - sg)); return
    if E.decide(ge(x.e - f.bias)): arith.value_is(E, f, y, sg, x.c, x.e, 'integral part'); E.goal('zero fraction', eq0(r[3])); return
    d = st.simp(f.bias - x.e)
    if E.decide(ge(d - f.p)): E.goal('zero integral part', eq0(y[3])); E.goal('integral part: sign', eq0(y[1] - sg)); arith.value_is(E, f, r, sg, x.c, x.e, 'fraction'); return
    M = 10 ** E.conc(d)
    q = st.div(x.c, M); m = st.mod(x.c, M)
    if E.decide(eq0(q)): E.goal('zero integral part', eq0(y[3])); E.goal('integral part: sign', eq0(y[1] - sg))
    else: arith.value_is(E, f, y, sg, q, const(f.bias), 'integral part')
    if E.decide(eq0(m)): E.goal('zero fraction', eq0(r[3]))
    else: arith.value_is(E, f, r, sg, m, x.e, 'fraction')
def prop(tier):
    cs = []; cc = codec.callees()
    for w in W:
        d = 'd%d' % w
        cs.append(Contract('ldexp' + d, d, [d, 'i32'], scale, callees=cc))
        cs.append(Contract('scalbn' + d, d, [d, 'i32'], scale, callees=cc))
        cs.append(Contract('scalbln' + d, d, [d, 'i64'], scale, callees=cc))
        cs.append(Contract('frexp' + d, d, [d, 'Pi32'], frexp, callees=cc))
        cs.append(Contract('logb' + d, d, [d], logb, callees=cc))
        cs.append(Contract('ilogb' + d, 'i32', [d], ilogb(IMIN, IMAX, -IMAX - 1, IMIN), callees=cc))
        cs.append(Contract('llogb' + d, 'i64', [d], ilogb(LMIN, LMAX, LMIN, LMIN), callees=cc))
        cs.append(Contract('modf' + d, d, [d, 'P' + d], modf, callees=cc))
    pr, bd = select(cs, tier, quick=['frexp.*', '(logb|ilogb|llogb)d(32|64)', '(scalbn|scalbln|modf)d32'], thorough=['ldexpd32'])
    return {'contracts': pr + codec.bodies(), 'bounded': bd}
