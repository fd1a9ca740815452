"""Minimum, maximum and positive difference."""
from common import *
import arith, codec
def same(E, r, x, what):
    if x.kind == 'inf': E.goal(what, and_(r[0] == 'inf', eq0(r[1] - x.s)) if r[0] == 'inf' else FALSE); return
    if r[0] != 'fin': E.goal(what, FALSE); return
    if E.decide(eq0(x.c)): E.goal(what, zero(x.f, r)); return
    arith.value_is(E, x.f, r, E.conc(x.s), x.c, x.e, what)
def minmax(mx, mag):
    def ens(E):
        x, y = E.a; r = E.retdec()
        if isnan(x) or isnan(y):
            if x.kind == 'snan' or y.kind == 'snan': E.goal('NaN or the number', TRUE); return
            if isnan(x) and isnan(y): E.goal('NaN', r[0] == 'qnan'); return
            same(E, r, y if isnan(x) else x, 'the operand that is a number'); return
        c = arith.mag_cmp(x, y, E) if mag else 0
        if c == 0: c = arith.cmp_cond(x, y, E.st, E)
        if c == 0: same(E, r, x, 'one of the equal operands'); return
        same(E, r, (x if c > 0 else y) if mx else (x if c < 0 else y), 'the %s operand' % ('greater' if mx else 'lesser'))
    return ens
def fdim(E):
    x, y = E.a; f = x.f; st = E.st; r = E.retdec()
    if isnan(x) or isnan(y): E.goal('NaN', r[0] == 'qnan'); return
    c = arith.cmp_cond(x, y, st, E)
    if c <= 0: E.goal('+0', and_(eq0(r[3]), eq0(r[1])) if r[0] == 'fin' else FALSE); return
    if x.kind == 'inf' or y.kind == 'inf': E.goal('infinity', and_(r[0] == 'inf', eq0(r[1]))); return
    D = 2 * f.p + 2; d = st.simp(x.e - y.e); xs = E.conc(x.s); ys = 1 - E.conc(y.s)
    big = None
    if E.decide(ge(d - D)): big, small, bs, ss = x, y, xs, ys
    elif E.decide(ge(-d - D)): big, small, bs, ss = y, x, ys, xs
    if big is not None:
        if E.decide(eq0(big.c)): arith.round_goals(E, f, r, RNE, 0, small.c * 2, small.e); return
        z = E.decide(eq0(small.c))
        arith.round_goals(E, f, r, RNE, 0, big.c * (2 * 10 ** (f.p + 2)) + (0 if z else 1 if bs == ss else -1), big.e - (f.p + 2)); return
    k = E.conc(d)
    N = x.c * 10 ** max(k, 0) * (1 - 2 * xs) + y.c * 10 ** max(-k, 0) * (1 - 2 * ys)
    arith.round_goals(E, f, r, RNE, 0, N * 2, y.e if k > 0 else x.e)
def prop(tier):
    cs = []; cc = dict(codec.callees(), decNumberCompare=codec.compare)
    for w in W:
        d = 'd%d' % w
        for n, mx, mag in (('fmin', 0, 0), ('fmax', 1, 0), ('fminmag', 0, 1), ('fmaxmag', 1, 1)):
            cs.append(Contract(n + d, d, [d, d], minmax(mx, mag), callees=cc))
        cs.append(Contract('fdim' + d, d, [d, d], fdim, callees=cc))
    pr, bd = select(cs, tier, partial={'f(min|max|minmag|maxmag)d(32|64|128)': specials, 'fdimd(32|64)': nonfinite if tier == 'quick' else specials})
    return {'contracts': pr + codec.bodies(), 'bounded': bd, 'level': 'other',
            'explanation': 'special and non-canonical operands are proved; for pairs of canonical finite operands the postcondition is evaluated on directed inputs run through the built library'}
