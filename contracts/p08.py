"""Rounding to an integral value in the format."""
from common import *
import codec, spec, p02
from p07 import roundint
CEIL, FLOOR, TRUNC = RU, RD, RZ
def integral(mode, flags=None):
    def ens(E):
        x = E.a[0]; f = x.f; st = E.st
        r = E.retdec()
        if isnan(x): E.goal('NaN', r[0] == 'qnan'); return
        if x.kind == 'inf': E.goal('infinity of the same sign', and_(r[0] == 'inf', eq0(r[1] - x.s))); return
        if r[0] != 'fin': E.goal('finite', FALSE); return
        E.goal('sign of the operand', eq0(r[1] - x.s))
        if not x.canon: E.goal('zero', eq0(r[3])); return
        if E.decide(ge(x.e - f.bias)):
            E.goal('integral operand unchanged', or_(and_(eq0(r[3] - x.c), eq0(r[2] - x.e)), and_(eq0(x.c), eq0(r[3]))))
            if flags: E.goal('no inexact', not E.exc & INEXACT)
            return
        E.goal('exponent zero', or_(eq0(r[2] - f.bias), eq0(x.c)))
        d = st.simp(f.bias - x.e); sg = E.conc(x.s)
        rm = E.rm() if mode is None else mode
        if E.decide(ge(d - f.p - 1)): N, M = x.c, 10 ** (f.p + 1)
        else: N, M = x.c, 10 ** E.conc(d)
        E.goal('the integer nearest in the mode', roundint(E, rm, sg, N, M)(r[3]))
        if flags: E.goal('inexact exactly when the value changed', not_(eq0(N - r[3] * M)) if E.exc & INEXACT else eq0(N - r[3] * M))
        else: E.goal('no overflow, underflow or division by zero', not E.exc & (OVERFLOW | UNDERFLOW | DIVZERO))
    return ens
FN = (('ceil', CEIL), ('floor', FLOOR), ('trunc', TRUNC), ('round', RNA), ('roundeven', RNE), ('nearbyint', None), ('rint', None))
def sp(forms, tier):
    if forms[0] not in ('small', 'large'): return None
    return [(n, (lambda v, rm, m=m: [eq0(rm - m)])) for m, n in enumerate(('rne', 'rd', 'ru', 'rz', 'rna'))]
def prop(tier):
    cs = []; cc = codec.callees()
    for w in W: cc['__bid_ne%sd2' % MODE[w]] = p02.callee('ne', w)
    for w in W:
        d = 'd%d' % w
        for n, m in FN:
            cs.append(Contract(n + d, d, [d], integral(m, n == 'rint'), uses_rm=m is None, callees=cc, split=sp if m is None else None))
    pr, bd = select(cs, tier, quick=['.*d32', '.*d64'], thorough=['.*d128'])
    return {'contracts': pr + codec.bodies((32, 64) if tier == 'quick' else W), 'bounded': bd}
