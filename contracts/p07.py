"""Quantum operations."""
from common import *
import codec, spec
def roundint(E, rm, sg, N, M):
    """integer q with q = N/M rounded in mode rm for sign sg: returns a function q -> condition"""
    def cond(q):
        d = N * 2 - q * (2 * M)                 # 2(N - qM)
        if rm in (RZ,) or (rm == RD and sg == 0) or (rm == RU and sg == 1): return and_(ge(d), ge(-d + 2 * M - 1))
        if rm in (RD, RU): return and_(ge(-d), ge(d + 2 * M - 1))
        if rm == RNA: return and_(ge(-d + M - 1), ge(d + M))
        par = E.st.simp(E.st.mod(q, 2))
        return and_(ge(-d + M), ge(d + M), or_(eq0(par), and_(d.ne(M), d.ne(-M))))
    return cond
def quantize(E):
    x, y = E.a; f = x.f; st = E.st
    r = E.retdec()
    if isnan(x) or isnan(y): E.goal('NaN operand gives NaN', r[0] in ('qnan', 'snan')); return
    if x.kind == 'inf' or y.kind == 'inf':
        if x.kind == y.kind: E.goal('infinity of the first operand', and_(r[0] == 'inf', eq0(r[1] - x.s)))
        else: E.goal('one infinity gives NaN', r[0] in ('qnan', 'snan'))
        return
    d = st.simp(y.e - x.e)                       # digits to drop when positive
    rm = E.rm(); sg = E.conc(x.s)
    if r[0] in ('qnan', 'snan'):
        if E.decide(ge(d - 1)): E.goal('NaN only when the coefficient does not fit', FALSE); return
        if E.decide(ge(-d - f.p)): E.goal('NaN only when the coefficient does not fit', not_(eq0(x.c))); return
        E.goal('NaN only when the coefficient does not fit', ge(x.c * 10 ** E.conc(-d) - f.cmax - 1)); return
    if r[0] != 'fin': E.goal('finite or NaN', FALSE); return
    E.goal('sign of x', eq0(r[1] - sg)); E.goal('exponent of y', eq0(r[2] - y.e))
    if E.decide(ge(d - f.p - 1)): N, M = x.c, 10 ** (f.p + 1)
    else:
        if E.decide(ge(-d - f.p)): E.goal('value', and_(eq0(x.c), eq0(r[3]))); return
        k = E.conc(d)
        N, M = x.c * 10 ** max(-k, 0), 10 ** max(k, 0)
    E.goal('coefficient correctly rounded', roundint(E, rm, sg, N, M)(r[3]))
def samequantum(E):
    x, y = E.a
    if x.kind == 'fin' and y.kind == 'fin': t = eq0(x.e - y.e)
    else: t = (isnan(x) and isnan(y)) or (x.kind == 'inf' and y.kind == 'inf')
    truth(E, 'true exactly for equal quantum exponents, two NaNs or two infinities', t)
def quantum(E):
    x = E.a[0]; r = E.retdec()
    if isnan(x): E.goal('NaN', r[0] in ('qnan', 'snan')); return
    if x.kind == 'inf': E.goal('+infinity', and_(r[0] == 'inf', eq0(r[1]))); return
    if r[0] != 'fin': E.goal('finite', FALSE); return
    E.goal('one at the exponent of x', or_(eq0(x.c), and_(eq0(r[3] - 1), eq0(r[2] - x.e), eq0(r[1]))))
    E.goal('same exponent for zero', eq0(r[2] - x.e))
def llq(E):
    x = E.a[0]; r = E.retint()
    if x.kind == 'fin': E.goal('unbiased exponent', eq0(r - x.e + x.f.bias)); E.goal('errno untouched', eq0(E.errno() - E.st.ghost['errno_in']))
    else: E.goal('LLONG_MIN', eq0(r + (1 << 63))); E.goal('errno is EDOM', eq0(E.errno() - 33))
def prop(tier):
    cs = []; cc = codec.callees()
    for w in W:
        d = 'd%d' % w
        cs.append(Contract('quantize' + d, d, [d, d], quantize, uses_rm=True, callees=cc))
        cs.append(Contract('samequantum' + d, 'i8', [d, d], samequantum, callees=cc))
        cs.append(Contract('quantum' + d, d, [d], quantum, callees=cc))
        cs.append(Contract('llquantexp' + d, 'i64', [d], llq, callees=cc))
    pr, bd = select(cs, tier, quick=['quantized32', 'samequantum.*', 'quantumd.*', 'llquantexp.*'], thorough=['quantized64'])
    return {'contracts': pr + codec.bodies(), 'bounded': bd}
