"""Decimal to integer."""
from common import *
import codec, p02
from p07 import roundint
ITY = {'si': 'i32', 'di': 'i64', 'ti': 'i128', 'unssi': 'u32', 'unsdi': 'u64', 'unsti': 'u128'}
def rng(t):
    w, s = INTW[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
def toint(mode, ty, invalid=False, exact=False):
    lo, hi = rng(ty)
    def ens(E):
        x = E.a[0]; f = x.f; st = E.st
        r = E.retint()
        def out():
            if invalid: E.goal('EDOM when the result does not fit', eq0(E.errno() - 33))
            E.goal('invalid raised when the result does not fit', bool(E.exc & INVALID) if invalid else True)
        if x.kind != 'fin': out(); return
        rm = E.rm() if mode is None else mode; sg = E.conc(x.s)
        if not x.canon: E.goal('zero', eq0(r)); return
        d = st.simp(f.bias - x.e)                # digits to drop
        if E.decide(ge(d - f.p - 1)): N, M = x.c, 10 ** (f.p + 1)
        elif E.decide(ge(-d - 40)):
            if E.decide(eq0(x.c)): E.goal('zero', eq0(r))
            else: out()
            return
        else:
            k = E.conc(d)
            N, M = x.c * 10 ** max(-k, 0), 10 ** max(k, 0)
        # the rounded magnitude fits?  q = round(N/M); thresholds in N
        lim = hi if sg == 0 else -lo
        dn = rm == RZ or (rm == RD and sg == 0) or (rm == RU and sg == 1)
        if dn: fits = ge(-N + (lim + 1) * M - 1)
        elif rm in (RD, RU): fits = ge(-N + lim * M)
        elif rm == RNA: fits = ge(-N * 2 + (2 * lim + 1) * M - 1)
        else: fits = ge(-N * 2 + (2 * lim + 1) * M - (1 if lim % 2 else 0))
        if not E.decide(fits): out(); return
        q = -r if sg else r
        if invalid: E.goal('no invalid when the result fits', not E.exc & INVALID); E.goal('errno untouched when the result fits', eq0(E.errno() - E.st.ghost['errno_in']))
        E.goal('the integer the mode selects', roundint(E, rm, sg, N, M)(q))
        if exact: E.goal('inexact when the value changed', eq0(N - q * M) if not E.exc & INEXACT else True)
    return ens
def sp(f, mode):
    """finite operands of the lround family: by rounding mode and by the number of digits dropped"""
    def split(forms, tier):
        if forms[0] not in ('small', 'large'): return None
        cut = [-10 ** 5, -20, 0] + list(range(1, f.p + 2, 1 if f.w == 64 else 2)) + [10 ** 5]
        return [('%s d=%d..%d' % (('rne', 'rd', 'ru', 'rz', 'rna')[m], a, b - 1),
                 lambda v, r, a=a, b=b, m=m: [ge(f.bias - v[0].e - a), ge(-f.bias + v[0].e + b - 1)] + ([eq0(r - m)] if mode is None else []))
                for m in (range(5) if mode is None else [mode]) for a, b in zip(cut, cut[1:])]
    return split
def prop(tier):
    cs = []; cc = codec.callees()
    for w in W:
        d = 'd%d' % w; m = MODE[w]
        for n, t in ITY.items(): cs.append(Contract('__bid_fix%s%s' % (n[:3] + m + 'd' + n[3:] if n.startswith('uns') else m + 'd' + n, ''), t, [d], toint(RZ, t)))
        for n, md in (('lround', RNA), ('llround', RNA), ('lrint', None), ('llrint', None)):
            cs.append(Contract(n + d, 'i64', [d], toint(md, 'i64', True, md is None), uses_rm=md is None, callees=cc, split=sp(F[w], md)))
    pr, bd = select(cs, tier, quick=['__bid_fix(uns)?(sd|dd)(si|di)', 'll?(round|rint)d32'], thorough=['ll?roundd64'], partial={'__bid_fix(uns)?td(si|di)': specials})
    return {'contracts': pr + codec.bodies((32, 64)), 'bounded': bd}
