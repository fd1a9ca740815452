"""Addition and subtraction."""
from common import *
import arith, spec
def addsub(sub, flags):
    def ens(E):
        x, y = E.a; f = x.f; st = E.st
        r = E.retdec()
        if isnan(x) or isnan(y):
            if flags: arith.nan_goals(E, r, [x, y])
            else: E.goal('quiet NaN', r[0] == 'qnan')
            return
        rm = E.rm(); xs = E.conc(x.s); ys = E.conc(y.s) ^ sub
        if x.kind == 'inf' or y.kind == 'inf':
            if x.kind == y.kind and xs != ys:
                E.goal('inf - inf is NaN', r[0] == 'qnan')
                if flags: E.goal('invalid raised', E.exc & INVALID != 0)
                return
            E.goal('infinity', r[0] == 'inf')
            if r[0] == 'inf': E.goal('sign of infinity', eq0(r[1] - (xs if x.kind == 'inf' else ys)))
            E.goal('no flags', not E.exc & ~INEXACT); return
        D = 2 * f.p + 2
        d = st.simp(x.e - y.e)
        if E.decide(ge(d - D)): big, small, bs, ss, far = x, y, xs, ys, True
        elif E.decide(ge(-d - D)): big, small, bs, ss, far = y, x, ys, xs, True
        else: far = False
        if far:
            if E.decide(eq0(big.c)):           # the other operand, unchanged
                E.goal('finite', r[0] == 'fin')
                if r[0] != 'fin': return
                E.goal('value of the non-zero operand', and_(eq0(r[3] - small.c), eq0(r[2] - small.e)))
                zs = bs if bs == ss else (1 if rm == RD else 0)
                E.goal('sign', or_(and_(eq0(small.c), eq0(r[1] - zs)), and_(not_(eq0(small.c)), eq0(r[1] - ss))))
                return
            zero = E.decide(eq0(small.c))
            e0 = big.e - (f.p + 2)
            N2 = big.c * (2 * 10 ** (f.p + 2)) + (0 if zero else 1 if bs == ss else -1)
            kind, exact = arith.round_goals(E, f, r, rm, bs, N2, e0)
            if kind in ('round', 'exact') and zero:
                E.goal('exponent as close to the preferred one as possible', or_(ge(r[3] - 10 ** (f.p - 1)), eq0(r[2] - small.e)))
            if flags: arith.flags_of(E, f, r, kind, exact, None)
            return
        k = E.conc(d)
        a = x.c * 10 ** max(k, 0); b = y.c * 10 ** max(-k, 0); e0 = y.e if k > 0 else x.e
        N = a * (1 - 2 * xs) + b * (1 - 2 * ys)
        if xs == ys: sg = xs; N = a + b
        else: sg = None
        if E.decide(eq0(N)):
            arith.zero_goals(E, f, r, xs if xs == ys else (1 if rm == RD else 0), e0)
            E.goal('no flags', not E.exc & ~INEXACT)
            return
        if sg is None:
            if E.decide(ge(N)): sg = 0
            else: sg = 1; N = -N
        kind, exact = arith.round_goals(E, f, r, rm, sg, N * 2, e0)
        arith.preferred(E, f, r, kind, exact, e0)
        if flags: arith.flags_of(E, f, r, kind, exact, None)
    return ens
def dsplit(f):
    def sp(forms, tier):
        if forms[0] not in ('small', 'large') or forms[1] not in ('small', 'large'): return None
        D = 2 * f.p + 2; out = []
        def at(a, b, rm): return lambda v, r, a=a, b=b, m=rm: [ge(v[0].e - v[1].e - a), ge(-v[0].e + v[1].e + b - 1), eq0(r - m)]
        for m in range(5):
            for a, b in [(-10 ** 5, -D + 1)] + [(k, k + 1) for k in range(-D + 1, D)] + [(D, 10 ** 5)]:
                out.append(('%s d=%d..%d' % (('rne', 'rd', 'ru', 'rz', 'rna')[m], a, b - 1), at(a, b, m)))
        return out
    return sp
def prop(tier):
    cs = []
    for w in W:
        d = 'd%d' % w; m = MODE[w]
        for s, n in ((0, 'add'), (1, 'sub')):
            cs.append(Contract('__bid_%s%sd3' % (n, m), d, [d, d], addsub(s, w < 128), uses_rm=True, split=dsplit(F[w])))
    pr, bd = select(cs, tier, thorough=['__bid_(add|sub)(sd|dd)3'],
                    partial={'__bid_(add|sub)(sd|dd|td)3': nonfinite})
    return {'contracts': pr, 'bounded': bd, 'level': 'other', 'explanation': 'quick tier: operands that are a NaN or an infinity are proved, and for finite operands the postcondition is evaluated on directed inputs run through the built library; thorough tier: every decimal32 and decimal64 operand is under proof',
            'weight': lambda c, case: (c.fn[-3] == 'd') + bool(case[1])}
