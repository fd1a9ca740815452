"""Correctly rounded results: shared postcondition vocabulary."""
from common import *
import spec
def overflow_ok(E, f, r, sg, rm):
    """non-finite or saturated result of an overflow with sign sg"""
    to_inf = rm in (RNE, RNA) or (rm == RU and sg == 0) or (rm == RD and sg == 1)
    return to_inf
def round_goals(E, f, r, rm, sg, N2, e0, what='result', flags=False, D=1):
    """r (decoded result) is (-1)^sg * (N2/2) * 10^e0 (N2 > 0, e0 biased, may be
    negative) correctly rounded in mode rm; flags; preferred exponent e0.
    Returns nothing; adds goals."""
    st = E.st; ex = E.ex; G = E.G
    if D == 1 and st.bounds(st.simp(P(e0)))[0] < -span(st, N2) and E.decide(ge(-e0 - span(st, N2))):
        N2 = ONE; e0 = const(-1)         # below half of the smallest number: any such value rounds as another
    if r[0] == 'fin':
        _, s, e, c = r
        E.goal(what + ': sign', eq0(s - sg))
        E.goal(what + ': exponent in range', ge(-e + f.emax))
        E.goal(what + ': coefficient in range', ge(-c + f.cmax))
        if not overflow_ok(E, f, r, sg, rm) and st.bounds(st.simp(P(e0) - f.emax))[1] > -span(st, N2) and E.decide(and_(eq0(e - f.emax), eq0(c - f.cmax))):
            # the largest number: correctly rounded, or saturation of an overflow (10^p units or more)
            if E.decide(beyond(E, N2, e0, f.emax, 2 * 10 ** f.p, False, D)):
                E.goal(what + ': largest finite number', TRUE)
                return 'saturated', FALSE
        kind, exact = spec.rounded(ex, st, f, G, rm, sg, N2, e0, e, c, D)
        return kind, exact
    if r[0] == 'inf':
        E.goal(what + ': sign of infinity', eq0(r[1] - sg))
        E.goal(what + ': infinity allowed in this mode', overflow_ok(E, f, r, sg, rm))
        # at or beyond the overflow threshold
        near = rm in (RNE, RNA)
        thr2 = 2 * 10 ** f.p - 1 if near else 2 * f.cmax     # N/2*10^e0 >= thr2/2*10^emax, or > when directed
        E.goal(what + ': magnitude overflows', beyond(E, N2, e0, f.emax, thr2, not near, D))
        if flags: E.goal(what + ': overflow and inexact raised', (E.exc & (OVERFLOW | INEXACT)) == (OVERFLOW | INEXACT))
        return 'inf', FALSE
    E.goal(what + ': numeric', FALSE)
    return 'nan', FALSE
def span(st, N2):
    hi = st.bounds(st.simp(P(N2)))[1]
    return 80 if hi == float('inf') else len(str(hi))
def beyond(E, N2, e0, emax, thr2, strict=False, D=1):
    """N2*10^e0 >= thr2*10^emax, or >"""
    x = 1 if strict else 0
    st = E.st
    d = st.simp(P(e0) - emax)
    lo, hi = st.bounds(d)
    if lo > 80 and D == 1: return TRUE
    if D == 1 and hi >= len(str(thr2)) and E.decide(ge(d - len(str(thr2)))): return ge(N2 - 1)
    if lo < -13000: return FALSE if E.decide(ge(-d - 13000)) else beyond(E, N2, e0, emax, thr2, strict, D)
    if hi - lo > 300 and D == 1 and st.bounds(st.simp(P(N2)))[1] < 10 ** 80:
        if E.decide(ge(d - 81)): return ge(N2 - 1)
        if E.decide(ge(-d - 81)): return FALSE
    k = E.conc(d, 14000)
    if D != 1: thr2 = D * thr2
    if k >= 0: return ge(N2 * 10 ** k - thr2 - x)
    return ge(N2 - thr2 * 10 ** (-k) - x)
def flag_goals(E, r, kind, exact, what='result'):
    if kind in ('round', 'exact'):
        if kind == 'exact': exact = TRUE
        if not E.exc & INEXACT: E.goal('inexact raised when the result is rounded', exact)
        E.goal('no invalid or division-by-zero', not E.exc & (INVALID | DIVZERO))
def flags_of(E, f, r, kind, exact, tiny):
    """FE_ flags of a correctly rounded finite operation (spurious FE_INEXACT is allowed)"""
    if kind in ('round', 'exact'):
        if kind == 'exact': exact = TRUE
        if not E.exc & (INEXACT | UNDERFLOW): E.goal('inexact or underflow raised when the result is rounded', exact)
        E.goal('no invalid, division-by-zero or overflow', not E.exc & (INVALID | DIVZERO | OVERFLOW))
    elif kind in ('inf', 'saturated'):
        E.goal('overflow raised', E.exc & OVERFLOW != 0)
        E.goal('no invalid or division-by-zero', not E.exc & (INVALID | DIVZERO))
def preferred(E, f, r, kind, exact, e0):
    """an exact result has the representable exponent closest to the preferred one"""
    if kind not in ('round', 'exact') or r[0] != 'fin': return
    if kind == 'exact': exact = TRUE
    _, s, e, c = r; st = E.st
    up = or_(ge(c - 10 ** (f.p - 1)), eq0(e))                        # e > e0: no smaller exponent holds the value
    dn = or_(not_(eq0(st.simp(st.mod(c, 10)))), eq0(e - f.emax))     # e < e0
    E.goal('preferred exponent when exact', or_(not_(exact), eq0(e - e0), and_(ge(e - e0 - 1), up), and_(ge(e0 - e - 1), dn)))
def zero_goals(E, f, r, sg, e0, what='zero'):
    E.goal(what, and_(eq0(r[3]), eq0(r[1] - sg)) if r[0] == 'fin' else FALSE)
    if r[0] == 'fin': E.goal(what + ': exponent nearest the preferred one', or_(eq0(r[2] - e0), and_(eq0(r[2]), ge(-e0)), and_(eq0(r[2] - f.emax), ge(e0 - f.emax))))
def nan_goals(E, r, ops):
    """r is a quiet NaN; invalid exactly for signaling operands"""
    E.goal('quiet NaN', r[0] == 'qnan')
    if any(x.kind == 'snan' for x in ops): E.goal('invalid raised for a signaling NaN', E.exc & INVALID != 0)
    else: E.goal('no invalid for quiet NaNs', not E.exc & INVALID)
def value_is(E, f, r, sg, N, e0, what='value'):
    """r is exactly (-1)^sg*N*10^e0, N > 0"""
    if r[0] != 'fin': E.goal(what, FALSE); return
    st = E.st
    d = E.conc(st.simp(r[2] - e0), 40000)
    E.goal(what, eq0(r[3] * 10 ** d - N) if d >= 0 else eq0(r[3] - N * 10 ** (-d)))
    E.goal(what + ': sign', eq0(r[1] - sg))
def digits(E, c, p):
    """number of digits of c > 0, decided"""
    for n in range(1, p):
        if E.decide(ge(-c + 10 ** n - 1)): return n
    return p
def cmp_cond(x, y, st, E):
    """-1, 0, 1 for finite/inf operands (decided)"""
    def key(v):
        if v.kind == 'inf': return 2
        return 1
    xs, ys = E.conc(x.s), E.conc(y.s)
    xz = x.kind == 'fin' and E.decide(eq0(x.c)); yz = y.kind == 'fin' and E.decide(eq0(y.c))
    if xz and yz: return 0
    if xz: return 1 if ys else -1
    if yz: return -1 if xs else 1
    if xs != ys: return -1 if xs else 1
    m = mag_cmp(x, y, E)
    return -m if xs else m
def mag_cmp(x, y, E):
    st = E.st
    if x.kind == 'inf' or y.kind == 'inf': return (x.kind == 'inf') - (y.kind == 'inf')
    p = max(x.f.p, y.f.p)
    d = st.simp(x.e - x.f.bias - y.e + y.f.bias)
    xz = E.decide(eq0(x.c)); yz = E.decide(eq0(y.c))
    if xz or yz: return yz - xz
    if E.decide(ge(d - p)): return 1
    if E.decide(ge(-d - p)): return -1
    k = E.conc(d)
    a = x.c * 10 ** max(k, 0); b = y.c * 10 ** max(-k, 0)
    if E.decide(eq0(a - b)): return 0
    return 1 if E.decide(ge(a - b)) else -1
