"""Specification vocabulary: decoding of results, correct rounding."""
from term import *
from state import Fork, Unsupported
import forms, solver
RNE, RD, RU, RZ, RNA = 0, 1, 2, 3, 4     # encoding of __bid_IDEC_glbround

def decode(ex, st, f, bits):
    """('fin', s, e, c) | ('inf', s, r) | ('qnan'|'snan', s, r) of a result pattern"""
    bits = st.simp(bits)
    k, t = f.k, f.t
    s = st.div(bits, 1 << (k - 1))
    s = st.U(s, 1)
    body = st.mod(bits, 1 << (k - 1))
    top2 = st.div(body, 1 << (k - 3))
    if ex.decide(st, ge(top2 - 3)):
        # combination field 11xxx
        if ex.decide(st, ge(body - (0xf << (k - 5)))):
            r = body - (0xf << (k - 5))          # < 2^(k-5)
            if ex.decide(st, ge(r - (1 << (k - 6)))):
                r = r - (1 << (k - 6))
                if ex.decide(st, ge(r - (1 << (k - 7)))): return ('snan', s, r - (1 << (k - 7)))
                return ('qnan', s, r)
            return ('inf', s, r)
        low = body - (3 << (k - 3))
        e = st.div(low, 1 << (t - 2)); c = st.mod(low, 1 << (t - 2)) + (1 << t)
    else:
        e = st.div(body, 1 << t); c = st.mod(body, 1 << t)
    return ('fin', s, e, c)

class Goal:
    """collects named goals of one path"""
    def __init__(self): self.gs = []
    def add(self, name, cond): self.gs.append((name, B(cond)))

def rounded(ex, st, f, G, rm, s, N2, e0, er, cr, D=1, name='rounded'):
    """cr*10^er is the correct rounding of (N2/2)/D*10^e0 (N2 >= 0, D > 0),
    finite range, sign bit s concrete (0/1)."""
    d = ex.conc(st, st.simp(P(er) - e0), 20000)
    if d < 0:
        if D == 1:
            G.add('exact', (N2 * 10 ** (-d)).eq(cr * 2))
            return 'exact', d
        N2 = N2 * 10 ** (-d); d = 0
    M = 10 ** d
    if D != 1: M = D * M
    diff = N2 - cr * M * 2                 # 2*(N - c*10^d)
    exact = diff.eq(0)
    full = or_(ge(cr - 10 ** (f.p - 1)), er.eq(0))
    low = cr.eq(10 ** (f.p - 1))           # smaller spacing below, unless er == 0
    mode = rm
    if rm == RD: mode = 'away' if s == 1 else 'zero'
    elif rm == RU: mode = 'zero' if s == 1 else 'away'
    elif rm == RZ: mode = 'zero'
    spl = and_(low, ge(er - 1))
    # spacing below is M/10 when low: use 10*diff vs M
    if mode in (RNE, RNA):
        up_ok = ge(-diff + M)                      # N <= c + 1/2
        dn_ok = or_(and_(not_(spl), ge(diff + M)), and_(spl, ge(diff * 10 + M)))
        if mode == RNE:
            even = st.simp(st.mod(cr, 2)).eq(0)
            tie = and_(implies(eq0(diff - M), even), implies(eq0(diff + M), or_(even, spl)))
            # below a power of ten the tie goes to the (even) upper neighbour 10^p
        else:
            tie = not_(eq0(diff - M))
        ok = and_(up_ok, dn_ok, tie)
    elif mode == 'zero':
        ok = and_(ge(diff), ge(-diff + M * 2 - 1))
    else:
        ok = and_(ge(-diff), or_(and_(not_(spl), ge(diff + M * 2 - 1)), and_(spl, ge(diff * 10 + M * 2 - 1))))
    G.add(name, or_(exact, and_(full, ok)))
    return 'round', exact
