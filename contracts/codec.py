"""Contracts of the decNumber codec: decimal{32,64,128}ToNumber and FromNumber.

ToNumber(d, dn): dn represents d exactly: bits = sign | class, exponent =
unbiased exponent, digits = number of decimal digits of the coefficient (1 for
zero), lsu[i] = i-th base-1000 digit; a non-canonical coefficient is zero.
FromNumber(d, dn, ctx): for a finite dn of at most p digits with an exponent
in the format's range, d encodes the same sign, coefficient and exponent and
ctx is unchanged; for specials, d encodes the class and sign."""
from common import *
from execu import Ptr, Unsupported
import spec, ir
DECNEG, DECINF, DECNAN, DECSNAN = 0x80, 0x40, 0x20, 0x10
BASE = 1000
SUBNORMAL = 0x1000
def units(f): return (f.p + 2) // 3
def digit_thr(f): return tuple(10 ** k for k in range(1, 40))
def ndigits(st, c): return st.step(c, digit_thr(None), 1)
def unit(st, c, i): return st.mod(st.div(c, BASE ** i), BASE)
def put(ex, st, p, off, n, v):
    o = st.wobj(p.obj)
    b = st.simp(p.off)
    if not b.is_const(): raise Unsupported('symbolic destination')
    st_clear(ex, st, o, b.c + off, n)
    o.cells[b.c + off] = (n, v)
def st_clear(ex, st, o, off, n): ex.clear_range(st, o, off, n)
def get(ex, st, p, off, n):
    b = st.simp(p.off)
    if not b.is_const(): raise Unsupported('symbolic source')
    return ex._load_int(st, st.mem[p.obj], n, b.c + off)
def fresh(st, name, lo, hi):
    k = st.ghost.get('fresh', 0); st.ghost['fresh'] = k + 1
    return var('%s#%d[%d,%d]' % (name, k, lo, hi), lo, hi)
def special_bits(kind): return {'inf': DECINF, 'qnan': DECNAN, 'snan': DECSNAN}[kind]

def value_of(st, r, f, decide):
    """coefficient with the non-canonical ones mapped to zero"""
    s, e, c = r[1], r[2], r[3]
    lo, hi = st.bounds(c)
    if hi > f.cmax and decide(ge(c - f.cmax - 1)): c = ZERO
    return s, e, c
def to_number(w):
    f = F[w]
    def apply(ex, st, a):
        src, dn = a
        bits = get(ex, st, src, 0, w // 8)
        r = spec.decode(ex, st, f, bits)
        dec = lambda c: ex.decide(st, c)
        if r[0] != 'fin':
            sgn = r[1]
            put(ex, st, dn, 4, 4, const(0))
            put(ex, st, dn, 8, 1, sgn * DECNEG + special_bits(r[0]))
            if r[0] == 'inf':
                put(ex, st, dn, 0, 4, const(1)); put(ex, st, dn, 10, 2, const(0))
            else:
                d = fresh(st, 'dig', 1, f.p - 1)
                put(ex, st, dn, 0, 4, d)
                for i in range(units(f)): put(ex, st, dn, 10 + 2 * i, 2, fresh(st, 'u', 0, 999))
            return dn
        s, e, c = value_of(st, r, f, dec)
        us = [unit(st, c, i) for i in range(units(f))]
        dg = ndigits(st, c)
        put(ex, st, dn, 0, 4, dg)
        put(ex, st, dn, 4, 4, e - f.bias)
        put(ex, st, dn, 8, 1, s * DECNEG)
        for i, u in enumerate(us): put(ex, st, dn, 10 + 2 * i, 2, u)
        return dn
    return apply

def coefficient(ex, st, f, dn, n):
    r = ZERO
    for i in range(n): r = r + get(ex, st, dn, 10 + 2 * i, 2) * BASE ** i
    return st.simp(r)
def read_number(ex, st, f, dn, nmax):
    """(digits, exponent, flag bits, coefficient or None)"""
    dg = st.simp(get(ex, st, dn, 0, 4))
    e = st.S(get(ex, st, dn, 4, 4), 32)
    b = get(ex, st, dn, 8, 1)
    return dg, e, b
def from_number(w):
    f = F[w]
    def apply(ex, st, a):
        dst, dn, ctx = a
        dg, e, b = read_number(ex, st, f, dn, units(f))
        dec = lambda c: ex.decide(st, c)
        s = st.div(b, DECNEG); low = st.mod(b, DECNEG)
        k = f.k
        if not dec(eq0(low)):
            v = ex.conc(st, low)
            top = s * (1 << (k - 1))
            if v & DECINF: put_dec(ex, st, dst, f, top + (0x1e << (k - 6))); return dst
            kind = 0x3e if v & DECNAN else 0x3f
            put_dec(ex, st, dst, f, top + (kind << (k - 7)) + fresh(st, 'payload', 0, (1 << (k - 12)) - 1)); return dst
        lo, hi = st.bounds(dg)
        if hi > f.p:
            if not dec(ge(-dg + f.p)): return NotImplemented
        if not dec(and_(ge(e + f.bias), ge(-e - f.bias + f.emax))): return NotImplemented
        # number of units in use
        c = None
        n = None
        if dg.is_const(): n = (dg.c + 2) // 3
        else:
            for m in range(units(f), 0, -1):
                try: cc = coefficient(ex, st, f, dn, m)
                except (Unsupported, KeyError): continue
                lo, hi = st.bounds(cc)
                if lo >= 0 and eq0(st.simp(ndigits(st, cc) - dg)).k == 'T': c = cc
                break
            if c is None: n = ex.conc(st, st.div(dg + 2, 3))
        if c is None: c = coefficient(ex, st, f, dn, n)
        lo, hi = st.bounds(c)
        if lo < 0 or hi > f.cmax: return NotImplemented
        put_dec(ex, st, dst, f, encode(st, f, s, e + f.bias, c, dec))
        # DEC_Subnormal may be added to the context's status; nothing else
        try: s0 = st.simp(get(ex, st, ctx, 20, 4))
        except (Unsupported, KeyError): s0 = None
        if s0 is not None and s0.is_const(): s1 = s0 if s0.c & SUBNORMAL else s0 + SUBNORMAL * fresh(st, 'subnormal', 0, 1)
        else: s1 = fresh(st, 'status', 0, (1 << 32) - 1)
        put(ex, st, ctx, 20, 4, s1)
        return dst
    return apply
def encode(st, f, s, e, c, dec):
    k, t = f.k, f.t
    top = s * (1 << (k - 1))
    if f.cmax >= 1 << t and dec(ge(c - (1 << t))):
        return top + (3 << (k - 3)) + e * (1 << (t - 2)) + (c - (1 << t))
    return top + e * (1 << t) + c
def put_dec(ex, st, dst, f, bits):
    bits = st.simp(bits)
    if f.k == 128:
        hi = st.div(bits, 1 << 64)
        put(ex, st, dst, 0, 8, st.simp(bits - hi * (1 << 64))); put(ex, st, dst, 8, 8, hi)
    else: put(ex, st, dst, 0, f.k // 8, bits)

def dn_read(ex, st, dn):
    """(sign poly, flag bits without sign (int), exponent, coefficient) of a decNumber;
    NotImplemented when its units are not known to represent `digits` digits"""
    b = get(ex, st, dn, 8, 1)
    s = st.div(b, DECNEG); fl = ex.conc(st, st.mod(b, DECNEG))
    if fl & (DECNAN | DECSNAN | DECINF): return s, fl, None, None
    e = st.S(get(ex, st, dn, 4, 4), 32); dg = st.simp(get(ex, st, dn, 0, 4))
    off = st.simp(dn.off).c
    n = 0
    while n < 12 and st.mem[dn.obj].cells.get(off + 10 + 2 * n, (0,))[0] == 2: n += 1
    c = coefficient(ex, st, None, dn, n)
    lo, hi = st.bounds(c)
    if lo < 0 or not eq0(st.simp(ndigits(st, c) - dg)).k == 'T': return NotImplemented
    return s, fl, e, c
def dn_put(ex, st, dn, s, fl, e, c, nunits):
    put(ex, st, dn, 0, 4, ndigits(st, c)); put(ex, st, dn, 4, 4, e); put(ex, st, dn, 8, 1, s * DECNEG + fl)
    for i in range(nunits): put(ex, st, dn, 10 + 2 * i, 2, unit(st, c, i))
def compare(ex, st, a):
    """decNumberCompare for numbers: the sign of lhs - rhs as -1, 0 or 1"""
    res, l, r, ctx = a
    L, R = dn_read(ex, st, l), dn_read(ex, st, r)
    if L is NotImplemented or R is NotImplemented: return NotImplemented
    if (L[1] | R[1]) & (DECNAN | DECSNAN): return NotImplemented
    dec = lambda c: ex.decide(st, c)
    def out(v):
        dn_put(ex, st, res, const(1 if v < 0 else 0), 0, const(0), const(abs(v)), 1)
        return res
    sl, sr = ex.conc(st, L[0]), ex.conc(st, R[0])
    if L[1] & DECINF or R[1] & DECINF:
        x = (1 - 2 * sl) if L[1] & DECINF else 0; y = (1 - 2 * sr) if R[1] & DECINF else 0
        return out((x > y) - (x < y))
    zl, zr = dec(eq0(L[3])), dec(eq0(R[3]))
    x = 0 if zl else 1 - 2 * sl; y = 0 if zr else 1 - 2 * sr
    if x != y or x == 0: return out((x > y) - (x < y))
    d = st.simp(L[2] - R[2])
    kl = len(str(st.bounds(L[3])[1])); kr = len(str(st.bounds(R[3])[1]))
    if dec(ge(d - kr)): return out(x)
    if dec(ge(-d - kl)): return out(-x)
    k = ex.conc(st, d)
    A = L[3] * 10 ** max(k, 0); Bq = R[3] * 10 ** max(-k, 0)
    if dec(eq0(A - Bq)): return out(0)
    return out(x if dec(ge(A - Bq)) else -x)
class Compare(Contract):
    """decNumberCompare's body on operands of the given width"""
    internal = True
    def __init__(self, w):
        import p02
        def ensures(E):
            x, y = E.a; st = E.st
            g = lambda off, n: get(E.ex, st, st.ghost['res'], off, n)
            b = E.conc(g(8, 1)); v = g(10, 2)
            lt, eq, gt = p02.order(E, x, y)
            E.goal('digits and exponent', and_(eq0(g(0, 4) - 1), eq0(g(4, 4))))
            E.goal('flags', b in (0, DECNEG))
            E.goal('sign of the difference', and_(iff(eq, eq0(v)), or_(eq0(v), eq0(v - 1)), iff(lt, and_(eq0(v - 1), TRUE if b & DECNEG else FALSE)), iff(gt, and_(eq0(v - 1), FALSE if b & DECNEG else TRUE))))
        fs = ['small', 'large', 'inf']
        Contract.__init__(self, 'decNumberCompare', 'ptr', ['d%d' % w, 'd%d' % w], ensures, forms={0: fs, 1: fs})
    def build(self, st, vals):
        out = []
        for i, x in enumerate(vals):
            k = st.new_obj('dn%d' % i, 36); put_dn(st, k, x); out.append(Ptr(k, const(0)))
        r = st.new_obj('res', 36); c = st.new_obj('ctx', 28)
        st.ghost['res'] = Ptr(r, const(0))
        return [Ptr(r, const(0))] + out + [Ptr(c, const(0))]
def put_dn(st, k, x):
    f = x.f; o = st.mem[k]
    if x.kind == 'fin':
        o.cells[0] = (4, ndigits(st, x.c)); o.cells[4] = (4, x.e - f.bias); o.cells[8] = (1, x.s * DECNEG)
        us = [unit(st, x.c, i) for i in range(units(f))]
    elif x.kind == 'inf':
        o.cells[0] = (4, const(1)); o.cells[4] = (4, const(0)); o.cells[8] = (1, x.s * DECNEG + DECINF); us = [ZERO]
    else:
        dg = var('dg%d.%s' % (f.p, x.name), 1, f.p - 1)
        o.cells[0] = (4, dg); o.cells[4] = (4, const(0)); o.cells[8] = (1, x.s * DECNEG + special_bits(x.kind))
        us = [var('u%d.%s' % (i, x.name), 0, 999) for i in range(units(f))]
    for i, u in enumerate(us): o.cells[10 + 2 * i] = (2, u)

def callees(ws=W):
    d = {}
    for w in ws:
        d['decimal%dToNumber' % w] = to_number(w)
        d['decimal%dFromNumber' % w] = from_number(w)
    return d

# ------------------------------------------------------------------ the bodies against these contracts
class ToNumber(Contract):
    internal = True
    def __init__(self, w):
        f = F[w]
        def ensures(E):
            x = E.a[0]; st = E.st; dn = st.ghost['dn']
            g = lambda off, n: get(E.ex, st, dn, off, n)
            b = g(8, 1)
            E.goal('returns dn', eq0(E.st.ret.off) if E.st.ret.obj == dn.obj else FALSE)
            if x.kind != 'fin':
                E.goal('class and sign', eq0(b - x.s * DECNEG - special_bits(x.kind)))
                E.goal('exponent', eq0(st.S(g(4, 4), 32)))
                if x.kind == 'inf': E.goal('digits', eq0(g(0, 4) - 1)); E.goal('lsu', eq0(g(10, 2)))
                else:
                    d = g(0, 4)
                    E.goal('digits', and_(ge(d - 1), ge(-d + f.p - 1)))
                return
            E.goal('sign', eq0(b - x.s * DECNEG))
            E.goal('exponent', eq0(st.S(g(4, 4), 32) - x.e + f.bias))
            d = E.conc(g(0, 4))
            E.goal('digits', and_(ge(x.c - (10 ** (d - 1) if d > 1 else 0)), ge(-x.c + 10 ** d - 1)))
            for i in range((d + 2) // 3):
                E.goal('unit %d' % i, eq0(g(10 + 2 * i, 2) - unit(st, x.c, i)))
        Contract.__init__(self, 'decimal%dToNumber' % w, 'ptr', ['d%d' % w], ensures)
        self.w = w
    def build(self, st, vals):
        k = st.new_obj('src', self.w // 8)
        put_dec0(st, k, F[self.w], vals[0].bits)
        d = st.new_obj('dn', 36)
        st.ghost['dn'] = Ptr(d, const(0))
        return [Ptr(k, const(0)), Ptr(d, const(0))]
def put_dec0(st, k, f, bits):
    o = st.mem[k]
    if f.k == 128:
        hi = st.div(bits, 1 << 64)
        o.cells[0] = (8, st.simp(bits - hi * (1 << 64))); o.cells[8] = (8, hi)
    else: o.cells[0] = (f.k // 8, bits)
class FromNumber(Contract):
    internal = True
    def __init__(self, w):
        f = F[w]
        def ensures(E):
            x = E.a[0]; st = E.st
            E.goal('returns d', eq0(st.ret.off) if st.ret.obj == st.ghost['dst'].obj else FALSE)
            bits = get(E.ex, st, st.ghost['dst'], 0, w // 8)
            r = spec.decode(E.ex, st, f, bits)
            E.goal('class', r[0] == x.kind); 
            if r[0] != x.kind: return
            E.goal('sign', eq0(r[1] - x.s))
            sta = get(E.ex, st, st.ghost['ctx'], 20, 4)
            E.goal('status gains at most Subnormal', or_(eq0(sta), eq0(sta - SUBNORMAL)))
            if x.kind == 'fin':
                E.goal('coefficient', eq0(r[3] - x.c)); E.goal('exponent', eq0(r[2] - x.e))
            elif x.kind == 'inf': E.goal('canonical infinity', eq0(r[2]))
            else: E.goal('payload field', ge(-r[2] + (1 << (f.k - 12)) - 1))
        fs = {0: [n for n in ('small', 'large', 'inf', 'qnan', 'snan')]}
        Contract.__init__(self, 'decimal%dFromNumber' % w, 'ptr', ['d%d' % w], ensures, forms=fs)
        self.w = w
    def build(self, st, vals):
        f = F[self.w]; x = vals[0]
        d = st.new_obj('dn', 36); put_dn(st, d, x)
        k = st.new_obj('dst', self.w // 8)
        c = st.new_obj('ctx', 28); co = st.mem[c]
        # digits emax emin round traps status clamp
        emax = {32: 96, 64: 384, 128: 6144}[self.w]
        for i, v in enumerate([const(f.p), const(emax), const(1 - emax), var('round', 0, 7), const(0), const(0)]): co.cells[4 * i] = (4, v)
        co.cells[24] = (1, const(1))
        st.ghost['dst'] = Ptr(k, const(0)); st.ghost['ctx'] = Ptr(c, const(0))
        return [Ptr(k, const(0)), Ptr(d, const(0)), Ptr(c, const(0))]
def bodies(ws=W): return [ToNumber(w) for w in ws] + [FromNumber(w) for w in ws]
