"""Encodings of the three BID formats as a partition of the bit patterns.

A format parameter object gives, independently of the code under check
(IEEE 754-2008 3.5.2, binary encoding), the exhaustive and disjoint list of
forms of a bit pattern.  Each form instance is a symbolic value whose bits are
a polynomial in fresh bounded variables."""
from term import *

class Fmt:
    def __init__(self, w):
        self.w = w
        self.k = {32: 32, 64: 64, 128: 128}[w]
        self.p = {32: 7, 64: 16, 128: 34}[w]           # precision
        self.bias = {32: 101, 64: 398, 128: 6176}[w]
        self.ew = {32: 8, 64: 10, 128: 14}[w]           # exponent field width
        self.t = self.k - 1 - self.ew                  # trailing bits in small form
        self.emax = 3 * (1 << (self.ew - 2)) - 1        # biased max exponent
        self.cmax = 10 ** self.p - 1
        self.payload = 10 ** (self.p - 1)
F = {w: Fmt(w) for w in (32, 64, 128)}

class Dec:
    """a decimal operand: kind in fin|inf|qnan|snan; bits poly (total width);
    for fin: s (0/1 poly), e (biased exponent poly), c (coefficient poly)"""
    def __repr__(self): return '<%s %s>' % (self.form, self.kind)

def forms(f, name, want=None):
    """list of (formname, constructor(st)->Dec); exhaustive over all patterns"""
    k, t, ew = f.k, f.t, f.ew
    out = []
    def nv(n, lo, hi): return var('%s.%s[%d,%d]' % (name, n, lo, hi), lo, hi)
    def base(kind, form):
        d = Dec(); d.kind = kind; d.form = form; d.f = f
        d.s = var(name + '.s',  0, 1); d.name = name
        return d
    def small(st):
        d = base('fin', 'small')
        d.e = nv('e', 0, f.emax)
        d.c = nv('c', 0, (1 << t) - 1)
        d.bits = d.s * (1 << (k - 1)) + d.e * (1 << t) + d.c
        d.canon = True
        return d
    def small_nc(st):
        # (only decimal128: coefficient field can exceed 10^34-1)
        d = base('fin', 'small_nc')
        d.e = nv('e', 0, f.emax)
        d.cf = nv('cf', 10 ** f.p, (1 << t) - 1)
        d.c = const(0)
        d.bits = d.s * (1 << (k - 1)) + d.e * (1 << t) + d.cf
        d.canon = False
        return d
    def large(st):
        d = base('fin', 'large')
        d.e = nv('e', 0, f.emax)
        lowmax = f.cmax - (1 << t)          # coefficient = 2^t + low  (t bits: 100 prefix)
        d.c = nv('lc', 1 << t, f.cmax)
        d.bits = d.s * (1 << (k - 1)) + (3 << (k - 3)) + d.e * (1 << (t - 2)) + (d.c - (1 << t))
        d.canon = True
        return d
    def large_nc(st):
        d = base('fin', 'large_nc')
        d.e = nv('e', 0, f.emax)
        lo = max(f.cmax + 1, 1 << t)
        d.cf = nv('ncf', lo, (1 << t) + (1 << (t - 2)) - 1)
        d.c = const(0)
        d.bits = d.s * (1 << (k - 1)) + (3 << (k - 3)) + d.e * (1 << (t - 2)) + (d.cf - (1 << t))
        d.canon = False
        return d
    def inf(st):
        d = base('inf', 'inf')
        d.r = nv('r', 0, (1 << (k - 6)) - 1)
        d.bits = d.s * (1 << (k - 1)) + (0x1e << (k - 6)) + d.r
        d.canon = None
        return d
    def mknan(kind):
        def nan(st):
            d = base(kind, kind)
            d.r = nv('r', 0, (1 << (k - 7)) - 1)
            d.bits = d.s * (1 << (k - 1)) + ((0x3e if kind == 'qnan' else 0x3f) << (k - 7)) + d.r
            return d
        return nan
    if 10 ** f.p > (1 << t):
        out.append(('small', small)); out.append(('large', large))
    else:
        def small128(st):
            d = small(st)
            d.c = nv('c', 0, f.cmax)
            d.bits = d.s * (1 << (k - 1)) + d.e * (1 << t) + d.c
            return d
        out.append(('small', small128)); out.append(('small_nc', small_nc))
    out.append(('large_nc', large_nc))
    out.append(('inf', inf)); out.append(('qnan', mknan('qnan'))); out.append(('snan', mknan('snan')))
    if want: out = [x for x in out if x[0] in want]
    return out

def partition_ok(f):
    """counting check that the forms cover every bit pattern exactly once"""
    t, k, ew = f.t, f.k, f.ew
    n = 0
    E = f.emax + 1
    if 10 ** f.p > (1 << t):
        n += E * (1 << t) + E * (f.cmax - (1 << t) + 1) + E * ((1 << t) + (1 << (t - 2)) - 1 - f.cmax)
    else:
        n += E * (1 << t) + E * (1 << (t - 2))
    n += (1 << (k - 6)) + 2 * (1 << (k - 7))
    return 2 * n == 1 << k

def split128(bits, st):
    """(lo, hi) words of a 128-bit pattern"""
    hi = st.div(bits, 1 << 64)
    return bits - hi * (1 << 64), hi
