"""Assumed contracts of functions outside libdfp (glibc), the trusted base."""
from term import *
import math
from execu import Ptr, NULL, Unsupported, SafetyViolation, FP
FE_INVALID, FE_DENORM, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT = 1, 2, 4, 8, 16, 32

def c_fesetexcept(ex, st, a):
    m = ex.conc(st, st.U(a[0], 32))
    st.ghost['exc'] = st.ghost.get('exc', 0) | m
    return const(0)
def c_errno(ex, st, a):
    k = ('g', '', 'errno')
    if k not in st.mem:
        from execu import Obj
        o = Obj('errno', 4); o.owner = st.id
        o.cells[0] = (4, st.ghost.get('errno_in', const(0)))
        st.mem[k] = o
    return Ptr(k, const(0))
def byte(ex, st, p, i, why):
    o = st.mem[p.obj]; off = ex.conc_off(st, p) + i
    if off < 0 or off >= o.size: raise SafetyViolation('%s out of bounds of %s at %d' % (why, o.name, off))
    return st.simp(ex._load_int(st, o, 1, off))
def cstring(ex, st, p, why, limit=64):
    """bytes of a NUL-terminated string (polynomials), its length decided"""
    r = []
    for i in range(limit):
        b = byte(ex, st, p, i, why)
        if ex.decide(st, eq0(b)): return r
        r.append(b)
    raise Unsupported('long string')
def c_strlen(ex, st, a): return const(len(cstring(ex, st, a[0], 'strlen')))
def put_bytes(ex, st, p, bs, why):
    off = ex.conc_off(st, p); o = st.mem[p.obj]
    if off < 0 or off + len(bs) > o.size: raise SafetyViolation('%s out of bounds of %s (%d bytes at %d)' % (why, o.name, len(bs), off))
    if o.const: raise SafetyViolation('write to constant ' + o.name)
    o = st.wobj(p.obj)
    for i, b in enumerate(bs):
        ex.clear_range(st, o, off + i, 1); o.cells[off + i] = (1, b)
def sprintf_at(ex, st, dst, fmt, args):
    bs = [b.c if b.is_const() else None for b in cstring(ex, st, fmt, 'format')]
    if None in bs: raise Unsupported('symbolic format')
    f = bytes(bs).decode('latin1')
    w = {'%u': 32, '%d': 32, '%lu': 64, '%llu': 64}.get(f)
    if w is None or len(args) != 1: raise Unsupported('sprintf ' + f)
    v = st.U(args[0], w) if f != '%d' else st.S(args[0], w)
    neg = False
    if f == '%d' and not ex.decide(st, ge(v)): neg = True; v = -v
    n = 1
    while not ex.decide(st, ge(-v + 10 ** n - 1)): n += 1
    d = [st.mod(st.div(v, 10 ** (n - 1 - i)), 10) + 48 for i in range(n)]
    d = [const(45)] * neg + d
    put_bytes(ex, st, dst, d + [const(0)], 'sprintf')
    return const(len(d))
def c_sprintf(ex, st, a): return sprintf_at(ex, st, a[0], a[1], a[2:])
def c_sprintf_chk(ex, st, a): return sprintf_at(ex, st, a[0], a[3], a[4:])
def zero_of(w):
    bias, t = {32: (101, 23), 64: (398, 53), 128: (6176, 113)}[w]
    def f(ex, st, a):
        v = a[-1]
        if type(v) is FP and v.bits and v.bits[0] == 'const' and v.bits[1] == 0:
            neg = math.copysign(1, v.bits[1]) < 0
            x = (bias << t) + (neg << (w - 1))
            return const(x) if w < 128 else [const(x & (2 ** 64 - 1)), const(x >> 64)]
        return NotImplemented
    return f
BASE = {'strlen': c_strlen, 'sprintf': c_sprintf, '__sprintf_chk': c_sprintf_chk,
        # libgcc, and gcc's folding of a literal 0.D: only the zeros
        '__binary64_to_bid32': zero_of(32), '__binary64_to_bid64': zero_of(64), '__binary64_to_bid128': zero_of(128),
        'fesetexcept': c_fesetexcept, 'feraiseexcept': c_fesetexcept, '__errno_location': c_errno}
