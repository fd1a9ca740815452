"""Shared vocabulary of the contracts."""
from term import *
import forms
from forms import F
from verify import Contract, DECW, INTW
from spec import RNE, RD, RU, RZ, RNA
W = (32, 64, 128)
MODE = {32: 's', 64: 'd', 128: 't'}
INVALID, DIVZERO, OVERFLOW, UNDERFLOW, INEXACT = 1, 4, 8, 16, 32
QNAN_BITS = {32: 0x7c000000, 64: 0x7c << 56, 128: 0x7c << 120}
def zero(f, r):
    """a decoded result is a zero (a coefficient above the maximum is one, too)"""
    return or_(eq0(r[3]), ge(r[3] - f.cmax - 1)) if r[0] == 'fin' else FALSE
def isnan(x): return x.kind in ('qnan', 'snan')
def truth(E, name, cond):
    """int result non-zero iff cond"""
    r = E.retint()
    if isinstance(cond, bool): cond = TRUE if cond else FALSE
    E.goal(name, iff(not_(eq0(r)), cond))
def pow10_le(x, k, emul=0):
    """condition c*10^e >= 10^k for a finite operand (e biased, >= 0, small k)"""
    f = x.f
    cs = [and_(ge(x.e - k), ge(x.c - 1))]
    for e in range(0, k): cs.append(and_(eq0(x.e - e), ge(x.c - 10 ** (k - e))))
    return or_(*cs)
def canonical_payload(x): return ge(-x.r + x.f.payload - 1)
def split_e(lo_only=None): return None
def keeps(E, x, bits, sign):
    """result represents x with the given sign: same bits for canonical operands"""
    f = x.f; k = f.k
    body = bits - sign * (1 << (k - 1))
    if x.kind == 'fin' and x.canon:
        E.goal('bits preserved', eq0(body - (x.bits - x.s * (1 << (k - 1)))))
    else:
        r = E.dec(f.w, bits)
        E.goal('sign', eq0(r[1] - sign))
        if x.kind == 'fin':
            E.goal('zero', and_(eq0(r[3]), eq0(r[2] - x.e)) if r[0] == 'fin' else FALSE)
        elif x.kind == 'inf': E.goal('infinity', r[0] == 'inf')
        else:
            E.goal('same NaN class', r[0] == x.kind)
            E.goal('payload', or_(not_(canonical_payload(x)), eq0(r[2] - x.r)) if r[0] == x.kind else FALSE)

# ------------------------------------------------------------------ known findings
import json as _json, os as _os
_kf = _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), 'known-findings.json')
KNOWN = _json.load(open(_kf))['findings'] if _os.path.exists(_kf) else []
def known(pid, fn): return [k for k in KNOWN if k['property'] == pid and k['function'] == fn]
import re as _re
def select(contracts, tier, quick=(), thorough=(), partial=None):
    """(proved, bounded): functions matching a regex of `quick` are proved in both
    tiers, those matching `thorough` in the thorough tier only; the rest has a
    bounded stand-in.  partial: {fn regex: keep(case forms[, split label])->bool}: the
    other case combinations are left to the bounded stand-in of the function."""
    m = lambda c, pats: any(_re.fullmatch(p, c.fn) for p in pats)
    pr = []; bd = []
    for c in contracts:
        if c.internal: pr.append(c); continue
        if m(c, quick) or (tier != 'quick' and m(c, thorough)): pr.append(c); continue
        bd.append(c)
        for p, keep in (partial or {}).items():
            if _re.fullmatch(p, c.fn):
                d = _copy.copy(c)
                d.keep = keep if keep.__code__.co_argcount > 1 else lambda case, label, keep=keep: keep(case)
                pr.append(d); break
    return pr, bd
import copy as _copy
def nonfinite(case):
    """cases in which some operand is a NaN or an infinity"""
    return any(x in ('qnan', 'snan', 'inf') for x in case)
def specials(case):
    """cases in which some operand is a NaN, an infinity or a non-canonical number"""
    return any(x not in ('small', 'large') for x in case)
