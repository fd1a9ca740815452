"""Remainders."""
from common import *
import arith
def rem(near):
    def ens(E):
        x, y = E.a; f = x.f; st = E.st; r = E.retdec()
        if isnan(x) or isnan(y): E.goal('NaN', r[0] == 'qnan'); return
        if x.kind == 'inf' or y.kind == 'inf' and not near or y.kind == 'fin' and E.decide(eq0(y.c)):
            E.goal('NaN', r[0] == 'qnan'); E.goal('invalid raised', E.exc & INVALID != 0) if near else 0; E.goal('EDOM', eq0(E.errno() - 33)); return
        if near: E.goal('errno untouched', eq0(E.errno()))
        sg = E.conc(x.s)
        if r[0] != 'fin': E.goal('finite', FALSE); return
        if E.decide(eq0(x.c)): E.goal('zero with the sign of x', and_(eq0(r[3]), eq0(r[1] - sg))); return
        if y.kind == 'inf': arith.value_is(E, f, r, sg, x.c, x.e, 'x'); return
        # concrete evaluation only (native stand-in)
        d = x.e.c - y.e.c
        e0 = min(x.e.c, y.e.c)
        a = x.c.c * 10 ** max(d, 0); b = y.c.c * 10 ** max(-d, 0)
        q, m = divmod(a, b); s = sg
        if near and (2 * m > b or 2 * m == b and q % 2): m = b - m; s ^= 1
        if m == 0: E.goal('zero with the sign of x', and_(eq0(r[3]), eq0(r[1] - sg))); return
        arith.value_is(E, f, r, s, const(m), const(e0), 'exact remainder')
    return ens
def prop(tier):
    cs = []
    for w in W:
        d = 'd%d' % w
        cs.append(Contract('fmod' + d, d, [d, d], rem(0)))
        cs.append(Contract('remainder' + d, d, [d, d], rem(1)))
    return {'contracts': [], 'bounded': cs, 'level': 'other', 'explanation': 'the exact remainder is computed from the operands with unbounded integers and compared with the result of the built library on directed operand pairs; the number of subtractions behind a quotient has no bound below 10^12000, which no loop invariant within reach of the verifier removes'}
