"""Square root."""
from common import *
import arith
EXPL = 'every operand that is a NaN, an infinity or not canonical is proved; for finite operands the postcondition (which pins the correctly rounded root without computing one) is evaluated on directed inputs run through the built library'
def sqrt(E):
    x = E.a[0]; f = x.f; st = E.st; r = E.retdec()
    if isnan(x): E.goal('NaN', r[0] == 'qnan'); return
    if x.kind == 'fin' and E.decide(eq0(x.c)): E.goal('zero of the same sign', and_(zero(f, r), eq0(r[1] - x.s))); return
    if E.conc(x.s) == 1: E.goal('NaN for a negative operand', r[0] == 'qnan'); E.goal('invalid raised', E.exc & INVALID != 0); E.goal('EDOM', eq0(E.errno() - 33)); return
    if x.kind == 'inf': E.goal('infinity', and_(r[0] == 'inf', eq0(r[1]))); return
    E.goal('finite and positive', and_(r[0] == 'fin', eq0(r[1])))
    if r[0] != 'fin': return
    # c*10^e (unbiased er) nearest-even to sqrt(xc*10^xe): compare squares
    c = r[3]; e = r[2]
    k = f.p - arith.digits(E, c, f.p)
    c = c * 10 ** k; e = e - k       # the value with p digits
    d = E.conc(st.simp(x.e - f.bias - 2 * (e - f.bias)), 40000)
    A = x.c * 10 ** max(d, 0); B = 10 ** max(-d, 0)
    exact = eq0(A - c * c * B)
    low = c * 2 - 1; high = c * 2 + 1
    full = ge(c - 10 ** (f.p - 1))
    near = and_(ge(A * 4 - low * low * B), ge(high * high * B - A * 4))
    pw = and_(eq0(c - 10 ** (f.p - 1)), not_(ge(A - c * c * B)))
    l10 = c * 20 - 1
    near = or_(and_(not_(pw), near), and_(pw, ge(A * 400 - l10 * l10 * B)))
    E.goal('correctly rounded', or_(exact, and_(full, near)))
    pe = st.div(x.e - f.bias + 10 ** 6, 2) - 10 ** 6 // 2 + f.bias
    arith.preferred(E, f, r, 'round', exact, pe)
def prop(tier):
    pr, bd = select([Contract('sqrtd%d' % w, 'd%d' % w, ['d%d' % w], sqrt) for w in W], tier, partial={'.*': specials})
    return {'contracts': pr, 'bounded': bd, 'level': 'other', 'explanation': EXPL}
