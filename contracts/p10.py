"""Integer to decimal."""
from common import *
import arith
from p09 import ITY
def fromint(E):
    n = E.a[0]; st = E.st
    f = F[DECW[E.c.ret]]
    r = E.retdec()
    if E.decide(eq0(n)):
        E.goal('zero', and_(r[0] == 'fin', *( [eq0(r[3]), eq0(r[1]), eq0(r[2] - f.bias)] if r[0] == 'fin' else []))); return
    sg = 0 if E.decide(ge(n)) else 1
    kind, exact = arith.round_goals(E, f, r, E.rm(), sg, (-n if sg else n) * 2, const(f.bias))
    if kind == 'round': E.goal('exponent zero when exact', or_(not_(exact), eq0(r[2] - f.bias), ge(r[3] - 10 ** (f.p - 1))))
def sp(forms, tier): return [(n, lambda v, r, m=m: [eq0(r - m)]) for m, n in enumerate(('rne', 'rd', 'ru', 'rz', 'rna'))]
def prop(tier):
    cs = []
    for w in W:
        d = 'd%d' % w; m = MODE[w]
        for n, t in ITY.items(): cs.append(Contract('__bid_float%s%sd' % (n, m), d, [t], fromint, uses_rm=True, split=sp if w < 128 else None))
    pr, bd = select(cs, tier, quick=['__bid_float(uns)?si.d', '__bid_float(uns)?ditd', '__bid_float(uns)?didd'], thorough=['__bid_float(uns)?disd'])
    return {'contracts': pr, 'bounded': bd}
