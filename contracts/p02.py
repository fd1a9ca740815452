"""Comparison operators and quiet comparison functions."""
from common import *
import codec, forms
OPS = ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'unord')
def order(E, x, y):
    """sign of x - y as three conditions (lt, eq, gt) for non-NaN operands; forks on the exponent difference"""
    def sgn(v): return v  # 0/1 poly
    if x.kind == 'inf' or y.kind == 'inf':
        xs, ys = E.conc(x.s), E.conc(y.s)
        a = (1 - 2 * xs) if x.kind == 'inf' else 0
        b = (1 - 2 * ys) if y.kind == 'inf' else 0
        return tuple(TRUE if t else FALSE for t in (a < b, a == b, a > b))
    p = x.f.p; d = E.st.simp(x.e - y.e)
    zx, zy = eq0(x.c), eq0(y.c)
    px, py = eq0(x.s), eq0(y.s)
    if E.decide(ge(d - p)):                       # |x| > |y| when x != 0
        lt, eq, gt = and_(zx, not_(zy)), and_(zx, zy), not_(zx)
    elif E.decide(ge(-d - p)): lt, eq, gt = not_(zy), and_(zx, zy), and_(zy, not_(zx))
    else:
        k = E.conc(d)
        a = x.c * 10 ** max(k, 0); b = y.c * 10 ** max(-k, 0)
        lt, eq, gt = ge(b - a - 1), eq0(a - b), ge(a - b - 1)
    # magnitudes to values
    bothz = and_(zx, zy)
    pos, neg = and_(px, py), and_(not_(px), not_(py))
    return (and_(not_(bothz), or_(and_(pos, lt), and_(neg, gt), and_(not_(px), py))),
            or_(bothz, and_(or_(pos, neg), eq)),
            and_(not_(bothz), or_(and_(pos, gt), and_(neg, lt), and_(px, not_(py)))))
def relation(op):
    def ens(E):
        x, y = E.a; r = E.retint()
        nan = isnan(x) or isnan(y)
        if op == 'unord': t = TRUE if nan else FALSE; holds = not_(eq0(r))
        else:
            if nan: t = TRUE if op == 'ne' else FALSE
            else:
                lt, eq, gt = order(E, x, y)
                t = {'eq': eq, 'ne': not_(eq), 'lt': lt, 'le': or_(lt, eq), 'gt': gt, 'ge': or_(gt, eq)}[op]
            holds = {'eq': eq0(r), 'ne': not_(eq0(r)), 'lt': ge(-r - 1), 'le': ge(-r), 'gt': ge(r - 1), 'ge': ge(r)}[op]
        E.goal('the operator that reads the result is true exactly when the relation holds', iff(holds, t))
    return ens
def callee(op, w):
    """the relation as a callee contract: the sign of the result is decided, its magnitude is 1"""
    import codec, spec
    from verify import classify
    f = F[w]
    def dec_(ex, st, bits, nm):
        r = spec.decode(ex, st, f, bits)
        d = forms.Dec(); d.f = f; d.kind = r[0]; d.s = r[1]; d.form = nm; d.name = nm; d.bits = bits
        if r[0] == 'fin':
            d.e = r[2]; d.c = r[3]
            if st.bounds(d.c)[1] > f.cmax and ex.decide(st, ge(d.c - f.cmax - 1)): d.c = ZERO
        return d
    class V: pass
    def apply(ex, st, a):
        if w == 128: b = [st.U(a[0], 64) + st.U(a[1], 64) * (1 << 64), st.U(a[2], 64) + st.U(a[3], 64) * (1 << 64)]
        else: b = [st.U(a[0], w), st.U(a[1], w)]
        x, y = dec_(ex, st, b[0], 'x'), dec_(ex, st, b[1], 'y')
        nan = isnan(x) or isnan(y)
        if op == 'unord': return const(1 if nan else 0)
        if nan: t = op == 'ne'
        else:
            E = V(); E.st = st; E.ex = ex; E.decide = lambda c: ex.decide(st, c); E.conc = lambda p: ex.conc(st, p)
            lt, eq, gt = order(E, x, y)
            t = ex.decide(st, {'eq': eq, 'ne': not_(eq), 'lt': lt, 'le': or_(lt, eq), 'gt': gt, 'ge': or_(gt, eq)}[op])
        T, N = {'eq': (0, 1), 'ne': (1, 0), 'lt': (-1, 1), 'le': (0, 1), 'gt': (1, -1), 'ge': (0, -1)}[op]
        return const(T if t else N)
    return apply
def macro(op):
    def ens(E):
        x, y = E.a
        if isnan(x) or isnan(y): t = FALSE
        else:
            lt, eq, gt = order(E, x, y)
            t = {'isless': lt, 'islessequal': or_(lt, eq), 'isgreater': gt, 'isgreaterequal': or_(gt, eq), 'islessgreater': or_(lt, gt)}[op]
        truth(E, 'true exactly when the ordered relation holds', t)
    return ens
def unordered(E): truth(E, 'true exactly for a NaN operand', isnan(E.a[0]) or isnan(E.a[1]))
def dsplit(forms, tier):
    if forms != ('small', 'small'): return None
    cuts = [-10 ** 5, -34, -27, -20, -13, -6, 0, 6, 13, 20, 27, 34, 10 ** 5]
    return [('%d<=e0-e1<%d' % (a, b), (lambda v, rm, a=a, b=b: [ge(v[0].e - v[1].e - a), ge(-v[0].e + v[1].e + b - 1)])) for a, b in zip(cuts, cuts[1:])]
def prop(tier):
    cs = [codec.Compare(32)]; bd = []; cc = dict(codec.callees(), decNumberCompare=codec.compare)
    for w in W:
        d = 'd%d' % w
        cs += [Contract('__bid_%s%sd2' % (op, MODE[w]), 'i64', [d, d], relation(op), split=dsplit if w == 128 else None) for op in OPS]
        cs.append(Contract('isunordered' + d, 'i32', [d, d], unordered))
        ms = [Contract(op + d, 'i32', [d, d], macro(op), callees=cc) for op in ('isless', 'islessequal', 'isgreater', 'isgreaterequal', 'islessgreater')]
        cs += ms
        if w != 32: bd += ms
    return {'contracts': cs + codec.bodies(), 'bounded': bd,
            'trusted': ['decNumberCompare satisfies its contract on operands of more than 7 digits: proved for decimal32 operands, bounded stand-in through the decimal64/128 functions']}
