"""Integer terms of the verification-condition generator.

Every machine integer is represented by a polynomial with integer coefficients
over interned atoms.  The polynomial denotes a mathematical integer congruent
to the machine value modulo 2^N; it is normalised into [0,2^N) or
[-2^(N-1),2^(N-1)) only when an operation depends on it.  floor division by a
positive constant is the only non-polynomial constructor on integers; masks,
shifts, truncation, wrap-around, carries and borrows are all expressed by it.
No machine arithmetic is idealised: where a wrap cannot be excluded by bounds,
the Div atom for it stays in the term.
"""
from math import gcd

ATOMS = []          # id -> Atom
_ATOMKEY = {}

class Atom:
    __slots__ = ('id', 'kind', 'data', 'lo', 'hi', 'name')

def mk_atom(kind, data, lo=None, hi=None, name=None):
    k = (kind, data)
    a = _ATOMKEY.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS); a.kind = kind; a.data = data
        a.lo = lo; a.hi = hi; a.name = name
        ATOMS.append(a); _ATOMKEY[k] = a
    return a

_POLY = {}

class Poly:
    """sum of coef*monomial (self.t, sorted tuple of (mono, coef)) + self.c"""
    __slots__ = ('t', 'c', '_prim', '_neg', '__weakref__')
    def __new__(cls, t, c):
        k = (t, c)
        p = _POLY.get(k)
        if p is None:
            p = object.__new__(cls)
            p.t = t; p.c = c; p._prim = None; p._neg = None
            _POLY[k] = p
        return p
    def is_const(self):
        return not self.t
    def prim(self):
        """(t', g): self = g*t' + c with t' primitive, leading coef > 0"""
        r = self._prim
        if r is None:
            g = 0
            for _, k in self.t:
                g = gcd(g, k)
                if g == 1: break
            if self.t and self.t[0][1] < 0: g = -g
            if g == 1: r = (self.t, 1)
            elif g == 0: r = ((), 0)
            else: r = (tuple((m, k // g) for m, k in self.t), g)
            self._prim = r
        return r
    def __add__(self, o):
        if o.__class__ is int:
            return self if o == 0 else Poly(self.t, self.c + o)
        if not o.t: return self if o.c == 0 else Poly(self.t, self.c + o.c)
        if not self.t: return Poly(o.t, self.c + o.c)
        d = dict(self.t)
        for m, k in o.t:
            v = d.get(m, 0) + k
            if v: d[m] = v
            else: del d[m]
        return Poly(tuple(sorted(d.items())), self.c + o.c)
    __radd__ = __add__
    def __neg__(self):
        r = self._neg
        if r is None:
            r = Poly(tuple((m, -k) for m, k in self.t), -self.c)
            self._neg = r; r._neg = self
        return r
    def __sub__(self, o):
        if o.__class__ is int: return Poly(self.t, self.c - o)
        return self + (-o)
    def __rsub__(self, o):
        return (-self) + o
    def __mul__(self, o):
        if o.__class__ is not int:
            if not o.t: o = o.c
            elif not self.t: return o * self.c
            else:
                d = {}
                for m, k in self.t:
                    if o.c: d[m] = d.get(m, 0) + k * o.c
                    for m2, k2 in o.t:
                        mm = tuple(sorted(m + m2))
                        d[mm] = d.get(mm, 0) + k * k2
                if self.c:
                    for m2, k2 in o.t: d[m2] = d.get(m2, 0) + self.c * k2
                return Poly(tuple(sorted((m, k) for m, k in d.items() if k)), self.c * o.c)
        if o == 1: return self
        if o == 0: return ZERO
        return Poly(tuple((m, k * o) for m, k in self.t), self.c * o)
    __rmul__ = __mul__
    def atoms(self):
        s = set()
        for m, _ in self.t: s.update(m)
        return s
    def __repr__(self):
        return show(self)
    # comparisons build conditions
    def __ge__(self, o): return ge(self - o)
    def __le__(self, o): return ge(-(self - o))
    def __gt__(self, o): return ge(self - o - 1)
    def __lt__(self, o): return ge(-(self - o) - 1)
    def eq(self, o): return eq0(self - o)
    def ne(self, o): return not_(eq0(self - o))

def const(n): return Poly((), int(n))
ZERO = const(0); ONE = const(1)
def P(x): return x if isinstance(x, Poly) else const(x)
def atom_poly(a): return Poly((((a.id,), 1),), 0)

_fresh = [0]
def var(name, lo, hi):
    a = mk_atom('var', name, lo, hi, name)
    return atom_poly(a)
def fresh(name, lo, hi):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), lo, hi)

def show_atom(i):
    a = ATOMS[i]
    if a.kind == 'var': return a.name
    if a.kind == 'div': return '(%s)/%d' % (show(a.data[0]), a.data[1]) if a.data[1] < 10**7 else '(%s)/0x%x' % (show(a.data[0]), a.data[1])
    return '%s%r' % (a.kind, a.data)
def show(p):
    s = []
    for m, k in p.t:
        s.append(('%d*' % k if k != 1 else '') + '*'.join(show_atom(i) for i in m))
    if p.c or not s: s.append(str(p.c))
    return ' + '.join(s)

# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('k', 'a')
    def __init__(self, k, a): self.k = k; self.a = a
    def __repr__(self):
        if self.k in ('T', 'F'): return self.k
        if self.k == 'ge': return '(%s >= 0)' % show(self.a)
        if self.k == 'eq': return '(%s == 0)' % show(self.a)
        if self.k == 'ne': return '(%s != 0)' % show(self.a)
        return '(' + (' %s ' % self.k).join(map(repr, self.a)) + ')'
    def key(self):
        if self.k in ('T', 'F'): return (self.k,)
        if self.k in ('ge', 'eq', 'ne'): return (self.k, self.a.t, self.a.c)
        return (self.k,) + tuple(x.key() for x in self.a)
TRUE = Cond('T', None); FALSE = Cond('F', None)
def B(x): return TRUE if x is True else FALSE if x is False else x
def ge(p):
    p = P(p)
    if not p.t: return TRUE if p.c >= 0 else FALSE
    t, g = p.prim()
    if g in (1, -1): return Cond('ge', p)
    ag = abs(g)
    # g*t + c >= 0  <=>  sign*t + floor(c/|g|) >= 0
    return Cond('ge', Poly(tuple((m, k // ag) for m, k in p.t), p.c // ag))
def eq0(p):
    p = P(p)
    if not p.t: return TRUE if p.c == 0 else FALSE
    t, g = p.prim()
    if p.c % g: return FALSE
    return Cond('eq', Poly(t, p.c // g))
def not_(c):
    c = B(c)
    if c.k == 'T': return FALSE
    if c.k == 'F': return TRUE
    if c.k == 'ge': return ge(-c.a - 1)
    if c.k == 'eq': return Cond('ne', c.a)
    if c.k == 'ne': return Cond('eq', c.a)
    if c.k == 'and': return or_(*[not_(x) for x in c.a])
    return and_(*[not_(x) for x in c.a])
def and_(*cs):
    o = []
    for c in cs:
        c = B(c)
        if c.k == 'F': return FALSE
        if c.k == 'T': continue
        if c.k == 'and': o.extend(c.a)
        else: o.append(c)
    if not o: return TRUE
    if len(o) == 1: return o[0]
    return Cond('and', o)
def or_(*cs):
    o = []
    for c in cs:
        c = B(c)
        if c.k == 'T': return TRUE
        if c.k == 'F': continue
        if c.k == 'or': o.extend(c.a)
        else: o.append(c)
    if not o: return FALSE
    if len(o) == 1: return o[0]
    return Cond('or', o)
def implies(a, b): return or_(not_(a), b)
def iff(a, b): return or_(and_(a, b), and_(not_(a), not_(b)))
