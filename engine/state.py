"""Path state: path condition, interval facts, substitution, and the term
constructors whose simplifications depend on the path condition."""
from term import *
from term import Poly, Cond, Atom
import itertools, bisect, math
from fractions import Fraction

class Fork(Exception):
    """raised when a construct needs a case split; conds are exhaustive"""
    def __init__(self, conds, why=''):
        self.conds = conds; self.why = why
class Infeasible(Exception): pass
class Unsupported(Exception): pass

INF = float('inf')
NEAR_ATOMS = set()
POW10 = {10 ** k for k in range(1, 40)}
_lin = {}
def linreal(p, c):
    """p/c = alpha*X + [elo, ehi], alpha close to 1/d"""
    key = (p, c)
    if key in _lin: return _lin[key]
    co = {}; err = [Fraction(0), Fraction(0)]
    def go(p, f, depth):
        err[0] += f * p.c; err[1] += f * p.c
        for m, k in p.t:
            if len(m) == 1 and depth < 12:
                a = ATOMS[m[0]]
                if a.kind == 'div' and a.data[1] & (a.data[1] - 1) == 0:
                    R, cc = a.data
                    th = f * k * Fraction(cc - 1, cc)
                    if th > 0: err[0] -= th
                    else: err[1] -= th
                    go(R, f * k / cc, depth + 1); continue
            co[m] = co.get(m, 0) + f * k
    go(p, Fraction(1, c), 0)
    co = {m: k for m, k in co.items() if k}
    r = None
    if co:
        al = min(co.values(), key=abs)
        if al > 0 and all((k / al).denominator == 1 for k in co.values()):
            d = round(1 / al)
            if d in POW10:
                r = (Poly(tuple(sorted((m, int(k / al)) for m, k in co.items())), 0), al, err[0], err[1], d)
    _lin[key] = r
    return r
_flat = {}
def flat(t):
    """(coefficients, elo, ehi, den): den*t = sum of the coefficients times floor-free monomials + [elo, ehi]"""
    if t in _flat: return _flat[t]
    co = {}; err = [Fraction(0), Fraction(0)]; seen = [0]
    def go(tt, f, depth):
        for m, k in tt:
            if len(m) == 1 and depth < 12:
                a = ATOMS[m[0]]
                if a.kind == 'div':
                    R, cc = a.data; seen[0] += 1
                    th = f * k * Fraction(cc - 1, cc)
                    if th > 0: err[0] -= th
                    else: err[1] -= th
                    x = f * k / cc
                    err[0] += x * R.c; err[1] += x * R.c
                    go(R.t, x, depth + 1); continue
            co[m] = co.get(m, 0) + f * k
    go(t, Fraction(1), 0)
    r = None
    if seen[0] and seen[0] < 40:
        den = 1
        for v in list(co.values()) + err: den = den * v.denominator // math.gcd(den, v.denominator)
        r = ([(m, int(k * den)) for m, k in co.items() if k], int(err[0] * den), int(err[1] * den), den)
    if len(_flat) > 200000: _flat.clear()
    _flat[t] = r
    return r
NEAR10 = {10 ** k for k in (3, 6, 9, 18)}
def round_div(a, b): return (2 * a + b) // (2 * b)
def mono_mul(a, b):
    v = [x * y if x and y else 0 for x in a for y in b]
    return min(v), max(v)

class State:
    _ids = itertools.count(1)
    def __init__(self):
        self.id = next(State._ids)
        self.pc = []                # list of Cond (conjunction)
        self.bnd = {}               # primitive t -> (lo,hi)
        self.sub = {}               # atom id -> Poly
        self.cache = {}             # bounds cache
        self.scache = {}            # simp cache
        self.neq = set()            # Poly known nonzero (prim t, c)
        self.tabeq = []
        self.taut = set()           # bounds that follow from the definitions alone
        self._nsub = 0
        self.known = []             # assumed disjunctions
        self.model = None           # a satisfying assignment of the path condition, if known
    nofork = False          # while a solver query is built
    def clone_core(self, o):
        o.id = next(State._ids)
        o.pc = list(self.pc); o.bnd = dict(self.bnd); o.sub = dict(self.sub)
        o.cache = dict(self.cache); o.scache = dict(self.scache)
        o.neq = set(self.neq); o.model = self.model; o.tabeq = []; o.known = list(self.known); o._nsub = self._nsub; o.taut = set(self.taut)
    # ------------------------------------------------------------ bounds
    def atom_bounds(self, i):
        key = ((i,), 1)
        t = (key,)
        r = self.cache.get(t)
        if r is not None: return r
        a = ATOMS[i]
        lo = -INF if a.lo is None else a.lo
        hi = INF if a.hi is None else a.hi
        b = self.bnd.get(t)
        if b:
            if b[0] > lo: lo = b[0]
            if b[1] < hi: hi = b[1]
        if a.kind == 'div' and lo != hi:
            l, h = self.bounds(a.data[0])
            c = a.data[1]
            if l != -INF:
                l = l // c
                if l > lo: lo = l
            if h != INF:
                h = h // c
                if h < hi: hi = h
        elif a.kind == 'step' and lo != hi:
            p, thr, base = a.data
            l, h = self.bounds(p)
            l2 = base + bisect.bisect_right(thr, l); h2 = base + bisect.bisect_right(thr, h)
            if l2 > lo: lo = l2
            if h2 < hi: hi = h2
        elif a.kind == 'bit':
            h1, h2 = self.bounds(a.data[1])[1], self.bounds(a.data[2])[1]
            h = min(h1, h2) if a.data[0] == 'and' else max(h1, h2)
            if h != INF and h >= 0: hi = min(hi, (1 << h.bit_length()) - 1 if a.data[0] != 'and' else h)
        elif a.kind == 'tab' and lo != hi:
            T, idx = a.data
            l, h = self.bounds(idx)
            if h - l <= 16 and h - l + 1 < len(T.vals):
                vs = T.vals[l:h + 1]
                lo = max(lo, min(vs)); hi = min(hi, max(vs))
        self.cache[t] = (lo, hi)
        return lo, hi
    def mono_bounds(self, m):
        r = self.atom_bounds(m[0])
        for i in m[1:]:
            r = mono_mul(r, self.atom_bounds(i))
        if len(m) == 2 and m[0] == m[1]: r = (max(0, r[0]), r[1])
        return r
    def _naive(self, t):
        lo = hi = 0
        for m, k in t:
            l, h = self.mono_bounds(m)
            if k > 0: lo += k * l; hi += k * h
            else: lo += k * h; hi += k * l
        return lo, hi
    def t_bounds(self, t):
        """bounds of primitive t"""
        r = self.cache.get(t)
        if r is not None: return r
        if len(t) == 1 and len(t[0][0]) == 1: return self.atom_bounds(t[0][0][0])
        lo, hi = self._naive(t)
        # R - c*Div(R,c) in [0,c-1]
        for m, k in t:
            if len(m) == 1 and ATOMS[m[0]].kind == 'div':
                R, c = ATOMS[m[0]].data
                if k % c == 0:
                    q = -k // c
                    # t = q*(R - c*D) + rest
                    rest = Poly(t, 0) - (R - Poly(((m, 1),), 0) * c) * q
                    if len(rest.t) < len(t):
                        l, h = self.bounds(rest)
                        if q > 0: h += q * (c - 1)
                        else: l += q * (c - 1)
                        if l > lo: lo = l
                        if h < hi: hi = h
                # Div(R,c') - (c/c')*Div(R,c) in [0, c/c'-1]
                for m2, k2 in t:
                    if m2 is m or len(m2) != 1: continue
                    a2 = ATOMS[m2[0]]
                    if a2.kind != 'div' or a2.data[0] is not R and a2.data[0] != R: continue
                    c2 = a2.data[1]
                    if c2 >= c or c % c2: continue
                    g = c // c2
                    if k % g == 0 and -k // g != 0:
                        q = -k // g
                        rest = Poly(t, 0) - (Poly(((m2, 1),), 0) - Poly(((m, 1),), 0) * g) * q
                        if len(rest.t) < len(t):
                            l, h = self.bounds(rest)
                            if q > 0: h += q * (g - 1)
                            else: l += q * (g - 1)
                            if l > lo: lo = l
                            if h < hi: hi = h
        if hi - lo > 400 and len(t) > 1:
            r = self._flat_bounds(t)
            if r:
                if r[0] > lo: lo = r[0]
                if r[1] < hi: hi = r[1]
        b = self.bnd.get(t)
        if b:
            if b[0] > lo: lo = b[0]
            if b[1] < hi: hi = b[1]
        self.cache[t] = (lo, hi)
        return lo, hi
    def _flat_bounds(self, t):
        """bounds by the linear relaxation R/c - (c-1)/c <= floor(R/c) <= R/c of every floor"""
        r = flat(t)
        if r is None: return None
        co, elo, ehi, den = r                        # den*t = sum co*m + [elo, ehi]
        lo, hi = elo, ehi
        for m, k in co:
            l, h = self.mono_bounds(m)
            if l == -INF or h == INF: return None
            if k > 0: lo += k * l; hi += k * h
            else: lo += k * h; hi += k * l
        return -(-lo // den), hi // den
    def bounds(self, p):
        if not p.t: return p.c, p.c
        t, g = p.prim()
        lo, hi = self.t_bounds(t)
        if g > 0: return g * lo + p.c, g * hi + p.c
        return g * hi + p.c, g * lo + p.c
    def note(self, p, lo, hi, taut=False):
        """record a bound that holds on this path"""
        if not p.t: return
        t, g = p.prim()
        lo -= p.c; hi -= p.c
        if g < 0: lo, hi = -hi, -lo; g = -g
        if lo != -INF: lo = -((-lo) // g)
        if hi != INF: hi = hi // g
        ol, oh = self.t_bounds(t)
        if lo <= ol and hi >= oh: return
        nl, nh = max(lo, ol), min(hi, oh)
        if nl > nh: raise Infeasible()
        if not taut: self.taut.discard(t)
        elif t not in self.bnd: self.taut.add(t)
        b = self.bnd.get(t, (-INF, INF))
        self.bnd[t] = (max(b[0], lo), min(b[1], hi))
        self.cache.clear()
        if len(t) == 1 and len(t[0][0]) == 1:
            a = ATOMS[t[0][0][0]]
            if a.kind == 'div':
                R, c = a.data
                self.note(R, nl * c if nl != -INF else -INF, nh * c + c - 1 if nh != INF else INF)
            elif a.kind == 'step':
                p, thr, base = a.data
                i, j = nl - base, nh - base
                self.note(p, thr[i - 1] if i > 0 else -INF, thr[j] - 1 if j < len(thr) else INF)
            elif a.kind == 'tab' and nl > -INF and nh < INF:
                T, idx = a.data
                l, h = self.bounds(idx)
                if h - l <= 5000:
                    ks = [k for k in range(l, h + 1) if nl <= T.vals[k] <= nh]
                    if not ks: raise Infeasible()
                    if ks[0] > l or ks[-1] < h: self.note(idx, ks[0], ks[-1])
                    if len(ks) == 1 and idx.t: self.tabeq.append(idx - ks[0])
            if nl == nh and a.id not in self.sub:
                self.sub[a.id] = const(nl); self.scache = {}
        else:
            # one-step propagation to single atoms
            if len(t) <= 4 or nl == nh and len(t) <= 16:
                for i, (m, k) in enumerate(t):
                    if len(m) != 1: continue
                    l, h = self._naive(t[:i] + t[i + 1:])
                    # k*x in [nl-h, nh-l]
                    a_, b_ = nl - h, nh - l
                    if k < 0: a_, b_ = -b_, -a_; k = -k
                    al, ah = self.atom_bounds(m[0])
                    xl = -((-a_) // k) if a_ not in (-INF, INF) and a_ == a_ else -INF
                    xh = b_ // k if b_ not in (-INF, INF) and b_ == b_ else INF
                    if xl > al or xh < ah:
                        self.note(Poly(((m, 1),), 0), max(xl, al), min(xh, ah))
    # ------------------------------------------------------------ assume
    def assume(self, c, record=True):
        c = self.simp_cond(B(c))
        if c.k == 'T': return
        if c.k == 'F': raise Infeasible()
        if c.k == 'and':
            for x in c.a: self.assume(x, record)
            return
        if record: self.pc.append(c)
        self.tabeq = []
        self._assume(c)
        while self.tabeq:
            p = self.simp(self.tabeq.pop())
            if p.t: self.assume_eq(p)
        if len(self.sub) != self._nsub: self.transfer()
        if c.k == 'or': self.known.append(c)
        elif self.known and not self._unit: self.propagate()
    _unit = False
    def transfer(self):
        """carry recorded bounds over to the simplified form of their term"""
        for _ in range(3):
            self._nsub = len(self.sub)
            for t, (lo, hi) in list(self.bnd.items()):
                p = self.simp(Poly(t, 0))
                if p.t != t:
                    if p.t: self.note(p, lo, hi, t in self.taut)
                    elif p.c < lo or p.c > hi: raise Infeasible()
            while self.tabeq:
                p = self.simp(self.tabeq.pop())
                if p.t: self.assume_eq(p)
            if len(self.sub) == self._nsub: break
        self._nsub = len(self.sub)
    def propagate(self):
        """re-simplify assumed disjunctions, asserting those that became atomic"""
        self._unit = True
        try:
            again = True
            while again:
                again = False
                ks, self.known = self.known, []
                for i, k in enumerate(ks):
                    r = self.simp_cond(k)
                    if r.k == 'or': self.known.append(r); continue
                    if r.k == 'T': continue
                    self.known += ks[i + 1:]
                    self.assume(r); again = True
                    break
        finally: self._unit = False
    def _assume(self, c):
        if c.k == 'ge':
            t, g = c.a.prim()
            if g > 0: self.note(Poly(t, 0), -((c.a.c) // g), INF)   # g*t + c >= 0
            else: self.note(Poly(t, 0), -INF, c.a.c // (-g))
            if len(t) > 1:
                for m, k in c.a.t:
                    if len(m) == 1 and ATOMS[m[0]].kind == 'step':
                        l, h = self.atom_bounds(m[0])
                        v = k * h if k > 0 else k * l          # greatest contribution of the atom
                        if v in (INF, -INF): continue
                        r = c.a - Poly(((m, k),), 0)
                        self.note(r, -v, INF, True)
                if len(t) == 2 and t[0][1] == t[1][1]: self.log_product(t, g)
                l, h = self.t_bounds(t)
                if l == h: self.assume_eq(Poly(t, -l))
        elif c.k == 'eq':
            self.assume_eq(c.a)
        elif c.k == 'ne':
            lo, hi = self.bounds(c.a)
            if lo == 0: self.note(c.a, 1, INF)
            elif hi == 0: self.note(c.a, -INF, -1)
            else:
                self.neq.add(c.a); self.neq.add(-c.a)
                if len(c.a.t) > 1:
                    r = self._eq_recip(c.a)
                    if r is not None: self.assume(not_(and_(r[2], r[3])))
    def log_product(self, t, g):
        """bounds of p*q from bounds of floor(log2 p) + floor(log2 q)"""
        ps = []; b = 0
        for m, k in t:
            if k != 1 or len(m) != 1 or ATOMS[m[0]].kind != 'step': return
            p, thr, base = ATOMS[m[0]].data
            if any(x != 2 << i for i, x in enumerate(thr)): return
            l, h = self.bounds(p)
            if l < 1 or h >= 4 << len(thr): return
            ps.append(p); b += base
        l, h = self.t_bounds(t)
        if h - b < 300 and l - b >= 0: self.note(ps[0] * ps[1], 1 << int(l - b), (4 << int(h - b)) - 1, True)
    def assume_eq(self, p):
        t, g = p.prim()
        v = -p.c // g
        r = self._eq_recip(p) if len(p.t) > 1 else None
        self.note(Poly(t, 0), v, v)
        if r is not None:
            # a quotient given by other terms: its definition becomes a bound on a remainder
            i, x, c1, c2 = r
            if i in self.sub: return
            lo, hi = self.atom_bounds(i)
            self.sub[i] = x; self.scache = {}
            self.note(x, lo, hi)
            for q in (c1, c2):
                q = self.simp_cond(q)
                if q.k == 'F': raise Infeasible()
                if q.k == 'ge': self._assume(q)
            return
        # solve for an atom: prefer a var with unit coefficient not inside other atoms
        best = None
        for m, k in p.t:
            if len(m) == 1 and k in (1, -1) and m[0] not in self.sub:
                i = m[0]
                if any(i in mm and mm != m for mm, _ in p.t): continue
                # atom must not occur inside the other atoms
                rest = p - Poly(((m, k),), 0)
                if self.occurs(i, rest): continue
                a = ATOMS[i]
                rank = (0 if a.kind == 'div' else 1 if a.kind != 'var' else 2, -i)
                if a.kind == 'div': rank = (3, -i)
                if i in NEAR_ATOMS: rank = (-1, -i)
                if best is None or rank < best[0]: best = (rank, i, k, rest)
        if best and best[0][0] != 3:
            _, i, k, rest = best
            lo, hi = self.atom_bounds(i)
            self.sub[i] = rest * (-k)
            self.scache = {}
            self.note(rest * (-k), lo, hi)
    def occurs(self, i, p):
        seen = set()
        def go(p):
            for j in p.atoms():
                if j == i: return True
                if j in seen: continue
                seen.add(j)
                for d in ATOMS[j].data if ATOMS[j].kind != 'var' else ():
                    if isinstance(d, Poly) and go(d): return True
            return False
        return go(p)
    # ------------------------------------------------------------ simplification
    def simp(self, p):
        if not self.sub or not p.t: return p
        r = self.scache.get(p)
        if r is not None: return r
        if all(not self._dirty(i) for i in p.atoms()):
            self.scache[p] = p
            return p
        r = const(p.c)
        for m, k in p.t:
            q = const(k)
            for i in m: q = q * self.simp_atom(i)
            r = r + q
        self.scache[p] = r
        return r
    def _dirty(self, i):
        a = ATOMS[i]
        if i in self.sub: return True
        if a.kind == 'var': return False
        key = ('d', i)
        r = self.scache.get(key)
        if r is None:
            r = self.simp_atom(i) is not atom_poly(a)
            self.scache[key] = r
        return r
    def simp_atom(self, i):
        key = ('a', i)
        r = self.scache.get(key)
        if r is not None: return r
        s = self.sub.get(i)
        if s is not None: r = self.simp(s)
        else:
            a = ATOMS[i]
            if a.kind == 'div':
                r0 = self.simp(a.data[0])
                r = atom_poly(a) if r0 is a.data[0] else self.div(r0, a.data[1])
            elif a.kind == 'step':
                r0 = self.simp(a.data[0])
                r = atom_poly(a) if r0 is a.data[0] else self.step(r0, a.data[1], a.data[2])
            elif a.kind == 'tab':
                r0 = self.simp(a.data[1])
                r = atom_poly(a) if r0 is a.data[1] else self.tab(a.data[0], r0)
            elif a.kind == 'bit':
                x, y = self.simp(a.data[1]), self.simp(a.data[2])
                r = atom_poly(a) if x is a.data[1] and y is a.data[2] else self.bitop(a.data[0], x, y, a.data[3])
            else:
                r = atom_poly(a)
        self.scache[key] = r
        return r
    def simp_cond(self, c):
        if c.k in ('T', 'F'): return c
        if c.k == 'ge':
            p = self.simp(c.a)
            lo, hi = self.bounds(p)
            if lo >= 0: return TRUE
            if hi < 0: return FALSE
            if len(p.t) > 1:
                r = self._ge_recip(p)
                if r is not None:
                    lo, hi = self.bounds(r.a)
                    return TRUE if lo >= 0 else FALSE if hi < 0 else r
                r = self._or_parts(p if p.c < 0 else -p, -1 if p.c < 0 else 0)
                if r is not None:
                    x, y = r
                    return self.simp_cond(or_(ge(x - 1), ge(y - 1)) if p.c < 0 else and_(eq0(x), eq0(y)))
            return ge(p) if p is not c.a else c
        if c.k in ('eq', 'ne'):
            p = self.simp(c.a)
            e = eq0(p)
            if e.k == 'eq':
                lo, hi = self.bounds(e.a)
                if lo > 0 or hi < 0: e = FALSE
                elif lo == 0 and hi == 0: e = TRUE
                elif e.a in self.neq: e = FALSE
                elif len(e.a.t) > 1:
                    r = self._eq_recip(e.a)
                    if r is not None:
                        lo1, hi1 = self.bounds(r[2].a); lo2, hi2 = self.bounds(r[3].a)
                        if hi1 < 0 or hi2 < 0 or self.bounds(r[2].a + r[3].a)[1] < 0: e = FALSE
                        elif lo1 >= 0 and lo2 >= 0: e = TRUE
                    else:
                        r = self._or_parts(e.a, 0) or self._or_parts(-e.a, 0)
                        if r is not None: e = self.simp_cond(and_(eq0(r[0]), eq0(r[1])))
            return e if c.k == 'eq' else not_(e)
        r = (and_ if c.k == 'and' else or_)(*[self.simp_cond(x) for x in c.a])
        if self.known and r.k in ('and', 'or'):
            o = r if r.k == 'or' else not_(r)
            if o.k == 'or':
                k = o.key()
                if any(x.key() == k for x in self.known): return TRUE if r.k == 'or' else FALSE
        return r
    def _or_parts(self, p, c):
        """p = (x | y) + c: x, y"""
        if p.c != c: return None
        for m, k in p.t:
            if k == -1 and len(m) == 1 and ATOMS[m[0]].kind == 'bit' and ATOMS[m[0]].data[0] == 'and' and m[0] not in self.sub:
                _, x, y, _ = ATOMS[m[0]].data
                x = self.simp(x); y = self.simp(y)
                if p == x + y - atom_poly(ATOMS[m[0]]) + c: return x, y
        return None
    def _eq_recip(self, p):
        """p = +-floor(A/c) + rest: (atom, value it has when p = 0, two conditions
        on a remainder equivalent to p = 0)"""
        best = None
        for m, k in p.t:
            if k in (1, -1) and len(m) == 1 and ATOMS[m[0]].kind == 'div' and m[0] not in self.sub:
                A, c = ATOMS[m[0]].data
                if c & (c - 1) or c < 1024: continue
                x = (p - Poly(((m, k),), 0)) * -k
                if self.occurs(m[0], x): continue
                D = self.simp(A - x * c)
                c1 = self._near_mod(D)
                if c1 is None: continue
                c2 = self._near_mod(-D + (c - 1))
                if c2 is None: continue
                if best is None or c > ATOMS[best[0]].data[1]: best = (m[0], x, c1, c2)
        return best
    def _ge_recip(self, p):
        """p >= 0 as a condition on a remainder X mod d, when p is a near multiple
        of it: p = g*(X mod d) + e*floor(X/d) + b with e small"""
        r = self._near_mod(p)
        if r is not None: return r
        for m, k in p.t:
            if k in (1, -1) and len(m) == 1 and ATOMS[m[0]].kind == 'div':
                A, c = ATOMS[m[0]].data
                rest = p - Poly(((m, k),), 0)
                # floor(A/c) + rest >= 0 iff A + c*rest >= 0;  rest >= floor(A/c) iff c*rest + c - 1 >= A
                r = self._near_mod(self.simp(A + rest * c) if k == 1 else self.simp(rest * c + (c - 1) - A))
                if r is not None: return r
        return None
    def _near_mod(self, p):
        co = None
        for m, k in p.t:
            if len(m) != 1 or abs(k) < 2: continue
            a = ATOMS[m[0]]
            if a.kind != 'div': continue
            R, d = a.data
            if len(R.t) + 1 != len(p.t): continue
            if co is None: co = dict(p.t)
            x0, k0 = R.t[0]
            g, rem = divmod(co.get(x0, 0), k0)
            if rem or abs(g) < 2 or any(co.get(x) != g * kx for x, kx in R.t): continue
            e = g * d + k; b = p.c - g * R.c
            q = Poly(((m, 1),), 0)
            ql, qh = self.bounds(q)
            if ql == -INF or qh == INF: continue
            l, h = min(e * ql, e * qh), max(e * ql, e * qh)
            rr = R - q * d
            if g > 0:
                t0, t1 = -((b + h) // g), -((b + l) // g)      # rem >= ceil((-b - e*q)/g)
                if t0 == t1: return ge(rr - t0)
            else:
                t0, t1 = (b + l) // -g, (b + h) // -g           # rem <= floor((b + e*q)/-g)
                if t0 == t1: return ge(-rr + t0)
        return None
    # ------------------------------------------------------------ constructors
    def div(self, p, c):
        """floor(p / c), c > 0"""
        p = self.simp(P(p))
        if c == 1: return p
        if not p.t: return const(p.c // c)
        lo, hi = self.bounds(p)
        if lo != -INF and hi != INF:
            l, h = lo // c, hi // c
            if l == h: return const(l)
        if len(p.t) == 1 and len(p.t[0][0]) == 1:
            l, h = self.atom_bounds(p.t[0][0][0])
            if h == l + 1:           # two-valued atom
                k = p.t[0][1]
                v0, v1 = (k * l + p.c) // c, (k * h + p.c) // c
                return (Poly(((p.t[0][0], 1),), -l)) * (v1 - v0) + v0
        if c > 1024:
            g = 0
            for m, k in p.t:
                g = gcd(g, k)
                if g == 1: break
            if g > 1:
                r = self._recip(Poly(tuple((m, k // g) for m, k in p.t), 0), g, p.c, c)
                if r is not None: return r
            r = self._mod_recip(p, c)
            if r is not None: return r
        # pull out multiples of c (symmetric remainder)
        A = []; R = []
        for m, k in p.t:
            q, r = divmod(k, c)
            if 2 * r > c: q += 1; r -= c
            if q: A.append((m, q))
            if r: R.append((m, r))
        q, r = divmod(p.c, c)
        if A or q:
            # only keep the split if it does not lose a known-constant quotient
            x = Poly(tuple(A), q) + self.div(Poly(tuple(R), r), c)
            if A and lo != -INF and hi != INF:
                l, h = self.bounds(x)
                if l < lo // c or h > hi // c: self.note(x, lo // c, hi // c, True)
            return x
        if p.t[0][1] < 0:                    # floor((k-A)/c) = -floor((A+c-1-k)/c): positive leading coefficient
            return -self.div(Poly(tuple((m, -k) for m, k in p.t), c - 1 - p.c), c)
        # gcd
        g = c
        for m, k in p.t:
            g = gcd(g, k)
            if g == 1: break
        if g > 1:
            return self.div(Poly(tuple((m, k // g) for m, k in p.t), p.c // g), c // g)
        if c & (c - 1) == 0 and len(p.t) == 1 and p.c == 0 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
            a = ATOMS[p.t[0][0][0]]
            if a.kind == 'bit':
                op, x, y, n = a.data
                w = c.bit_length() - 1
                x2, y2 = self.div(x, c), self.div(y, c)
                return self.band(x2, y2, n - w) if op == 'and' else self.bxor(x2, y2, n - w)
        # nested floor
        for m, k in p.t:
            if k == 1 and len(m) == 1 and ATOMS[m[0]].kind == 'div':
                R2, c2 = ATOMS[m[0]].data
                rest = p - Poly(((m, 1),), 0)
                return self.div(R2 + rest * c2, c * c2)
            if k == -1 and len(m) == 1 and ATOMS[m[0]].kind == 'div':
                R2, c2 = ATOMS[m[0]].data
                rest = p + Poly(((m, 1),), 0)
                return self.div(rest * c2 - R2 + (c2 - 1), c * c2)
        # drop a part that cannot matter:  p = g*X + y with 0<=y<g, g | c
        r = self._split_low(p, c)
        if r is not None: return r
        # reciprocal multiplication
        g = 0
        for m, k in p.t:
            g = gcd(g, k)
            if g == 1: break
        if g > 1:
            X = Poly(tuple((m, k // g) for m, k in p.t), 0)
            r = self._recip(X, g, p.c, c)
            if r is not None: return r
        a = mk_atom('div', (p, c))
        if a.id in self.sub: return self.simp(self.sub[a.id])
        if c & (c - 1) == 0 and c > 1024:
            r = self._near_recip(a, p, c)
            if r is not None: return r
        return atom_poly(a)
    def _split_low(self, p, c):
        """p = g*X + y with y confined to one block of length g, g | c"""
        gs = set()
        for m, k in p.t:
            g = gcd(k, c)
            if g > 1: gs.add(g)
        for g in sorted(gs, reverse=True):
            X = [(m, k // g) for m, k in p.t if k % g == 0]
            y = Poly(tuple((m, k) for m, k in p.t if k % g), p.c)
            if not y.t and 0 <= y.c < g and g == 1: continue
            lo, hi = self.bounds(y)
            if lo == -INF or hi == INF: continue
            j = lo // g
            if j != hi // g: continue
            return self.div(Poly(tuple(X), j), c // g)
        return None
    def _recip(self, X, g, b, c):
        """floor((g*X + b) / c) == floor(X / d) on the range of X"""
        lo, hi = self.bounds(X)
        if lo < 0 or hi == INF: return None
        d = (2 * c + g) // (2 * g)
        if d <= 1: return None
        if c & (c - 1) == 0 and g & 1 and 0 < lo and b:
            t = -b * pow(g, -1, c) % c           # g*X + b == g*(X - t) modulo c
            if 0 < t <= lo:
                r = self._recip1(X - t, 0, hi - t, g, 0, c, d)
                if r is not None: return r + (b + g * t) // c
        return self._recip1(X, lo, hi, g, b, c, d)
    def _recip1(self, X, lo, hi, g, b, c, d):
        e = g * d - c
        Q = hi // d
        if min(0, Q * e) + b < 0: return None
        if max(0, Q * e) + (d - 1) * g + b >= c:
            # the last block may be partial
            r = hi - Q * d
            if max(0, (Q - 1) * e) + (d - 1) * g + b >= c or max(0, Q * e) + r * g + b >= c: return None
        return self.div(X, d)
    def _mod_recip(self, p, c):
        """k*(R mod d) modulo c, written with coefficients reduced modulo c"""
        co = dict(p.t)
        for m, k in p.t:
            if len(m) != 1 or ATOMS[m[0]].kind != 'div': continue
            R, d = ATOMS[m[0]].data
            if not R.t or len(R.t) + 1 != len(p.t) or any(x not in co for x, _ in R.t): continue
            x0, k0 = R.t[0]
            if k0 not in (1, -1): continue
            g = co[x0] * k0 % c
            if g < 2 or (k + d * g) % c or any((co[x] - g * kx) % c for x, kx in R.t): continue
            X = R - Poly(((m, 1),), 0) * d
            full = X * g
            A = p - full
            b = A.c
            A = A - b
            if any(kk % c for _, kk in A.t): continue
            r = self._recip(X - X.c, g, b % c + g * X.c, c) if not X.c else None
            if r is None: continue
            return r + Poly(tuple((mm, kk // c) for mm, kk in A.t), b // c)
        return None
    def _near_recip(self, a, p, c):
        """floor(p/c) as floor(X/d)+k for a power of ten d: p/c is analysed as a
        real linear form with an error interval; when two values of k are
        possible the path is split"""
        L = linreal(p, c)
        if L is None: return None
        X, alpha, elo, ehi, d = L
        lo, hi = self.bounds(X)
        if lo < 0 or hi == INF: return None
        eta = alpha - Fraction(1, d)
        l = eta * (lo if eta > 0 else hi) + elo - Fraction(c - 1, c)
        h = eta * (hi if eta > 0 else lo) + ehi + Fraction(d - 1, d)
        k0, k1 = -((-l.numerator) // l.denominator), h.numerator // h.denominator
        # l is attained only when every floor is maximal; strictness is not needed
        if k1 - k0 > 1: return None
        if k0 == k1: return self.div(X, d) + k0
        if d not in NEAR10 or self.nofork: return None
        q = self.div(X, d)
        A = atom_poly(a)
        c0, c1 = self.simp_cond(eq0(A - q - k0)), self.simp_cond(eq0(A - q - k1))
        if c0.k == 'T' or c1.k == 'F': return q + k0
        if c1.k == 'T' or c0.k == 'F': return q + k1
        NEAR_ATOMS.add(a.id)
        raise Fork([eq0(A - q - k1), eq0(A - q - k0)], 'reciprocal')
    def mod(self, p, c):
        p = self.simp(P(p))
        if c & (c - 1) == 0 and len(p.t) == 1 and p.c == 0 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
            a = ATOMS[p.t[0][0][0]]
            if a.kind == 'bit':
                op, x, y, n = a.data
                w = c.bit_length() - 1
                x2, y2 = self.mod(x, c), self.mod(y, c)
                return self.band(x2, y2, w) if op == 'and' else self.bxor(x2, y2, w)
        r = p - self.div(p, c) * c
        lo, hi = self.bounds(r)
        if lo < 0 or hi > c - 1: self.note(r, 0, c - 1)
        return r
    def U(self, p, n):
        p = self.simp(p)
        lo, hi = self.bounds(p)
        if lo >= 0 and hi < (1 << n): return p
        return self.mod(p, 1 << n)
    def S(self, p, n):
        p = self.simp(p)
        lo, hi = self.bounds(p)
        h = 1 << (n - 1)
        if lo >= -h and hi < h: return p
        r = self.mod(p + h, 1 << n) - h
        lo, hi = self.bounds(r)
        if lo < -h or hi >= h: self.note(r, -h, h - 1)
        return r
    def tz(self, p):
        """number of low zero bits certain"""
        z = p.c
        for _, k in p.t: z |= k
        return (z & -z).bit_length() - 1 if z else 10 ** 6
    def and_mask(self, p, mask, n):
        p = self.U(p, n)
        mask &= (1 << n) - 1
        lo, hi = self.bounds(p)
        nb = hi.bit_length()
        mask &= (1 << nb) - 1
        r = ZERO
        i = 0
        while mask >> i:
            if not (mask >> i) & 1: i += 1; continue
            j = i
            while (mask >> j) & 1: j += 1
            d = self.div(p, 1 << i) if i else p
            if j < nb: d = self.mod(d, 1 << (j - i))
            r = r + d * (1 << i)
            i = j
        return r
    def band(self, a, b, n):
        a = self.U(a, n); b = self.U(b, n)
        if a is b: return a
        if a.is_const(): return self.and_mask(b, a.c, n)
        if b.is_const(): return self.and_mask(a, b.c, n)
        for x, y in ((a, b), (b, a)):
            l, h = self.bounds(x)
            if h < (1 << self.tz(y)): return ZERO
        for x, y in ((a, b), (b, a)):
            l, h = self.bounds(x)
            tz = self.tz(x)
            if tz < 1000 and h < (2 << tz):       # x in {0, 2^tz}
                raise Fork([eq0(x), eq0(x - (1 << tz))], 'and with a bit')
            if self.two_valued(x, n):
                raise Fork([eq0(x), eq0(x - ((1 << n) - 1))], 'and with a bit mask')
        return self.bitop('and', a, b, n)
    def two_valued(self, x, n):
        """x takes only the values 0 and 2^n-1"""
        if len(x.t) == 1 and len(x.t[0][0]) == 1:
            l, h = self.atom_bounds(x.t[0][0][0])
            if h == l + 1:
                k = x.t[0][1]
                return {k * l + x.c, k * h + x.c} == {0, (1 << n) - 1}
        return False
    def bor(self, a, b, n):
        a = self.U(a, n); b = self.U(b, n)
        if a is b: return a
        if a.is_const(): a, b = b, a
        if b.is_const():
            if b.c == 0: return a
            return a + b - self.and_mask(a, b.c, n)
        for x, y in ((a, b), (b, a)):
            l, h = self.bounds(x)
            if h < (1 << self.tz(y)): return x + y
            # bits of x only in [i,j): y has none there
        if self.disjoint(a, b, n) or self.disjoint(b, a, n): return a + b
        r = a + b - self.band(a, b, n)
        lo, hi = self.bounds(r)
        if lo < 0 or hi >= 1 << n: self.note(r, max(self.bounds(a)[0], self.bounds(b)[0]), (1 << n) - 1)
        return r
    def disjoint(self, x, y, n):
        """x's bits lie in [i,j); y's field there is known to be 0"""
        l, h = self.bounds(x)
        i = self.tz(x); j = h.bit_length()
        if i > 1000: return True
        f = self.mod(self.div(y, 1 << i), 1 << (j - i)) if j > i else ZERO
        lo, hi = self.bounds(f)
        return lo == 0 and hi == 0
    def bxor(self, a, b, n):
        a = self.U(a, n); b = self.U(b, n)
        if a is b: return ZERO
        if a.is_const(): a, b = b, a
        if b.is_const():
            if b.c == 0: return a
            if b.c == (1 << n) - 1: return b - a
            return a + b - self.and_mask(a, b.c, n) * 2
        for x, y in ((a, b), (b, a)):
            l, h = self.bounds(x)
            if h < (1 << self.tz(y)): return x + y
        for x in (a, b):
            if self.two_valued(x, n): raise Fork([eq0(x), eq0(x - ((1 << n) - 1))], 'xor with a mask')
        return self.bitop('xor', a, b, n)
    def bitop(self, op, a, b, n):
        """irreducible bitwise operation: reduced per bit by a case split when small"""
        a = self.simp(a); b = self.simp(b)
        if a.is_const() or b.is_const():
            return self.band(a, b, n) if op == 'and' else self.bxor(a, b, n)
        # split off the common high part / low part by known trailing zeros
        la, ha = self.bounds(a); lb, hb = self.bounds(b)
        nb = max(ha.bit_length(), hb.bit_length())
        if nb <= 1:
            raise Fork([eq0(a), eq0(a - 1)], 'bit operand')
        z = min(self.tz(a), self.tz(b))
        if z >= 1 and z < 1000:
            d = 1 << z
            return self.bitop(op, self.div(a, d), self.div(b, d), n - z) * d
        fa, fb = self.fields(a), self.fields(b)
        if fa is not None and fb is not None:
            comps = []
            for i, j, w, p in sorted([(i, j, 0, p) for i, j, p in fa] + [(i, j, 1, p) for i, j, p in fb], key=lambda t: t[:3]):
                if comps and i < comps[-1][1]:
                    comps[-1][1] = max(j, comps[-1][1]); comps[-1][2 + w] += p
                else: comps.append([i, j, p if w == 0 else ZERO, p if w else ZERO])
            if len(comps) > 1:
                r = ZERO
                for i, j, p, q in comps:
                    d = 1 << i
                    p = self.div(p, d); q = self.div(q, d)
                    r = r + (self.band(p, q, j - i) if op == 'and' else self.bxor(p, q, j - i)) * d
                return r
        x = mk_atom('bit', (op, a, b, n), 0, (1 << n) - 1)
        return atom_poly(x)
    def fields(self, x):
        """x as a sum of parts in disjoint bit ranges: [(lo, hi, part)], or None"""
        out = []
        for m, k in x.t:
            if k < 0: return None
            p = Poly(((m, k),), 0)
            l, h = self.bounds(p)
            if l < 0 or h == INF: return None
            if h == 0: continue
            out.append(((k & -k).bit_length() - 1, h.bit_length(), p))
        if x.c < 0: return None
        c = x.c; i = 0
        while c >> i:
            if c >> i & 1: out.append((i, i + 1, const(1 << i)))
            i += 1
        out.sort(key=lambda t: t[:2])
        for u, v in zip(out, out[1:]):
            if v[0] < u[1]: return None
        return out
    def is_fixed(self, p):
        p = self.simp(p)
        lo, hi = self.bounds(p)
        return lo == hi
    def tab(self, table, idx):
        idx = self.simp(idx)
        if idx.is_const(): return const(table.vals[idx.c])
        lo, hi = self.bounds(idx)
        if lo < 0 or hi >= len(table.vals): raise Unsupported('table index range %s %s..%s' % (table.name, lo, hi))
        if lo == hi: return const(table.vals[lo])
        vs = table.vals[lo:hi + 1]
        # composition of two tables
        if len(idx.t) == 1 and idx.c == 0 and idx.t[0][1] == 1 and len(idx.t[0][0]) == 1:
            a = ATOMS[idx.t[0][0][0]]
            if a.kind == 'tab':
                l2, h2 = self.bounds(a.data[1])
                comp = [table.vals[v] for v in a.data[0].vals[l2:h2 + 1]]
                if comp == list(range(l2, h2 + 1)): return a.data[1]
        # affine tables
        if len(vs) > 1:
            k = vs[1] - vs[0]
            if all(vs[i + 1] - vs[i] == k for i in range(len(vs) - 1)):
                return idx * k + (vs[0] - k * lo)
        x = mk_atom('tab', (table, idx), min(table.vals), max(table.vals))
        return atom_poly(x)
    def step(self, p, thr, base):
        """base + number of thresholds <= p"""
        p = self.simp(p)
        lo, hi = self.bounds(p)
        i, j = bisect.bisect_right(thr, lo), bisect.bisect_right(thr, hi)
        if i == j: return const(base + i)
        return atom_poly(mk_atom('step', (p, tuple(thr), base), base, base + len(thr)))
    def b2i(self, c, n=None):
        """0/1 integer of a condition"""
        c = self.simp_cond(c)
        if c.k == 'T': return ONE
        if c.k == 'F': return ZERO
        if c.k == 'ge':
            lo, hi = self.bounds(c.a)
            M = 1 << max((-lo - 1).bit_length(), hi.bit_length(), n or 0)
            r = self.div(c.a, M) + 1
            # the comparison of a remainder, R - m*floor(R/m) <= k, becomes floor(R/m) + floor((k-R)/m): a case split in disguise
            old = [ATOMS[m[0]].data for m, k in c.a.t if len(m) == 1 and ATOMS[m[0]].kind == 'div']
            if old:
                ids = {m[0] for m, k in c.a.t}
                for m, k in r.t:
                    if len(m) == 1 and m[0] not in ids and ATOMS[m[0]].kind == 'div':
                        R, d = ATOMS[m[0]].data
                        if any(d == d2 and not (R - R2).t for R2, d2 in old): raise Fork([c, not_(c)], 'remainder')
            return r
        raise Fork([c, not_(c)], 'bool to int')

class Table:
    __slots__ = ('name', 'vals')
    def __init__(self, name, vals): self.name = name; self.vals = vals
    def __repr__(self): return self.name
