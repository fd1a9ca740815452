"""SMT back ends.  z3 (python binding, linear integer arithmetic with floor
division axiomatised) and cvc5 as a second opinion on unknowns."""
import z3, time, os
from term import *
from term import ATOMS

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'cvc5_calls': 0, 'cvc5_unsat': 0}
_av = {}
def reset_ctx():
    _av.clear(); _mono.clear()
_mono = {}
def zatom(i):
    v = _av.get(i)
    if v is None:
        v = _av[i] = z3.Int('a%d' % i)
    return v
def zmono(m):
    if len(m) == 1: return zatom(m[0])
    v = _mono.get(m)
    if v is None: v = _mono[m] = z3.Int('m' + '_'.join(map(str, m)))
    return v
def zpoly(p):
    if not p.t: return z3.IntVal(p.c)
    xs = []
    for m, k in p.t:
        v = zmono(m)
        xs.append(v if k == 1 else z3.IntVal(k) * v)
    if p.c: xs.append(z3.IntVal(p.c))
    return xs[0] if len(xs) == 1 else z3.Sum(xs)
def zcond(c):
    if c.k == 'T': return z3.BoolVal(True)
    if c.k == 'F': return z3.BoolVal(False)
    if c.k == 'ge': return zpoly(c.a) >= 0
    if c.k == 'eq': return zpoly(c.a) == 0
    if c.k == 'ne': return zpoly(c.a) != 0
    if c.k == 'and': return z3.And([zcond(x) for x in c.a])
    return z3.Or([zcond(x) for x in c.a])

def cond_monos(c, out):
    if c.k in ('T', 'F'): return
    if c.k in ('ge', 'eq', 'ne'):
        for m, _ in c.a.t: out.add(m)
    else:
        for x in c.a: cond_monos(x, out)

def definitions(conds, st):
    """defining axioms + bounds for all atoms reachable from conds"""
    todo = set()
    for c in conds: cond_monos(c, todo)
    seen = set(); ax = []
    extra = []
    while todo:
        m = todo.pop()
        if m in seen: continue
        seen.add(m)
        if len(m) > 1:
            lo, hi = st.mono_bounds(m)
            v = zmono(m)
            if lo != float('-inf'): ax.append(v >= lo)
            if hi != float('inf'): ax.append(v <= hi)
            # McCormick facts for products of two bounded atoms
            if len(m) == 2:
                (al, ah), (bl, bh) = st.atom_bounds(m[0]), st.atom_bounds(m[1])
                if float('inf') not in (ah, bh) and float('-inf') not in (al, bl):
                    x, y = zatom(m[0]), zatom(m[1])
                    ax += [v >= al * y + bl * x - al * bl, v >= ah * y + bh * x - ah * bh,
                           v <= ah * y + bl * x - ah * bl, v <= al * y + bh * x - al * bh]
            for i in m: todo.add((i,))
            continue
        i = m[0]; a = ATOMS[i]
        lo, hi = st.atom_bounds(i)
        v = zatom(i)
        if lo != float('-inf'): ax.append(v >= lo)
        if hi != float('inf'): ax.append(v <= hi)
        if a.kind == 'div':
            R, c = a.data
            r = zpoly(R) - c * v
            ax.append(r >= 0); ax.append(r <= c - 1)
            for mm, _ in R.t: todo.add(mm)
        elif a.kind == 'step':
            p, thr, base = a.data
            for mm, _ in p.t: todo.add(mm)
            zp = zpoly(p)
            first, last = int(lo) - base, int(hi) - base
            for q in range(first, last):
                ax.append((v >= base + q + 1) == (zp >= thr[q]))
            if first > 0: ax.append(zp >= thr[first - 1])
            if last < len(thr): ax.append(zp < thr[last])
        elif a.kind == 'tab':
            T, idx = a.data
            l, h = st.bounds(idx)
            for mm, _ in idx.t: todo.add(mm)
            if h - l <= 64:
                zi = zpoly(idx)
                ax.append(z3.Or([z3.And(zi == k, v == T.vals[k]) for k in range(l, h + 1)]))
        if i in st.sub:
            s = st.sub[i]
            ax.append(v == zpoly(s))
            for mm, _ in s.t: todo.add(mm)
    return ax

CVC5 = None
def check(st, conds, timeout=10000, want_model=False, second=True):
    old = st.nofork; st.nofork = True
    try: return check0(st, conds, timeout, want_model, second)
    finally: st.nofork = old
def check0(st, conds, timeout, want_model, second):
    r, m = check1(st, conds, timeout, want_model, second, False)
    if r == 'sat' and want_model and not check_asg(m, st, conds):
        STATS['refine'] = STATS.get('refine', 0) + 1
        return check1(st, conds, timeout, want_model, second, True)
    return r, m
def check1(st, conds, timeout, want_model, second, full):
    """satisfiability of st.pc and conds: 'sat' | 'unsat' | 'unknown' (, model)"""
    conds = [st.simp_cond(c) for c in conds]
    if any(c.k == 'F' for c in conds): return ('unsat', None)
    pc = []
    for c in st.pc:
        x = st.simp_cond(c)
        if x.k == 'F': return ('unsat', None)
        # disequalities and disjunctions are recorded facts: they simplify to true by themselves
        pc.append(c if x.k == 'T' and c.k in ('ne', 'or', 'and') else x)
    # recorded interval facts over multi-atom terms are consequences of the pc
    allc = [c for c in pc + conds if c.k != 'T']
    facts = []
    mons = set()
    for c in allc: cond_monos(c, mons)
    rel = closure(mons)
    cand = [(t, b) for t, b in st.bnd.items() if not (len(t) == 1 and len(t[0][0]) == 1) and t not in st.taut]
    while True:
        new = []; rest = []
        for t, b in cand:
            if full or any(m in rel for m, _ in t): new.append((t, b))
            else: rest.append((t, b))
        if not new: break
        cand = rest
        for t, (lo, hi) in new:
            p = Poly(t, 0)
            if lo != float('-inf'): facts.append(Cond('ge', p - lo))
            if hi != float('inf'): facts.append(Cond('ge', -p + hi))
        rel = closure(rel | {m for t, _ in new for m, _ in t})
    allc = allc + facts
    s = z3.Solver()
    s.set('timeout', timeout)
    for a in definitions(allc, st): s.add(a)
    for c in allc: s.add(zcond(c))
    t0 = time.time()
    r = s.check()
    STATS['z3_calls'] += 1; STATS['z3_time'] += time.time() - t0
    if r == z3.unsat: STATS['unsat'] += 1; return ('unsat', None)
    if r == z3.sat:
        STATS['sat'] += 1
        return ('sat', asg_of(s.model()) if want_model else None)
    if second:
        r2 = cvc5_check(s.to_smt2(), timeout)
        if r2 == 'unsat': STATS['cvc5_unsat'] += 1; return ('unsat', None)
    STATS['unknown'] += 1
    return ('unknown', None)

def closure(mons):
    seen = set(); todo = set(mons)
    while todo:
        m = todo.pop()
        if m in seen: continue
        seen.add(m)
        if len(m) > 1:
            for i in m: todo.add((i,))
            continue
        a = ATOMS[m[0]]
        if a.kind == 'div':
            for mm, _ in a.data[0].t: todo.add(mm)
        elif a.kind == 'step':
            for mm, _ in a.data[0].t: todo.add(mm)
        elif a.kind == 'tab':
            for mm, _ in a.data[1].t: todo.add(mm)
    return seen

def cvc5_check(smt2, timeout):
    import subprocess
    STATS['cvc5_calls'] += 1
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], input='(set-logic ALL)\n' + smt2, capture_output=True, text=True, timeout=timeout / 1000 + 10)
        return r.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'

class Asg(dict):
    """assignment of base atoms (var, opaque) taken from a solver model"""
def asg_of(model):
    a = Asg()
    for d in model.decls():
        n = d.name()
        if n[0] == 'a': a[int(n[1:])] = model[d].as_long()
        elif n[0] == 'm': a[tuple(int(x) for x in n[1:].split('_'))] = model[d].as_long()
    return a
class NoVal(Exception): pass
import bisect
class Ev:
    """evaluates polynomials and conditions under an assignment"""
    def __init__(self, asg, st): self.asg = asg; self.st = st; self.memo = {}
    def at(self, i):
        r = self.memo.get(i)
        if r is not None: return r
        a = ATOMS[i]
        if a.kind == 'var' and i in self.st.sub: r = self.ev(self.st.sub[i])
        elif a.kind == 'div': r = self.ev(a.data[0]) // a.data[1]
        elif a.kind == 'tab': r = a.data[0].vals[self.ev(a.data[1])]
        elif a.kind == 'step':
            r = a.data[2] + bisect.bisect_right(a.data[1], self.ev(a.data[0]))
        elif a.kind == 'bit':
            x, y = self.ev(a.data[1]), self.ev(a.data[2])
            r = x & y if a.data[0] == 'and' else x ^ y
        elif i in self.asg: r = self.asg[i]
        else:
            lo, hi = self.st.atom_bounds(i)
            r = lo if lo != float('-inf') else hi if hi != float('inf') else 0
            self.asg[i] = r
        self.memo[i] = r
        return r
    def ev(self, p):
        r = p.c
        for m, k in p.t:
            for i in m: k *= self.at(i)
            r += k
        return r
    def cond(self, c):
        if c.k == 'T': return True
        if c.k == 'F': return False
        if c.k == 'ge': return self.ev(c.a) >= 0
        if c.k == 'eq': return self.ev(c.a) == 0
        if c.k == 'ne': return self.ev(c.a) != 0
        if c.k == 'and': return all(self.cond(x) for x in c.a)
        return any(self.cond(x) for x in c.a)
def model_eval(asg, p, st): return Ev(asg, st).ev(p)
def check_asg(asg, st, conds):
    """assignment (real products, real tables) satisfies pc and conds and the recorded bounds"""
    try:
        e = Ev(Asg(asg), st)
        if not (all(e.cond(c) for c in st.pc) and all(e.cond(c) for c in conds)): return False
        for t, (lo, hi) in st.bnd.items():
            v = e.ev(Poly(t, 0))
            if v < lo or v > hi: return False
        return True
    except (IndexError, KeyError): return False

def slopes(p, e):
    """base variables of p with local slopes"""
    from fractions import Fraction
    out = []
    def go(p, f, depth):
        for m, k in p.t:
            for j, i in enumerate(m):
                g = f * k
                for jj, ii in enumerate(m):
                    if jj != j: g *= e.at(ii)
                if g == 0: continue
                a = ATOMS[i]
                if i in e.st.sub:
                    if depth < 6: go(e.st.sub[i], g, depth + 1)
                elif a.kind == 'var': out.append((i, g))
                elif a.kind == 'div' and depth < 6: go(a.data[0], g / a.data[1], depth + 1)
    go(p, Fraction(1), 0)
    return out
def local_model(st, c, model, budget=40):
    """search near a model of the path condition for one that also satisfies c"""
    n = [budget]
    def ok(asg): return check_asg(asg, st, [c])
    def rec(asg, depth):
        if n[0] <= 0: return None
        try: e = Ev(Asg(asg), st)
        except Exception: return None
        bad = None
        todo = [c] + list(st.pc)
        for x in todo:
            try:
                if not e.cond(x): bad = x; break
            except Exception: return None
        if bad is None: return asg if ok(asg) else None
        if depth == 0: return None
        ats = [bad] if bad.k not in ('and', 'or') else [x for x in bad.a if x.k in ('eq', 'ge', 'ne') and not e.cond(x)]
        for x in ats[:3]:
            v = e.ev(x.a)
            sl = slopes(x.a, e)
            seen = set()
            for i, s in sl:
                q = -v / s
                ds = []
                if x.k == 'ne': ds = [1, -1, int(1 / s) or 1]
                else:
                    fl = q.numerator // q.denominator
                    ds = [fl, fl + 1]
                    if x.k == 'ge': ds = ds[::-1] if q > 0 else ds
                for d in ds:
                    if d == 0 or (i, d) in seen: continue
                    seen.add((i, d))
                    n[0] -= 1
                    if n[0] < 0: return None
                    a2 = Asg(asg); nv = e.at(i) + d
                    lo, hi = st.atom_bounds(i)
                    if nv < lo or nv > hi: continue
                    a2[i] = nv
                    r = rec(a2, depth - 1)
                    if r is not None: return r
        return None
    return rec(Asg(model), 2)
