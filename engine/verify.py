"""Contracts and their verification: for each function under contract and each
case of its precondition's case split, execute every path of the extracted
code symbolically and discharge each goal of the postcondition."""
import os, sys, time, json, traceback, random, multiprocessing as mp
sys.setrecursionlimit(20000)
from term import *
from state import Fork, Infeasible, Unsupported, State
import forms, solver, spec, contracts as base_contracts
from execu import Executor, XState, Ptr, SafetyViolation, Timeout, Obj, Program, build_symtab
import ir

DECW = {'d32': 32, 'd64': 64, 'd128': 128}
INTW = {'i32': (32, 1), 'u32': (32, 0), 'i64': (64, 1), 'u64': (64, 0), 'i128': (128, 1), 'u128': (128, 0), 'i8': (8, 1)}

class Contract:
    """fn: symbol; ret, args: types (d32.. i32.. or 'P<type>' for an out
    pointer); ensures(E) adds goals; split(args)-> [(label, [Cond])] further
    exhaustive case split per form combination; pre(args)->[Cond] precondition."""
    def __init__(self, fn, ret, args, ensures, forms=None, split=None, pre=None, uses_rm=False, callees=None,
                 hints=None, skip=None, header=None, domain=None, gen=None, timeout=20000, group=None):
        self.fn = fn; self.ret = ret; self.args = args; self.ensures = ensures
        self.forms = forms; self.split = split; self.pre = pre; self.uses_rm = uses_rm
        self.callees = callees or {}; self.hints = hints; self.skip = skip; self.domain = domain; self.gen = gen
        self.timeout = timeout; self.group = group
    internal = False; known = None; known_off = False; csrc = None; judge = None; keep = None
    def excluded(self, vals, rm):
        """conditions keeping the listed known findings out"""
        return [not_(k) for k in (self.known(vals, rm) if self.known and not self.known_off else [])]
    def name(self): return self.fn
    def cases(self, tier):
        """list of case keys: tuple of form names for the decimal arguments (+ split index)"""
        out = [()]
        for i, a in enumerate(self.args):
            if a in DECW:
                fs = [n for n, _ in forms.forms(forms.F[DECW[a]], 'q')]
                if self.forms: fs = [x for x in fs if x in self.forms[i]] if isinstance(self.forms, dict) and i in self.forms else fs
                out = [o + (x,) for o in out for x in fs]
        if self.skip: out = [o for o in out if not self.skip(o)]
        if self.split:
            r = []
            for o in out:
                labs = self.split(o, tier)
                r += [(o, l) for l in labs] if labs is not None else [(o, None)]
        else: r = [(o, None) for o in out]
        return r if self.keep is None else [c for c in r if self.keep(c[0], c[1][0] if c[1] else '')]

class E:
    """what a postcondition can talk about"""
    def __init__(self, ex, st, c):
        self.ex = ex; self.st = st; self.c = c; self.G = spec.Goal()
        self.args = st.ghost['args']
    def goal(self, name, cond): self.G.add(name, cond)
    @property
    def a(self): return self.args
    def decide(self, c): return self.ex.decide(self.st, c)
    def conc(self, p, limit=300): return self.ex.conc(self.st, p, limit)
    @property
    def exc(self): return self.st.ghost.get('exc', 0)
    def rm(self): return self.conc(self.st.ghost['rm'])
    def errno(self):
        k = ('g', '', 'errno')
        o = self.st.mem.get(k)
        if o is None: return self.st.ghost['errno_in']        # untouched
        return self.st.S(self.ex._load_at(self.st, o, TY32, 0), 32)
    def bits(self, ty, v):
        if ty == 'd128': return self.st.U(v[0], 64) + self.st.U(v[1], 64) * (1 << 64)
        return self.st.U(v, DECW[ty])
    def retbits(self):
        ty = self.c.ret
        if ty in DECW: return self.bits(ty, self.st.ret)
        raise ValueError
    def mode(self):
        """the stored rounding mode on return"""
        if 'mode_out' in self.st.ghost: return self.st.ghost['mode_out']
        o = next((o for k, o in self.st.mem.items() if k[-1] == '__bid_IDEC_glbround'), None)
        if o is None: return self.st.ghost['rm']        # untouched
        return self.st.U(self.ex._load_at(self.st, o, TY32, 0), 32)
    def retint(self):
        w, sg = INTW[self.c.ret]
        v = self.st.ret
        if w == 128: v = self.st.U(v[0], 64) + self.st.U(v[1], 64) * (1 << 64)
        if isinstance(v, Cond): v = self.st.b2i(v)
        return self.st.S(v, w) if sg else self.st.U(v, w)
    def retdec(self):
        return spec.decode(self.ex, self.st, forms.F[DECW[self.c.ret]], self.retbits())
    def out(self, i):
        """final contents of out pointer argument i (a poly; decimals as bits)"""
        ty = self.c.args[i][1:]
        p = self.args[i]
        o = self.st.mem[p.obj]
        n = DECW.get(ty) or INTW[ty][0]
        v = self.ex._load_int(self.st, o, n // 8, 0)
        if ty in INTW and INTW[ty][1]: return self.st.S(v, n)
        return v
    def dec(self, w, bits): return spec.decode(self.ex, self.st, forms.F[w], bits)

TY32 = ir.Ty(); TY32.k = 'i'; TY32.n = 32; TY32.size = 4; TY32.align = 4

def pass_args(c, st, vals):
    """values as the ABI passes them"""
    out = []
    for a, v in zip(c.args, vals):
        if a in DECW: out += halves(st, v.bits) if a == 'd128' else [v.bits]
        elif a in INTW: out += halves(st, v) if INTW[a][0] == 128 else [v]
        else: out.append(v)
    return out
def halves(st, p):
    hi = st.div(p, 1 << 64)
    return [st.simp(p - hi * (1 << 64)), hi]

def mk_inputs(c, st, case):
    fi = iter(case[0]); vals = []
    for i, a in enumerate(c.args):
        if a in DECW:
            f = forms.F[DECW[a]]
            want = next(fi)
            mk = dict(forms.forms(f, 'x%d' % i))[want]
            vals.append(mk(st))
        elif a in INTW:
            w, sg = INTW[a]
            vals.append(var('n%d.%s' % (i, a), -(1 << (w - 1)) if sg else 0, (1 << (w - sg)) - 1))
        elif a[0] == 'P':
            ty = a[1:]; w = DECW.get(ty) or INTW[ty][0]
            k = st.new_obj('out%d' % i, w // 8)
            st.mem[k].cells[0] = (w // 8, var('out%d.%s' % (i, ty), 0, (1 << w) - 1)) if w <= 64 else None
            if w > 64:
                st.mem[k].cells[0] = (8, var('out%dl' % i, 0, (1 << 64) - 1)); st.mem[k].cells[8] = (8, var('out%dh' % i, 0, (1 << 64) - 1))
            vals.append(Ptr(k, const(0)))
        else: raise ValueError(a)
    return vals

# ------------------------------------------------------------------ one task
PROG = None; CONTRACTS = None; REG = None
def setup_worker(prog, cts): 
    global PROG, CONTRACTS
    PROG = prog; CONTRACTS = cts

def inputs_of(c, asg, st, vals, rm):
    """concrete argument bit patterns under an assignment"""
    ev = solver.Ev(solver.Asg(asg), st)
    out = []
    for a, v in zip(c.args, vals):
        if a in DECW: out.append(ev.ev(v.bits))
        elif a in INTW: out.append(ev.ev(v) % (1 << INTW[a][0]))
        else: out.append(0)
    return ev.ev(rm), out

def run_task(args):
    ci, case, opts = args
    c = CONTRACTS[ci]
    t0 = time.time()
    res = {'fn': c.fn, 'case': (case[0], None if case[1] is None else (case[1][0],)), 'goals': 0, 'dis': 0, 'simp': 0, 'z3': 0, 'cvc5': 0, 'paths': 0, 'insts': 0,
           'fails': [], 'undis': [], 'witness': [], 'used': [], 'inl': [], 'z3_time': 0.0}
    z0 = dict(solver.STATS)
    st = XState()
    rm = var('rm', 0, 4)
    ex = Executor(PROG, dict(base_contracts.BASE, **c.callees))
    ex.global_init_hook['__bid_IDEC_glbround'] = lambda st, o: o.cells.__setitem__(0, (4, rm))
    ex.deadline = opts.get('deadline')
    try:
        vals = mk_inputs(c, st, case)
        st.ghost['args'] = vals; st.ghost['rm'] = rm; st.ghost['errno_in'] = var('errno0', -(1 << 31), (1 << 31) - 1)
        for cond in (c.pre(vals) if c.pre else []) + c.excluded(vals, rm): st.assume(cond)
        if case[1] is not None:
            for cond in case[1][1](vals, rm): st.assume(cond)
    except Infeasible:
        res['wall'] = time.time() - t0; res['empty'] = True
        return res
    if hasattr(c, 'setup'): c.setup(ex, st)
    def fail(kind, name, st, asg, detail=''):
        inp = None
        if asg is not None:
            try: inp = inputs_of(c, asg, st, vals, rm)
            except Exception as e: detail += ' (%r)' % e
        res['fails'].append({'kind': kind, 'goal': name, 'inputs': inp, 'detail': detail[:600]})
    def post(s):
        e = E(ex, s, c)
        c.ensures(e)
        if not e.G.gs: raise Unsupported('no goal on a path')
        for n, g in e.G.gs:
            g = s.simp_cond(g)
            res['goals'] += 1
            if g.k == 'T': res['dis'] += 1; res['simp'] += 1; continue
            t1 = time.time()
            r, asg = solver.check(s, [not_(g)], timeout=c.timeout, want_model=True)
            if SLOW and time.time() - t1 > SLOW: print('SLOW %.1f %s %s' % (time.time() - t1, r, n), '\n  GOAL', str(g), '\n BND', *['%s in %s' % (Poly(t,0) if not hasattr(t,'t') else t, b) for t, b in s.bnd.items()], *['\n   pc ' + str(s.simp_cond(x)) for x in s.pc], *['\n   sub %s := %s' % (ATOMS[i], v) for i, v in s.sub.items()], sep=' ', file=sys.stderr, flush=True)
            if r == 'unsat': res['dis'] += 1; res['z3'] += 1
            elif r == 'sat': fail('sat', n, s, asg, str(g))
            else: res['undis'].append('%s: unknown' % n)
        if len(res['witness']) < 4 and s.model is not None:
            try: res['witness'].append(inputs_of(c, s.model, s, vals, rm))
            except Exception: pass
        if len(res['fails']) > 6: raise Stop()
    def onsafety(s, e):
        r, asg = solver.check(s, [], timeout=c.timeout, want_model=True)
        if r == 'unsat': return
        fail('safety', str(e), s, asg)
    ex.on_safety = onsafety
    try:
        fn = PROG.find(c.fn)
        if fn is None: raise Unsupported('no definition of ' + c.fn)
        ex.run(fn, c.build(st, vals) if c.internal else pass_args(c, st, vals), st, post)
    except Stop: pass
    except Timeout: res['undis'].append('time limit')
    except Unsupported as e: res['undis'].append('unsupported: ' + str(e)[:300])
    except RecursionError: res['undis'].append('recursion limit')
    except MemoryError: res['undis'].append('memory')
    except Exception as e: res['undis'].append('engine: %s' % traceback.format_exc()[-3000:])
    if ex.npaths == 0 and not res['fails'] and not res['undis']: res['undis'].append('vacuous: no path')
    res['paths'] = ex.npaths; res['insts'] = ex.ninsts
    res['used'] = sorted(ex.used_contracts); res['inl'] = sorted(ex.inlined)
    res['z3_time'] = solver.STATS['z3_time'] - z0['z3_time']
    res['cvc5'] = solver.STATS['cvc5_unsat'] - z0['cvc5_unsat']
    res['wall'] = time.time() - t0
    return res
TASKS = None; SLOW = float(os.environ.get('VERIF_SLOW', '0'))
def run_task_i(k): return run_task(TASKS[k])
class Stop(Exception): pass

# ------------------------------------------------------------------ concrete evaluation of a postcondition
def classify(f, bits):
    """form name + Dec with constant fields of a concrete bit pattern"""
    k, t = f.k, f.t
    d = forms.Dec(); d.f = f; d.bits = const(bits); d.s = const(bits >> (k - 1)); d.name = 'c'
    body = bits & ((1 << (k - 1)) - 1)
    if body >> (k - 3) == 3:
        if body >> (k - 5) == 15:
            r = body - (0xf << (k - 5))
            if r >> (k - 6):
                r -= 1 << (k - 6)
                if r >> (k - 7): d.kind = d.form = 'snan'; r -= 1 << (k - 7)
                else: d.kind = d.form = 'qnan'
            else: d.kind = d.form = 'inf'
            d.r = const(r); d.canon = None
            return d
        low = body - (3 << (k - 3))
        e = low >> (t - 2); c = (low & ((1 << (t - 2)) - 1)) + (1 << t); large = True
    else:
        e = body >> t; c = body & ((1 << t) - 1); large = False
    d.kind = 'fin'; d.e = const(e)
    if c > f.cmax: d.form = 'large_nc' if large else 'small_nc'; d.cf = const(c); d.c = const(0); d.canon = False
    else: d.form = 'large' if large else 'small'; d.c = const(c); d.canon = True
    return d

def concrete_inputs(c, st, inp):
    vals = []
    for i, (a, b) in enumerate(zip(c.args, inp)):
        if a in DECW: vals.append(classify(forms.F[DECW[a]], b))
        elif a in INTW:
            w, sg = INTW[a]; b %= 1 << w
            if sg and b >> (w - 1): b -= 1 << w
            vals.append(const(b))
        else:
            ty = a[1:]; w = DECW.get(ty) or INTW[ty][0]
            k = st.new_obj('out%d' % i, w // 8)
            vals.append(Ptr(k, const(0)))
    return vals

def eval_post(c, rm, inp, result):
    """truth of the postcondition for concrete inputs and a concrete native
    result = dict(ret, outs, exc, errno): list of failed goal names, or None
    when the inputs are outside the precondition"""
    st = XState()
    ex = Executor(PROG, dict(base_contracts.BASE))
    vals = concrete_inputs(c, st, inp)
    st.ghost['args'] = vals; st.ghost['rm'] = const(rm)
    for cond in (c.pre(vals) if c.pre else []) + c.excluded(vals, const(rm)):
        if st.simp_cond(B(cond)).k != 'T': return None
    ret = result['ret']
    if c.ret in DECW: st.ret = [const(ret & (2**64 - 1)), const(ret >> 64)] if c.ret == 'd128' else const(ret)
    elif c.ret in INTW: st.ret = [const(ret & (2**64 - 1)), const(ret >> 64)] if INTW[c.ret][0] == 128 else const(ret)
    for i, (a, v) in enumerate(zip(c.args, vals)):
        if a[0] == 'P':
            o = st.mem[v.obj]; w = o.size; x = result['outs'][i]
            if w > 8: o.cells[0] = (8, const(x & (2**64 - 1))); o.cells[8] = (8, const(x >> 64))
            else: o.cells[0] = (w, const(x))
    st.ghost['exc'] = result['exc']
    if result['errno'] != 0 or True:
        o = Obj('errno', 4); o.owner = st.id; o.cells[0] = (4, const(result['errno'])); st.mem[('g', '', 'errno')] = o
    st.ghost['errno_in'] = const(0)
    st.ghost['mode_out'] = const({0: 0, 1: 3, 2: 2, 3: 1, 4: 4}.get(result.get('mode'), -1))
    e = E(ex, st, c)
    try: c.ensures(e)
    except Fork as f:
        raise RuntimeError('postcondition of %s not decided on concrete values: %s' % (c.fn, f.why))
    bad = []
    for n, g in e.G.gs:
        g = st.simp_cond(g)
        if g.k == 'F': bad.append(n)
        elif g.k != 'T': raise RuntimeError('undetermined goal %s' % n)
    return bad
