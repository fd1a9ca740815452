"""Frame condition of the decimal rounding mode, function by function over the IR
of every translation unit of the library.

Contract of every function but fe_dec_setround: the mode on return is the mode
on entry.  A function that neither stores to the mode, nor takes its address, nor
(transitively) calls one that may, satisfies it by the contracts of its callees.
The others are executed from the exported functions that reach them over an
abstract state (mode, integer constants, saved modes): every path, loops to a
fixed point."""
import re
import ir
VAR = '__bid_IDEC_glbround'
SET = {'fe_dec_setround', '__fe_dec_setround'}; GET = {'fe_dec_getround', '__fe_dec_getround'}
BID = {0: 0, 1: 3, 2: 2, 3: 1, 4: 4}         # FE_DEC_* to the stored value
TOP = ('top',); INIT = ('I',)
class Unknown(Exception): pass
def base(n): return n[5:] if n.startswith('__GI_') else n

class Lib:
    def __init__(self, paths):
        """paths: unit -> .ll"""
        self.mods = {}; self.fn = {}; self.bad = []; self.alias = {}
        self.count = 0; self.text = {}; self.unit_fns = {}
        calls = {}                                  # function -> referenced symbols
        for u, p in paths.items():
            s = open(p).read()
            fs = [base(m.group(1).strip('"').replace('\\01', '')) for m in re.finditer(r'^define [^@\n]*@("[^"]*"|[\w.$-]+)\(', s, re.M)]
            self.count += len(fs); self.unit_fns[u] = fs; self.text[u] = s
            for m in re.finditer(r'^@("[^"]*"|[\w.$-]+) = [^\n]*\balias\b[^\n]*@("[^"]*"|[\w.$-]+)', s, re.M): self.alias[base(m.group(1).strip('"'))] = (u, m.group(2).strip('"'))
        # functions whose text mentions the mode
        touch = {}                                  # (unit, fn) -> Func
        bodies = {}                                 # (unit, fn) -> set of symbols
        for u, s in self.text.items():
            for m in re.finditer(r'^define [^@\n]*@("[^"]*"|[\w.$-]+)\(.*?^}', s, re.M | re.S):
                n = m.group(1).strip('"').replace('\\01', '')
                bodies[(u, n)] = {x.strip('"').replace('\\01', '') for x in re.findall(r'@("[^"]*"|[\w.$-]+)', m.group(0)[m.group(0).index('('):])}
            for m in re.finditer(r'^@("[^"]*"|[\w.$-]+) = (.*)$', s, re.M):
                if ' alias ' not in m.group(2) and m.group(1) != '@' + VAR:
                    refs = {base(x) for x in re.findall(r'@([\w.$-]+)', m.group(2))}
                    if refs & (SET | {VAR, '__dfp_set_round'}): self.bad.append((u, m.group(1), 'a static object holds the address of the rounding mode or of its setter'))
        self.bodies = bodies
        self.glob = {}
        for (u, n) in bodies:
            if not re.search(r'^define [^@\n]*\binternal\b[^@\n]*@"?%s"?\(' % re.escape(n), self.text[u], re.M): self.glob.setdefault(base(n), (u, n))
        for a, (u, t) in self.alias.items():
            if (u, t) in bodies: self.glob.setdefault(a, (u, t))
        # may write the mode: stores to it or takes its address, or calls such a function
        self.writer = set()
        for k in bodies:
            if VAR in bodies[k] and self.writes(k): self.writer.add(k)
        ch = True
        while ch:
            ch = False
            for k, syms in bodies.items():
                if k in self.writer: continue
                for x in syms:
                    t = self.resolve(k[0], x)
                    if base(x) in SET or t in self.writer: self.writer.add(k); ch = True; break
    def mod(self, u):
        if u not in self.mods:
            p = None
            m = ir.Module.__new__(ir.Module); m.unit = u
            m.types = {}; m.funcs = {}; m.globals = {}; m.aliases = {}; m._tc = {}; m._raw = {}; m._typesrc = {}
            m.parse(self.text[u]); self.mods[u] = m
        return self.mods[u]
    def func(self, k): return self.mod(k[0]).func(k[1])
    def writes(self, k):
        """anything but loads of the mode"""
        f = self.func(k); addr = {'@' + VAR}
        for b in f.blocks:
            for i in f.insts(b):
                if i[0] == 'call' and 'threadlocal.address' in i[3]:
                    if i[4][0][1] == ('g', VAR): addr.add(i[1])
        for b in f.blocks:
            for i in f.insts(b):
                if i[0] == 'load' or i[0] == 'call' and 'threadlocal.address' in i[3]: continue
                if i[0] == 'call':
                    t = self.resolve(k[0], i[3]) if i[3].startswith('@') else None
                    if t and all(self.readonly(t, n) for n, x in enumerate(i[4]) if x[1] == ('g', VAR) or x[1][0] == 'r' and x[1][1] in addr): continue
                if any(a[1:] in str(i) if a[0] == '@' else re.search(re.escape(a) + r"'", str(i)) for a in addr): return True
        return False
    def readonly(self, k, n, seen=()):
        """the n-th parameter, a pointer, is only loaded from"""
        if (k, n) in seen: return True
        f = self.func(k)
        if n >= len(f.params): return False
        p = f.params[n][0]
        for b in f.blocks:
            for i in f.insts(b):
                if not re.search("'" + re.escape(p) + "'", str(i)): continue
                if i[0] == 'load': continue
                if i[0] == 'call' and i[3].startswith('@'):
                    t = self.resolve(k[0], i[3])
                    if t and all(self.readonly(t, m, seen + ((k, n),)) for m, x in enumerate(i[4]) if x[1] == ('r', p)): continue
                return False
        return True
    def resolve(self, u, n):
        n = n.lstrip('@')
        if (u, n) in self.bodies: return (u, n)
        if n in self.alias and self.alias[n][0] == u and (u, self.alias[n][1]) in self.bodies: return self.alias[n]
        return self.glob.get(base(n))

class Run:
    """every abstract path of one function; exits: set of (mode, returned value)"""
    MAXV = 40
    def __init__(self, lib, depth=0, stack=()): self.lib = lib; self.depth = depth; self.paths = 0; self.stack = stack
    def call(self, k, mode, args, mem):
        if self.depth > 12: raise Unknown('call depth')
        r = Run(self.lib, self.depth + 1, self.stack + (k,))
        out = r.go(k, mode, args, mem); self.paths += r.paths
        return out
    def go(self, k, mode, args, mem):
        f = self.lib.func(k)
        if f is None: raise Unknown('no body of ' + k[1])
        env = {p[0]: (args[i] if i < len(args) else TOP) for i, p in enumerate(f.params)}
        todo = [(f.entry, None, mode, env, dict(mem))]; seen = set(); visits = {}; out = set()
        while todo:
            b, prev, mode, env, mem = todo.pop()
            if b not in f.blocks and b.lstrip('%') in f.blocks: b = b.lstrip('%')
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > self.MAXV:
                env = {x: v for x, v in env.items() if v[0] in ('get', 'raw', 'ptr')}; mem = {x: v for x, v in mem.items() if v[0] in ('get', 'raw', 'ptr')}
            env = {x: v for x, v in env.items() if v != TOP}
            key = (b, prev, mode, frozenset(env.items()), frozenset(mem.items()))
            if key in seen: continue
            seen.add(key)
            if len(seen) > 50000: raise Unknown('abstract states')
            states = [(mode, env, mem)]
            ins = f.insts(b)
            new = {}
            for i in ins:
                if i[0] == 'phi':
                    v = next((o for p, o in i[3] if p == prev or p.lstrip('%') == str(prev).lstrip('%')), None)
                    new[i[1]] = self.val(v, env) if v else TOP
            env = dict(env, **new)
            states = [(mode, env, dict(mem))]
            for i in ins:
                if i[0] == 'phi': continue
                if i[0] in ('br', 'cbr', 'switch', 'ret', 'unreachable'): break
                nxt = []
                for s in states: nxt += self.step(k, i, *s)
                states = nxt
            for mode, env, mem in states:
                if i[0] == 'ret':
                    out.add((mode, self.val(i[2], env) if i[2] else TOP, frozenset((x, v) for x, v in mem.items() if x[0] != (k, self.depth)))); self.paths += 1
                elif i[0] == 'br': todo.append((i[1], b, mode, env, mem))
                elif i[0] == 'cbr':
                    c = self.val(i[1], env)
                    if c[0] != 'c' or c[1]: todo.append((i[2], b, mode, env, mem))
                    if c[0] != 'c' or not c[1]: todo.append((i[3], b, mode, env, mem))
                elif i[0] == 'switch':
                    c = self.val(i[2], env)
                    if c[0] == 'c': todo.append((next((t for v, t in i[4] if v == c[1]), i[3]), b, mode, env, mem))
                    else:
                        for t in {t for _, t in i[4]} | {i[3]}: todo.append((t, b, mode, env, mem))
        return out
    def val(self, o, env):
        if o[0] == 'r': return env.get(o[1], TOP)
        if o[0] == 'c': return ('c', o[1])
        if o[0] == 'g' and o[1] == VAR: return ('addr',)
        return TOP
    def step(self, k, i, mode, env, mem):
        op = i[0]
        def ret(v, mode=mode, mem=mem):
            if len(i) > 1 and isinstance(i[1], str): return [(mode, dict(env, **{i[1]: v}), mem)]
            return [(mode, env, mem)]
        if op == 'alloca': return ret(('ptr', (k, self.depth), i[1], 0))
        if op == 'load':
            p = self.val(i[3], env)
            if p == ('addr',): return ret(('raw', mode))
            if p[0] == 'ptr' and p[3] is not None: return ret(mem.get((p[1], p[2], p[3]), TOP))
            return ret(TOP)
        if op == 'store':
            p = self.val(i[3], env); v = self.val(i[2], env)
            if v == ('addr',): raise Unknown('the address of the rounding mode is stored')
            if p == ('addr',): return [(self.raw(v, mode), env, mem)]
            if p[0] == 'ptr':
                m = dict(mem)
                if p[3] is None: m = {x: y for x, y in m.items() if x[:2] != (p[1], p[2])}
                else:
                    n = i[1].size
                    m = {x: y for x, y in m.items() if x[:2] != (p[1], p[2]) or x[2] + 4 <= p[3] or x[2] >= p[3] + n}
                    if v != TOP: m[(p[1], p[2], p[3])] = v
                return [(mode, env, m)]
            return [(mode, env, {x: y for x, y in mem.items() if not self.escaped(x, mem)})]
        if op == 'gep':
            p = self.val(i[3][0][1], env)
            if p == ('addr',): raise Unknown('pointer arithmetic on the rounding mode')
            if p[0] != 'ptr': return ret(TOP)
            off = p[3]; t = i[2]
            for q, (tt, o) in enumerate(i[3][1:]):
                v = self.val(o, env)
                if v[0] != 'c' or off is None: off = None; break
                if q == 0: off += t.size * v[1]
                elif t.k == 'struct': off += t.offs[v[1]]; t = t.e[v[1]]
                else: t = t.e; off += t.size * v[1]
            return ret(('ptr', p[1], p[2], off))
        if op == 'icmp':
            a, b = self.val(i[4], env), self.val(i[5], env)
            if a[0] == b[0] == 'c':
                w = i[3].n if i[3].k == 'i' else 64; M = (1 << w) - 1
                ua, ub = a[1] & M, b[1] & M; s = lambda x: x - (1 << w) if x >> (w - 1) else x
                sa, sb = s(ua), s(ub)
                return ret(('c', int({'eq': ua == ub, 'ne': ua != ub, 'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[i[2]])))
            if a == b and a[0] in ('get', 'raw') and i[2] in ('eq', 'ne'): return ret(('c', int(i[2] == 'eq')))
            return ret(TOP)
        if op == 'select':
            c = self.val(i[3], env); a, b = self.val(i[4], env), self.val(i[5], env)
            if c[0] == 'c': return ret(a if c[1] else b)
            return ret(a) if a == b else ret(a) + ret(b)
        if op == 'cast':
            v = self.val(i[4], env)
            if i[2] == 'ptrtoint' and v in (('addr',),): raise Unknown('the address of the rounding mode is an integer')
            if v[0] == 'c': 
                w = i[3].n
                x = v[1] & ((1 << w) - 1)
                if i[2] == 'sext' and x >> (w - 1): x -= 1 << w
                if i[2] == 'trunc': x = v[1] & ((1 << i[5].n) - 1)
                return ret(('c', x) if i[2] in ('sext', 'zext', 'trunc') else TOP)
            return ret(v if i[2] in ('sext', 'zext', 'bitcast') and v[0] != 'top' else TOP)
        if op == 'copy': return ret(self.val(i[3], env))
        if op == 'call':
            n = i[3]; av = [self.val(a[1], env) for a in i[4]]
            if 'threadlocal.address' in n: return ret(av[0])
            if n.startswith('@llvm.lifetime') or n.startswith('@llvm.dbg'): return [(mode, env, mem)]
            if n.startswith('@'):
                bn = base(n[1:])
                if bn in SET:
                    m2 = self.setmode(av[0], mode)
                    return ret(('c', 0) if m2 != TOP else TOP, m2)
                if bn in GET: return ret(('get', mode))
                t = self.lib.resolve(k[0], n[1:])
                if t in self.lib.writer and t != k and t not in self.stack:     # recursion: by its own contract, by induction
                    out = []
                    for m2, v, mm in self.call(t, mode, av, mem): out += ret(v, m2, dict(mm))
                    return out
            # by its contract: the mode is kept; the memory its arguments point to is not
            if ('addr',) in av:
                t = self.lib.resolve(k[0], n) if n.startswith('@') else None
                if not t or not all(self.lib.readonly(t, m) for m, a in enumerate(av) if a == ('addr',)): raise Unknown('the address of the rounding mode is passed to ' + n)
            esc = {(v[1], v[2]) for v in av if v[0] == 'ptr'}
            return ret(TOP, mode, {x: y for x, y in mem.items() if x[:2] not in esc and not self.escaped(x, mem)})
        return ret(TOP) if len(i) > 1 and isinstance(i[1], str) and i[1].startswith('%') else [(mode, env, mem)]
    def escaped(self, x, mem): return any(v[0] == 'ptr' and (v[1], v[2]) == x[:2] for v in mem.values())
    def raw(self, v, mode):
        if v[0] == 'raw': return v[1]
        return ('bid', v[1]) if v[0] == 'c' else TOP
    def setmode(self, v, mode):
        if v[0] == 'get': return v[1]
        if v[0] == 'c':
            return ('bid', BID[v[1]]) if v[1] in BID else mode
        return TOP

def analyse(paths, objs_without_ir, nm):
    """-> list of (function, obligation, ok, detail), count of functions"""
    lib = Lib(paths); R = []
    decl = None
    for u, s in lib.text.items():
        m = re.search(r'^@%s = (?!external)([^\n]*)' % VAR, s, re.M)
        if m and 'external' not in m.group(1).split(' global')[0]: decl = m.group(1)
    R.append((VAR, 'the rounding mode is thread-local', bool(decl and 'thread_local' in decl), str(decl)))
    R.append((VAR, 'a thread starts rounding to nearest, halves to even', bool(decl and re.search(r'global i32 0\b', decl)), str(decl)))
    for u, n, d in lib.bad: R.append((n, 'the rounding mode is private to its setter', False, d))
    nfn = lib.count
    for u in objs_without_ir:
        syms = nm(u)
        hit = [x for x in syms if base(x) in SET or x in (VAR, '__dfp_set_round')]
        R.append((u, 'the object refers neither to the mode nor to its setter', not hit, ','.join(hit)))
    for k, syms in sorted(lib.bodies.items()):
        if k not in lib.writer: R.append((k[1], 'the mode on return is the mode on entry', True, 'neither writes the mode nor calls a writer'))
    exported = {}
    for k in sorted(lib.writer):
        if base(k[1]) in SET or VAR in lib.bodies[k] and base(k[1]) == '__dfp_set_round': continue
        internal = bool(re.search(r'^define [^@\n]*\binternal\b[^@\n]*@"?%s"?\(' % re.escape(k[1]), lib.text[k[0]], re.M))
        taken = any(k2 for k2, sy in lib.bodies.items() if k[1] in sy and lib.resolve(k2[0], k[1]) == k and not called_only(lib, k2, k[1]))
        if internal and not taken: continue             # executed in the functions that call it
        try:
            r = Run(lib, 0, (k,)); outs = r.go(k, INIT, [], {})
            bad = [o for o in outs if o[0] != INIT]
            R.append((base(k[1]), 'the mode on return is the mode on entry', not bad, 'paths to return: %d; modes on return: %s' % (r.paths, sorted({str(o[0]) for o in outs}))))
        except Unknown as e: R.append((base(k[1]), 'the mode on return is the mode on entry', False, 'not decided: ' + str(e)))
    return R, nfn
def called_only(lib, k, n):
    f = lib.func(k)
    for b in f.blocks:
        for i in f.insts(b):
            s = str(i[4:] if i[0] == 'call' else i)
            if re.search(r"'g', '%s'" % re.escape(n), s): return False
    return True

def check(build, log=lambda *a: None):
    """the whole library: IR of every unit, then the analysis"""
    import time, subprocess, os, extract
    from concurrent.futures import ThreadPoolExecutor
    t0 = time.time()
    def one(u):
        try: return u, build.ll(u)
        except extract.ExtractError: return u, None
    with ThreadPoolExecutor(8) as tp: r = list(tp.map(one, build.units))
    log('frame: units extracted')
    def nm(u):
        o = os.path.join(build.b, u + '.os')
        return [l.split()[-1] for l in subprocess.run(['nm', o], capture_output=True, text=True, check=True).stdout.split('\n') if l.split()]
    R, n = analyse({u: p for u, p in r if p}, [u for u, p in r if not p], nm)
    log('frame: analysed', n)
    return {'results': R, 'functions': n, 'units': len(r), 'seconds': round(time.time() - t0, 1)}
