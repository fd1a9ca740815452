"""Forward symbolic execution of extracted LLVM IR, path by path, with callee
contracts.  Every feasible path is followed to its return; loops are unrolled
by execution, and a path that does not end within the step limit is an error
(no path is cut off silently)."""
import os, time, itertools, struct
from term import *
from term import ATOMS
from state import State, Fork, Infeasible, Unsupported, Table, INF
import solver, ir

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, self.off)
NULL = Ptr(None, const(0))
class FnPtr:
    __slots__ = ('name', 'unit')
    def __init__(self, name, unit): self.name = name; self.unit = unit
class Lazy:
    """value chosen by a condition not decided yet (resolved at first use)"""
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class FP:
    """double/float produced by an integer conversion (value = poly, rounded)"""
    __slots__ = ('p', 'w', 'bits', 'fuzz')
    def __init__(self, p, w, bits=None, fuzz=False): self.p = p; self.w = w; self.bits = bits; self.fuzz = fuzz

class Obj:
    __slots__ = ('name', 'size', 'cells', 'owner', 'const', 'init')
    def __init__(self, name, size, const=False):
        self.name = name; self.size = size; self.cells = {}; self.owner = None; self.const = const; self.init = None
    def copy(self, owner):
        o = Obj(self.name, self.size, self.const); o.cells = dict(self.cells); o.owner = owner; o.init = self.init
        return o

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'prev', 'ip', 'dst', 'allocas')
    def copy(self):
        f = Frame()
        f.fn = self.fn; f.regs = dict(self.regs); f.blk = self.blk; f.prev = self.prev; f.ip = self.ip; f.dst = self.dst; f.allocas = self.allocas
        return f

class XState(State):
    def __init__(self):
        super().__init__()
        self.frames = []
        self.mem = {}
        self.ghost = {}
        self.steps = 0
        self.ret = None
        self.trace = []
        self.nobj = 0
    def clone(self):
        s = XState.__new__(XState)
        self.clone_core(s)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.ghost = dict(self.ghost); s.steps = self.steps; s.ret = self.ret
        s.trace = list(self.trace); s.nobj = self.nobj
        # both now share objects: neither owns them
        self.id = next(State._ids)
        return s
    # ---------------------------------------------------------- memory
    def new_obj(self, name, size):
        self.nobj += 1
        k = '%s#%d' % (name, self.nobj)
        o = Obj(name, size); o.owner = self.id
        self.mem[k] = o
        return k
    def wobj(self, k):
        o = self.mem[k]
        if o.owner != self.id:
            o = o.copy(self.id); self.mem[k] = o
        return o

class Program:
    """all units of the library, loaded on demand"""
    def __init__(self, build, symtab):
        self.build = build; self.symtab = symtab; self.mods = {}
        self.contracts = {}
    def mod(self, unit):
        m = self.mods.get(unit)
        if m is None:
            m = self.mods[unit] = ir.Module(self.build.ll(unit), unit)
        return m
    def find(self, name, unit=None):
        """(module, Func)"""
        if unit is not None:
            f = self.mod(unit).func(name)
            if f is not None: return f
        u = self.symtab.get(name)
        if u is None: return None
        return self.mod(u).func(name)
    def find_global(self, name, unit):
        m = self.mod(unit)
        if name in m.globals:
            g = m.global_init(name)
            if g[1] is not None: return m, g
        u = self.symtab.get(name)
        if u is None: raise Unsupported('external global ' + name)
        m = self.mod(u)
        if name in m.aliases: name = m.aliases[name]
        return m, m.global_init(name)

def build_symtab(bdir):
    """symbol -> unit, from nm over the native objects"""
    import subprocess, glob
    objs = sorted(glob.glob(bdir + '/*.os'))
    out = subprocess.run(['nm', '-A', '--defined-only'] + objs, capture_output=True, text=True).stdout
    tab = {}
    for l in out.splitlines():
        fn, rest = l.split(':', 1)
        p = rest.split()
        if len(p) >= 3 and p[1] in 'TDBRVWCGS':
            nm = p[2]
            u = os.path.basename(fn)[:-3]
            if p[1] in 'VW' and nm in tab: continue
            tab[nm] = u
            if nm.startswith('__GI_'): tab.setdefault(nm[5:], u)
    return tab

TABLE_ATOM_MIN = 200
TABS = {}
from math import gcd

def succs(fn, b):
    t = fn.insts(b)[-1]
    if t[0] == 'br': return [t[1]]
    if t[0] == 'cbr': return [t[2], t[3]]
    if t[0] == 'switch': return [t[3]] + [x for _, x in t[4]]
    return []
def ipdom(fn):
    """immediate post-dominators"""
    order = []; seen = set()
    todo = [(fn.entry, 0)]; seen.add(fn.entry)
    sc = {}
    while todo:
        b, k = todo.pop()
        if b not in sc: sc[b] = succs(fn, b)
        if k < len(sc[b]):
            todo.append((b, k + 1)); y = sc[b][k]
            if y not in seen: seen.add(y); todo.append((y, 0))
        else: order.append(b)
    # order: post-order of the CFG = a good order for the reverse graph
    num = {b: i for i, b in enumerate(order)}
    EXIT = None
    idom = {}
    def up(b): return num[b] if b is not None else -1
    def meet(x, y):
        while x != y:
            if up(x) > up(y): x = idom[x]
            else: y = idom[y]
        return x
    changed = True; it = 0
    while changed and it < 40:
        changed = False; it += 1
        for b in order:
            ss = [y for y in sc[b] if y in idom or y == EXIT]
            if not sc[b]: n = EXIT
            elif not ss: continue
            else:
                n = ss[0]
                for y in ss[1:]:
                    n = meet(n, y) if n is not None and y is not None else None
            if b not in idom or idom[b] != n: idom[b] = n; changed = True
    return {} if changed else idom

class Executor:
    def __init__(self, prog, contracts=None, max_steps=200000, branch_timeout=500):
        self.prog = prog
        self.contracts = contracts or {}
        self.max_steps = max_steps
        self.branch_timeout = branch_timeout
        self.npaths = 0; self.nforks = 0; self.nlocal = 0; self.ninsts = 0
        self.called = set(); self.inlined = set(); self.used_contracts = set()
        self.joins = {}; self.nmerged = 0; self.regions = {}; self.ipdoms = {}; self.rstat = {}
        self.const_objs = {}
        self.tables = {}
        self.global_init_hook = {}     # name -> function(st, key, size) giving symbolic initial contents
        self.deadline = None
        self.on_safety = None
    # ---------------------------------------------------------- globals
    def global_ptr(self, st, name, unit):
        m = self.prog.mod(unit)
        real = m.aliases.get(name, name)
        # function?
        if real in m._raw: return FnPtr(real, unit)
        if name not in m.globals and real not in m.globals: return FnPtr(real, unit)
        mm, g = self.prog.find_global(real, unit)
        t, init, isc, tl = g
        key = ('g', mm.unit if re_internal(mm, real) else '', real)
        if key not in st.mem:
            if isc or real in CONST_TABLES or real.startswith('__bid_') and real not in ('__bid_IDEC_glbflags', '__bid_IDEC_glbround') and '[' in mm.globals[real][:200]:
                o = self.const_objs.get(key)
                if o is None:
                    o = Obj(real, t.size, True); o.init = (mm, t, init)
                    fill(o, mm, t, init, self.prog)
                    self.const_objs[key] = o
                st.mem[key] = o
            else:
                o = Obj(real, t.size)
                o.owner = st.id
                h = self.global_init_hook.get(real)
                st.mem[key] = o
                if h: h(st, o)
                elif init is not None: fill(o, mm, t, init, self.prog)
        return Ptr(key, const(0))
    # ---------------------------------------------------------- operands
    def val(self, st, fr, t, o):
        k = o[0]
        if k == 'r':
            v = fr.regs[o[1]]
            if type(v) is Lazy:
                v = self.force(st, v)
                fr.regs[o[1]] = v
            return v
        if k == 'c':
            if t.k == 'i' and t.n == 1: return TRUE if o[1] & 1 else FALSE
            return const(o[1])
        if k == 'g': return self.global_ptr(st, o[1], fr.fn.mod.unit)
        if k == 'null': return NULL
        if k == 'undef': return self.undef(t)
        if k == 'zero': return self.zero(t)
        if k == 'gep':
            return self.gep(st, fr, o[1], [(tt, self.val(st, fr, tt, v), v) for tt, v in o[2]])
        if k == 'agg': return [self.val(st, fr, tt, v) for tt, v in o[1]]
        if k == 'f': return FP(None, 64, ('const', o[1]))
        if k == 'fx':
            s = o[1]
            if s[2] in 'KLMHR': raise Unsupported('fp constant')
            return FP(None, 64, ('const', struct.unpack('>d', bytes.fromhex(s[2:].zfill(16)))[0]))
        if k == 'cast':
            return self.cast(st, o[1], o[2], self.val(st, fr, o[2], o[3]), o[4])
        raise Unsupported('operand %r' % (o,))
    def force(self, st, v):
        while type(v) is Lazy:
            c = st.simp_cond(v.c)
            if c.k == 'T': v = v.a
            elif c.k == 'F': v = v.b
            else: raise Fork([c, not_(c)], 'merged value')
        return v
    def undef(self, t):
        if t.k == 'i':
            if t.n == 1: return eq0(fresh('undef', 0, 1) - 1)
            return fresh('undef', 0, (1 << t.n) - 1)
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return [self.undef(e) for e in t.e]
        if t.k == 'arr': return [self.undef(t.e) for _ in range(t.n)]
        if t.k in ('double', 'float'): return FP(None, 64, ('undef',))
        raise Unsupported('undef ' + t.k)
    def zero(self, t):
        if t.k == 'i': return FALSE if t.n == 1 else const(0)
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return [self.zero(e) for e in t.e]
        if t.k == 'arr': return [self.zero(t.e) for _ in range(t.n)]
        raise Unsupported('zero ' + t.k)
    def gep(self, st, fr, ty, ops):
        p = ops[0][1]
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        off = p.off
        cur = ty
        first = True
        for tt, v, _ in ops[1:]:
            if first:
                i = st.S(v, tt.n); off = off + i * cur.size; first = False
            elif cur.k == 'struct':
                i = st.simp(v).c
                off = off + cur.offs[i]; cur = cur.e[i]
            else:
                i = st.S(v, tt.n)
                cur = cur.e
                off = off + i * cur.size
        return Ptr(p.obj, st.simp(off))
    # ---------------------------------------------------------- memory access
    def conc_off(self, st, p, what=''):
        off = st.simp(p.off)
        if off.is_const(): return off.c
        lo, hi = st.bounds(off)
        if lo == hi: return lo
        t, g = off.prim()
        if lo == -INF or hi == INF or (hi - lo) // abs(g) > 4096: raise Unsupported('symbolic address in %s: %s [%s,%s]' % (p.obj, off, lo, hi))
        ag = abs(g)
        raise Fork([eq0(off - v) for v in range(lo, hi + 1) if (v - off.c) % ag == 0], 'address %s' % (p.obj,))
    def load(self, st, t, p):
        if not isinstance(p, Ptr) or p.obj is None: raise Unsupported('load through %r' % (p,))
        o = st.mem[p.obj]
        off = st.simp(p.off)
        if o.const and not off.is_const() and t.k == 'i':
            lo, hi = st.bounds(off)
            _, g = off.prim(); g = abs(g)
            if lo != -INF and hi != INF and g and (hi - lo) // g + 1 >= TABLE_ATOM_MIN and (hi - lo) // g <= 5000:
                base = off.c % g
                if lo < 0 or hi + t.size > o.size:
                    # bounds of the other terms together may be known: split a small one off
                    for m, k in off.t:
                        l, h = st.mono_bounds(m)
                        if len(off.t) > 1 and 0 < h - l <= 8: raise Fork([eq0(Poly(((m, 1),), 0) - v) for v in range(l, h + 1)], 'table index')
                    raise Unsupported('table range %s %s..%s: %s' % (p.obj, lo, hi, off))
                key = (p.obj, g, base, t.size)
                T = self.tables.get(key)
                if T is None:
                    n = (o.size - t.size - base) // g + 1
                    T = Table('%s+%d/%d' % (p.obj[2], base, g), [self._load_at(st, o, t, base + i * g).c for i in range(n)])
                    g0 = 0
                    for v in T.vals: g0 = gcd(g0, v)
                    g0 = g0 or 1
                    vv = tuple(v // g0 for v in T.vals)
                    T0 = TABS.get(vv)
                    if T0 is None: T0 = TABS[vv] = Table(T.name, list(vv))
                    T = self.tables[key] = (T0, g0)
                return st.tab(T[0], Poly(tuple((m, k // g) for m, k in off.t), (off.c - base) // g)) * T[1]
            if lo != -INF and hi != INF and g and (hi - lo) // g <= 600 and t.size <= 8 and lo >= 0 and hi + t.size <= o.size:
                base = off.c % g
                l = lo + (base - lo) % g
                vals = [(a, self._load_at(st, o, t, a)) for a in range(l, hi + 1, g)]
                if all(isinstance(v, Poly) and v.is_const() for _, v in vals):
                    runs = []
                    for a, v in vals:
                        if runs and runs[-1][2] == v.c: runs[-1][1] = a
                        else: runs.append([a, a, v.c])
                    if len(runs) == 1: return const(runs[0][2])
                    if len(runs) < len(vals):
                        raise Fork([and_(ge(off - a), ge(-off + b)) for a, b, _ in runs], 'table runs')
        off = self.conc_off(st, p)
        if off < 0 or off + t.size > o.size:
            raise SafetyViolation('out-of-bounds read of %s at %d' % (o.name, off))
        return self._load_at(st, o, t, off)
    def _load_at(self, st, o, t, off):
        if t.k == 'struct': return [self._load_at(st, o, e, off + f) for e, f in zip(t.e, t.offs)]
        if t.k == 'arr': return [self._load_at(st, o, t.e, off + i * t.e.size) for i in range(t.n)]
        c = o.cells.get(off)
        n = t.size
        if c is not None and c[0] == n:
            v = c[1]
            if t.k == 'i' and t.n == 1:
                if isinstance(v, Cond): return v
                v = st.mod(v, 2); return not_(eq0(v))
            if t.k == 'i':
                if isinstance(v, Cond): return st.b2i(v)
                if isinstance(v, FP): return self.fp_bits(st, v)
                if isinstance(v, (Ptr, FnPtr)): return v
                return st.simp(v)
            if t.k in ('double', 'float'):
                if isinstance(v, FP): return v
                return FP(None, 8 * n, ('bits', v))
            return v
        if t.k == 'ptr':
            # assembled pointer: unsupported unless zero
            v = self._load_int(st, o, n, off)
            if v.is_const() and v.c == 0: return NULL
            raise Unsupported('pointer assembled from bytes in %s' % o.name)
        v = self._load_int(st, o, n, off)
        if t.k == 'i' and t.n == 1: return not_(eq0(st.mod(v, 2)))
        if t.k in ('double', 'float'): return FP(None, 8 * n, ('bits', v))
        return v
    def _load_int(self, st, o, n, off):
        # cover [off, off+n) from cells
        r = ZERO; pos = off
        while pos < off + n:
            c = o.cells.get(pos)
            if c is not None and c[0] <= off + n - pos:
                v = self.cell_int(st, c)
                r = r + v * (1 << (8 * (pos - off)))
                pos += c[0]; continue
            # inside a larger cell
            for d in range(0, 16):
                c = o.cells.get(pos - d)
                if c is not None and c[0] > d:
                    take = min(c[0] - d, off + n - pos)
                    v = self.cell_int(st, c)
                    v = st.mod(st.div(v, 1 << (8 * d)), 1 << (8 * take))
                    r = r + v * (1 << (8 * (pos - off)))
                    pos += take
                    break
            else:
                nxt = min([k for k in o.cells if k > pos] + [off + n])
                take = min(nxt, off + n) - pos
                if o.cells.get('zero'): v = ZERO
                else:
                    v = fresh('uninit_%s_%d' % (o.name, pos), 0, (1 << (8 * take)) - 1)
                    o.cells[pos] = (take, v)
                r = r + v * (1 << (8 * (pos - off)))
                pos += take
        return r
    def cell_int(self, st, c):
        v = c[1]
        if isinstance(v, Cond): return st.b2i(v)
        if isinstance(v, FP): return self.fp_bits(st, v)
        if not isinstance(v, Poly): raise Unsupported('bytes of a pointer')
        return st.U(v, 8 * c[0])
    def store(self, st, t, v, p):
        if not isinstance(p, Ptr) or p.obj is None: raise Unsupported('store through %r' % (p,))
        off = self.conc_off(st, p)
        o = st.mem[p.obj]
        if off < 0 or off + t.size > o.size:
            raise SafetyViolation('out-of-bounds write of %s at %d' % (o.name, off))
        if o.const: raise SafetyViolation('write to constant ' + o.name)
        o = st.wobj(p.obj)
        self._store_at(st, o, t, v, off)
    def _store_at(self, st, o, t, v, off):
        if t.k == 'struct':
            for e, f, x in zip(t.e, t.offs, v): self._store_at(st, o, e, x, off + f)
            return
        if t.k == 'arr':
            for i in range(t.n): self._store_at(st, o, t.e, v[i], off + i * t.e.size)
            return
        n = t.size
        self.clear_range(st, o, off, n)
        o.cells[off] = (n, v)
    def clear_range(self, st, o, off, n):
        for d in range(-15, n):
            k = off + d
            c = o.cells.get(k)
            if c is None: continue
            if d < 0 and c[0] <= -d: continue
            if d >= 0 and k + c[0] <= off + n:
                del o.cells[k]; continue
            # partial overlap: split
            v = self.cell_int(st, c)
            del o.cells[k]
            if d < 0:
                o.cells[k] = (-d, st.mod(v, 1 << (8 * -d)))
            if k + c[0] > off + n:
                rest = k + c[0] - (off + n)
                o.cells[off + n] = (rest, st.div(v, 1 << (8 * (c[0] - rest))))
    def copy_mem(self, st, dst, src, n):
        so = st.mem[src.obj]; a = self.conc_off(st, src); b = self.conc_off(st, dst)
        if a < 0 or a + n > so.size or b < 0 or b + n > st.mem[dst.obj].size: raise SafetyViolation('memcpy out of bounds')
        cells = []
        pos = a
        while pos < a + n:
            c = so.cells.get(pos)
            if c is not None and pos + c[0] <= a + n:
                cells.append((pos - a, c)); pos += c[0]; continue
            # odd boundaries: byte-wise
            k = 1
            while pos + k < a + n and (pos + k) not in so.cells: k += 1
            if any(isinstance(so.cells.get(pos - d, (0, 0))[1], Poly) and so.cells.get(pos - d, (0, 0))[0] > d for d in range(0, 16)) or so.cells.get('zero'):
                cells.append((pos - a, (k, self._load_int(st, so, k, pos))))
            else:
                cells.append((pos - a, (k, None)))
            pos += k
        do = st.wobj(dst.obj)
        self.clear_range(st, do, b, n)
        for o_, c in cells:
            if c[1] is not None: do.cells[b + o_] = c
    def set_mem(self, st, dst, byte, n):
        b = self.conc_off(st, dst)
        if b < 0 or b + n > st.mem[dst.obj].size: raise SafetyViolation('memset out of bounds')
        do = st.wobj(dst.obj)
        self.clear_range(st, do, b, n)
        byte = st.U(byte, 8)
        pos = 0
        while pos < n:
            k = 1
            for w in (8, 4, 2):
                if (b + pos) % w == 0 and pos + w <= n: k = w; break
            v = ZERO
            for i in range(k): v = v + byte * (1 << (8 * i))
            do.cells[b + pos] = (k, v)
            pos += k
    # ---------------------------------------------------------- floating point from integers
    def fp_bits(self, st, v):
        if v.bits is not None:
            if v.bits[0] == 'bits': return v.bits[1]
            if v.bits[0] == 'const':
                if v.w == 64: return const(struct.unpack('>Q', struct.pack('>d', v.bits[1]))[0])
                return const(struct.unpack('>I', struct.pack('>f', v.bits[1]))[0])
            raise Unsupported('bits of an undefined float')
        mant, bias, w = (52, 1023, 64) if v.w == 64 else (23, 127, 32)
        p = st.simp(v.p)
        lo, hi = st.bounds(p)
        if lo < 0: raise Unsupported('float of a possibly negative integer')
        if hi == 0: return ZERO
        if lo == 0: raise Fork([eq0(p), ge(p - 1)], 'float of zero')
        # exponent of the converted value: monotone step function of p; values
        # within half an ulp of 2^k round up to it (k > mant+1)
        thr = []
        for k in range(1, hi.bit_length() + 1):
            thr.append((1 << k) - ((1 << (k - mant - 2)) if k - 1 > mant else 0))
        if v.fuzz:
            # a sum of rounded terms, rounded again: relative error below
            # 2^-(mant-2); its exponent is that of p or of p*(1 +- error)
            lo3 = tuple((1 << k) - ((1 << k) >> (mant - 2)) for k in range(1, hi.bit_length() + 1))
            hi3 = tuple((1 << k) + ((1 << k) >> (mant - 2)) for k in range(1, hi.bit_length() + 1))
            cs = []
            for t in (lo3, hi3):
                q = st.simp(st.step(p, t, 0))
                if q not in cs: cs.append(q)
            if len(cs) > 1:
                z = var('fpfuzz.%d' % id(p), 0, 1)
                e = cs[0] if self.decide(st, eq0(z)) else cs[1]
            else: e = cs[0]
        else: e = st.step(p, tuple(thr), 0)
        f = var('fpfrac.%d.%s' % (v.w, id(p)), 0, (1 << mant) - 1)   # same operand, same fraction
        return (e + bias) * (1 << mant) + f
    def fpop(self, st, op, t, a, b):
        w = t.size * 8
        def cv(v):
            if v.bits and v.bits[0] == 'const': return v.bits[1]
            if v.bits and v.bits[0] == 'bits':
                q = st.simp(v.bits[1])
                if q.is_const(): return struct.unpack('>d', struct.pack('>Q', q.c))[0] if v.w == 64 else struct.unpack('>f', struct.pack('>I', q.c))[0]
            return None
        if op == 'fmul':
            for x, y in ((a, b), (b, a)):
                k = cv(y)
                if k is not None and x.p is not None and k == int(k) and k > 0 and int(k) & (int(k) - 1) == 0:
                    return FP(x.p * int(k), w, None, x.fuzz)
        if op == 'fadd' and a.p is not None and b.p is not None:
            return FP(a.p + b.p, w, None, True)
        raise Unsupported('floating point %s %s %s' % (op, (a.p, a.bits, a.w), (b.p, b.bits, b.w)))
    # ---------------------------------------------------------- casts, arithmetic
    def cast(self, st, op, t, v, t2):
        if op == 'zext':
            if t.n == 1: return st.b2i(v)
            return st.U(v, t.n)
        if op == 'sext':
            if t.n == 1: return -st.b2i(v)
            return st.S(v, t.n)
        if op == 'trunc':
            if t2.n == 1: return not_(eq0(st.mod(v, 2)))
            return v
        if op == 'bitcast':
            if t.k == t2.k: return v
            if t.k in ('double', 'float') and t2.k == 'i': return self.fp_bits(st, v)
            if t2.k in ('double', 'float') and t.k == 'i': return FP(None, t2.size * 8, ('bits', v))
        if op == 'ptrtoint':
            if isinstance(v, Ptr): return v if v.obj is not None else v.off
        if op == 'inttoptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, Poly): return Ptr(None, v)
        if op in ('uitofp', 'sitofp') and t2.k in ('double', 'float'):
            p = st.U(v, t.n) if op == 'uitofp' else st.S(v, t.n)
            return FP(p, t2.size * 8)
        raise Unsupported('cast %s %s->%s' % (op, t, t2))
    def conc(self, st, p, limit=300):
        """concrete value of p, by case split if necessary"""
        p = st.simp(p)
        if p.is_const(): return p.c
        lo, hi = st.bounds(p)
        if lo == hi: return lo
        if lo == -INF or hi == INF or hi - lo > limit: raise Unsupported('cannot enumerate %s in [%s,%s]' % (p, lo, hi))
        raise Fork([eq0(p - v) for v in range(lo, hi + 1)], 'value')
    def binop(self, st, op, t, a, b):
        if t.k in ('float', 'double'): return self.fpop(st, op, t, a, b)
        n = t.n
        if n == 1:
            if op == 'and' or op == 'mul': return and_(a, b)
            if op == 'or': return or_(a, b)
            if op == 'xor' or op == 'add' or op == 'sub':
                if B(b).k in 'TF': return not_(a) if B(b).k == 'T' else a
                if B(a).k in 'TF': return not_(b) if B(a).k == 'T' else b
                return or_(and_(a, not_(b)), and_(not_(a), b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return a.off - b.off
            if op == 'add' and isinstance(a, Ptr): return Ptr(a.obj, a.off + b)
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Poly): return Ptr(a.obj, a.off - b)
            raise Unsupported('pointer arithmetic ' + op)
        a = st.simp(a); b = st.simp(b)
        if op in ('add', 'sub'):
            r = a + b if op == 'add' else a - b
            if len(r.t) > 1 and a.t and b.t:
                (la, ha), (lb, hb), (lr, hr) = st.bounds(a), st.bounds(b), st.bounds(r)
                if op == 'sub': lb, hb = -hb, -lb
                if la + lb > lr or ha + hb < hr: st.note(r, max(la + lb, lr), min(ha + hb, hr), True)
            return self.shrink(st, r, n)
        if op == 'mul':
            if not a.is_const() and not b.is_const():
                a = st.U(a, n) if st.bounds(a)[0] >= 0 else st.S(a, n)
                b = st.U(b, n) if st.bounds(b)[0] >= 0 else st.S(b, n)
            return self.shrink(st, a * b, n)
        if op == 'and': return st.band(a, b, n)
        if op == 'or': return st.bor(a, b, n)
        if op == 'xor': return st.bxor(a, b, n)
        if op == 'shl':
            k = self.shamt(st, b, n)
            if k >= n: return fresh('poison', 0, (1 << n) - 1)
            lo, hi = st.bounds(a)
            # keep the result's significant part canonical
            if hi >= (1 << (n - k)) and lo >= 0: return st.mod(a, 1 << (n - k)) * (1 << k)
            return self.shrink(st, a * (1 << k), n)
        if op == 'lshr':
            k = self.shamt(st, b, n)
            if k >= n: return fresh('poison', 0, (1 << n) - 1)
            return st.div(st.U(a, n), 1 << k)
        if op == 'ashr':
            k = self.shamt(st, b, n)
            if k >= n: return fresh('poison', 0, (1 << n) - 1)
            return st.div(st.S(a, n), 1 << k)
        if op in ('udiv', 'urem'):
            d = self.conc_div(st, st.U(b, n))
            a = st.U(a, n)
            return st.div(a, d) if op == 'udiv' else st.mod(a, d)
        if op in ('sdiv', 'srem'):
            d = self.conc_div(st, st.S(b, n))
            a = st.S(a, n)
            c = st.simp_cond(ge(a))
            if c.k not in 'TF': raise Fork([c, not_(c)], 'sign of dividend')
            q = st.div(a, abs(d)) if c.k == 'T' else -st.div(-a, abs(d))
            if d < 0: q = -q
            return q if op == 'sdiv' else a - q * d
        raise Unsupported(op)
    def conc_div(self, st, b):
        d = self.conc(st, b, 64)
        if d == 0: raise SafetyViolation('division by zero')
        return d
    def shamt(self, st, b, n):
        b = st.U(b, n)
        lo, hi = st.bounds(b)
        if lo == hi: return lo
        if hi - lo > 300:
            if hi >= n:
                c = ge(b - n)
                cc = st.simp_cond(c)
                if cc.k == 'T': return n
                if cc.k != 'F': raise Fork([not_(c), c], 'shift amount range')
        if hi >= n and lo >= n: return n
        return self.conc(st, b)
    def shrink(self, st, p, n):
        """renormalise when the representative drifts far from the machine range"""
        if p.is_const():
            c = p.c % (1 << n)
            return const(c)
        lo, hi = st.bounds(p)
        lim = 1 << (2 * n + 4)
        if lo == -INF or hi == INF or lo < -lim or hi > lim: return st.mod(p, 1 << n)
        return p
    def icmp(self, st, pred, t, a, b):
        if t.k == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(st, pred, a, b)
        n = t.n
        if n == 1:
            if pred == 'eq': return iff(a, b)
            if pred == 'ne': return not_(iff(a, b))
            raise Unsupported('i1 cmp')
        if pred in ('eq', 'ne'):
            a = st.simp(a); b = st.simp(b)
            d = a - b
            lo, hi = st.bounds(d)
            if not (lo > -(1 << n) and hi < (1 << n)):
                # compare normalised; prefer unsigned
                d = st.U(a, n) - st.U(b, n)
            elif lo < 0 and hi > 0:
                # difference could be +-2^n only at the extremes, excluded
                pass
            # both in the same window?  d in (-2^n, 2^n): equal iff d == 0 (d = +-2^n excluded)
            c = st.simp_cond(self.eqc(st, d))
            return c if pred == 'eq' else not_(c)
        if pred[0] == 'u': a = st.U(a, n); b = st.U(b, n)
        else: a = st.S(a, n); b = st.S(b, n)
        k = pred[1:]
        if k == 'gt': c = ge(a - b - 1)
        elif k == 'ge': c = ge(a - b)
        elif k == 'lt': c = ge(b - a - 1)
        else: c = ge(b - a)
        d = b - a
        if d.t and len(d.t) > 1:
            (al, ah), (bl, bh) = st.bounds(a), st.bounds(b)
            st.note(d, bl - ah, bh - al, True)
        return st.simp_cond(c)
    def eqc(self, st, d):
        """d == 0, split into field equalities when d is a sum of nonnegative parts"""
        c = eq0(d)
        if c.k != 'eq': return c
        p = c.a
        # all monomials nonnegative with zero constant: each must be zero
        if p.c == 0 and len(p.t) > 1:
            pos = all((k > 0 and st.mono_bounds(m)[0] >= 0) or (k < 0 and st.mono_bounds(m)[1] <= 0) for m, k in p.t)
            if pos: return and_(*[eq0(Poly(((m, 1),), 0)) for m, k in p.t])
        return c
    def pcmp(self, st, pred, a, b):
        if isinstance(a, Poly): a = Ptr(None, a)
        if isinstance(b, Poly): b = Ptr(None, b)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if pred in ('eq', 'ne'):
                e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return TRUE if e == (pred == 'eq') else FALSE
        if a.obj != b.obj:
            if pred == 'eq': return FALSE
            if pred == 'ne': return TRUE
            raise Unsupported('ordering of unrelated pointers')
        d = a.off - b.off
        c = {'eq': eq0(d), 'ne': not_(eq0(d)), 'ugt': ge(d - 1), 'uge': ge(d), 'ult': ge(-d - 1), 'ule': ge(-d),
             'sgt': ge(d - 1), 'sge': ge(d), 'slt': ge(-d - 1), 'sle': ge(-d)}[pred]
        return st.simp_cond(c)
    # ---------------------------------------------------------- control
    def fork(self, st, conds, work):
        """push one state per feasible case"""
        self.nforks += 1
        live = []
        ev = solver.Ev(st.model, st) if st.model is not None else None
        unsat = 0
        try: cs = [st.simp_cond(c) for c in conds]
        except Fork as f:
            for c2 in f.conds: self.push(st, [c2], st.model, work)
            return
        cs = [c for c in cs if c.k != 'F']
        for c in cs:
            if c.k == 'T': live.append((c, st.model)); continue
            if ev is not None:
                try: hit = ev.cond(c)
                except Exception: hit = False
                if hit: live.append((c, st.model)); continue
            if not live and c is cs[-1] and unsat == len(cs) - 1:
                live.append((c, None)); continue      # the cases are exhaustive
            base = st.model
            if base is None:
                for _, m in live:
                    if m is not None: base = m; break
            m = solver.local_model(st, c, base if base is not None else {})
            if m is not None:
                self.nlocal += 1
                live.append((c, m)); continue
            r, m = solver.check(st, [c], timeout=self.branch_timeout, want_model=True, second=False)
            if r == 'unsat': unsat += 1; continue
            if m is not None and not solver.check_asg(m, st, [c]): m = None
            live.append((c, m))
        for i, (c, m) in enumerate(live):
            s = st.clone()
            try: s.assume(c)
            except Infeasible: continue
            except Fork as f:
                for c2 in f.conds: self.push(st, [c2, c], m, work)
                continue
            s.model = m
            work.append(s)
    def push(self, st, cs, m, work):
        """a state with all of cs, splitting again where assuming them asks for it"""
        if len(cs) > 14: raise Unsupported('nested case splits')
        s = st.clone()
        try:
            for c in cs: s.assume(c)
        except Infeasible: return
        except Fork as f:
            for c2 in f.conds: self.push(st, [c2] + cs, m, work)
            return
        s.model = None
        if m is not None:
            try:
                ev = solver.Ev(m, s)
                if all(ev.cond(c) for c in cs): s.model = m
            except Exception: pass
        work.append(s)
    def decide(self, st, c):
        """truth of c on this path; forks when open"""
        c = st.simp_cond(B(c))
        if c.k == 'T': return True
        if c.k == 'F': return False
        raise Fork([c, not_(c)], 'branch')
    def enter(self, st, fn, args, dst):
        fr = Frame()
        fr.fn = fn; fr.regs = {}; fr.blk = fn.entry; fr.prev = None; fr.ip = 0; fr.dst = dst; fr.allocas = None
        for (nm, t, bv), v in zip(fn.params, args):
            if bv and bv[0] == 'byval':
                k = st.new_obj('byval', bv[1].size)
                self.copy_mem(st, Ptr(k, const(0)), v, bv[1].size)
                v = Ptr(k, const(0))
            fr.regs[nm] = v
        st.frames.append(fr)
    def run(self, fn, args, st, on_return):
        """explore all paths of fn(args) from st; on_return(st) may raise Fork"""
        self.enter(st, fn, args, None)
        work = [st]
        while work:
            if self.deadline and time.time() > self.deadline: raise Timeout('time limit')
            s = work.pop()
            try:
                self.step_path(s, work, on_return)
            except Infeasible:
                continue
            except SafetyViolation as e:
                if self.on_safety is None: raise
                self.on_safety(s, e)
    def step_path(self, st, work, on_return):
        while True:
            if not st.frames:
                try:
                    snap = (len(st.pc), st.ret)
                    on_return(st)
                    self.npaths += 1
                except Fork as f:
                    self.fork(st, f.conds, work)
                return
            fr = st.frames[-1]
            insts = fr.fn.insts(fr.blk)
            ins = insts[fr.ip]
            st.steps += 1
            if st.steps > self.max_steps: raise Unsupported('step limit on a path through ' + fr.fn.name)
            self.ninsts += 1
            try:
                r = self.step(st, fr, ins)
            except Fork as f:
                if len(f.conds) == 1:
                    st.assume(f.conds[0]); continue
                self.fork(st, f.conds, work)
                return
            if r == 'dead': return
    def jump(self, st, fr, b):
        fr.prev, fr.blk = fr.blk, b
        fr.ip = 0
        insts = fr.fn.insts(b)
        new = {}
        i = 0
        while insts[i][0] == 'phi':
            _, dst, t, inc = insts[i]
            for bb, o in inc:
                if bb == fr.prev: new[dst] = fr.regs[o[1]] if o[0] == 'r' else self.val(st, fr, t, o); break
            else: raise Unsupported('phi')
            i += 1
        fr.regs.update(new)
        fr.ip = i
    # ---------------------------------------------------------- joining of small branches
    def join_of(self, fn, a, b):
        """join block of a triangle or diamond with small straight-line sides"""
        key = (fn, a, b)
        r = self.joins.get(key, 0)
        if r != 0: return r
        def side(x):
            ins = fn.insts(x)
            if len(ins) > 14 or ins[-1][0] != 'br': return None
            for i in ins[:-1]:
                if i[0] not in ('bin', 'icmp', 'cast', 'load', 'store', 'gep', 'select', 'copy', 'extract', 'insert'): return None
            return ins[-1][1]
        ja, jb = side(a), side(b)
        r = None
        if ja == b: r = b
        elif jb == a: r = a
        elif ja is not None and ja == jb: r = ja
        self.joins[key] = r
        return r
    def carry(self, st, c, x, y):
        """c ? y+-1 : y as a sum (carry and borrow idioms)"""
        if not (isinstance(x, Poly) and isinstance(y, Poly)) or (not x.t and not y.t): return None
        d = x - y
        if d.t or d.c not in (1, -1): return None
        lo, hi = st.bounds(c.a)
        if lo == -INF or hi == INF: return None
        return y + st.b2i(c) * d.c
    def merge(self, st, fr, c, a, b):
        j = self.join_of(fr.fn, a, b)
        if j is None: return False
        blk = fr.blk
        depth = len(st.frames)
        sides = []
        for cond, x in ((c, a), (not_(c), b)):
            s = st.clone()
            try:
                s.assume(cond)
                f = s.frames[-1]
                self.jump(s, f, x)
                n = 0
                while f.blk != j:
                    self.step(s, f, f.fn.insts(f.blk)[f.ip])
                    n += 1
                    if n > 20: return False
            except (Fork, Infeasible, Unsupported, SafetyViolation): return False
            sides.append(s)
        A, Bs = sides
        def unify(x, y, lazy):
            if x is y: return x
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj == y.obj and x.off == y.off: return x
                return Lazy(c, x, y) if lazy else None
            if isinstance(x, Lazy) or isinstance(y, Lazy): return Lazy(c, x, y) if lazy else None
            if isinstance(x, Poly) and isinstance(y, Poly):
                if x == y: return x
                if A.bounds(A.simp(y) - A.simp(x)) == (0, 0): return y
                if Bs.bounds(Bs.simp(x) - Bs.simp(y)) == (0, 0): return x
                if c.k == 'ge':
                    v = self.carry(st, c, x, y)
                    if v is not None: return v
            return None
        phis = {}
        ins = fr.fn.insts(j); i = 0
        fa, fb = A.frames[-1], Bs.frames[-1]
        while ins[i][0] == 'phi':
            d = ins[i][1]
            v = unify(fa.regs[d], fb.regs[d], True)
            if v is None: return False
            phis[d] = v; i += 1
        upd = []
        for k in set(A.mem) | set(Bs.mem):
            oa, ob, o0 = A.mem.get(k), Bs.mem.get(k), st.mem.get(k)
            if oa is ob: 
                if o0 is None and oa is not None: st.mem[k] = oa
                continue
            if oa is None or ob is None:
                if o0 is None:
                    st.mem[k] = oa or ob; continue
                return False
            for off in set(oa.cells) | set(ob.cells):
                x, y = oa.cells.get(off), ob.cells.get(off)
                if x is y: continue
                if x is None or y is None or x[0] != y[0]: return False
                v = unify(x[1], y[1], False)
                if v is None: return False
                upd.append((k, off, x[0], v, set(oa.cells) == set(ob.cells)))
                if not upd[-1][4]: return False
            if set(oa.cells) != set(o0.cells) if o0 is not None else True:
                upd.append((k, None, None, oa, True))
        for u in upd:
            if u[1] is None:
                o = u[3].copy(st.id); st.mem[u[0]] = o
        for k, off, n, v, _ in upd:
            if off is None: continue
            o = st.wobj(k); self.clear_range(st, o, off, n); o.cells[off] = (n, v)
        fr.regs.update(phis)
        fr.prev, fr.blk, fr.ip = blk, j, i
        self.nmerged += 1
        return True
    def step(self, st, fr, ins):
        op = ins[0]
        if op == 'bin':
            _, dst, o, t, a, b = ins
            fr.regs[dst] = self.binop(st, o, t, self.val(st, fr, t, a), self.val(st, fr, t, b))
        elif op == 'icmp':
            _, dst, pred, t, a, b = ins
            fr.regs[dst] = self.icmp(st, pred, t, self.val(st, fr, t, a), self.val(st, fr, t, b))
        elif op == 'cast':
            _, dst, o, t, a, t2 = ins
            fr.regs[dst] = self.cast(st, o, t, self.val(st, fr, t, a), t2)
        elif op == 'load':
            _, dst, t, p = ins
            fr.regs[dst] = self.load(st, t, self.val(st, fr, PTR, p))
        elif op == 'store':
            _, t, v, p = ins
            self.store(st, t, self.val(st, fr, t, v), self.val(st, fr, PTR, p))
        elif op == 'gep':
            _, dst, ty, ops = ins
            fr.regs[dst] = self.gep(st, fr, ty, [(tt, self.val(st, fr, tt, v), v) for tt, v in ops])
        elif op == 'cbr':
            _, c, a, b = ins
            cv = st.simp_cond(B(self.val(st, fr, I1, c)))
            if cv.k == 'T': self.jump(st, fr, a)
            elif cv.k == 'F': self.jump(st, fr, b)
            elif a != b and self.merge(st, fr, cv, a, b): pass
            else: raise Fork([cv, not_(cv)], 'branch')
            return
        elif op == 'br':
            self.jump(st, fr, ins[1]); return
        elif op == 'alloca':
            _, dst, t, n = ins
            size = t.size
            if n: size *= self.conc(st, self.val(st, fr, n[0], n[1]))
            fr.regs[dst] = Ptr(st.new_obj(dst, size), const(0))
        elif op == 'select':
            _, dst, t, c, a, b = ins
            cv = st.simp_cond(B(self.val(st, fr, I1, c)))
            if cv.k not in 'TF' and t.k == 'i' and t.n == 1:
                x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)
                fr.regs[dst] = or_(and_(cv, x), and_(not_(cv), y))
            elif cv.k == 'ge' and t.k == 'i':
                x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)
                v = self.carry(st, cv, x, y)
                if v is None: v = x if self.decide(st, cv) else y
                fr.regs[dst] = v
            else:
                fr.regs[dst] = self.val(st, fr, t, a if self.decide(st, cv) else b)
        elif op == 'call':
            return self.call(st, fr, ins)
        elif op == 'ret':
            _, t, o = ins
            v = self.val(st, fr, t, o) if o is not None else None
            st.frames.pop()
            if st.frames:
                f2 = st.frames[-1]
                if fr.dst is not None: f2.regs[fr.dst] = v
                f2.ip += 1
            else: st.ret = v
            return
        elif op == 'switch':
            _, t, o, dflt, cases = ins
            v = st.simp(self.val(st, fr, t, o))
            rest = []
            for k, b in cases:
                c = st.simp_cond(self.icmp(st, 'eq', t, v, const(k)))
                if c.k == 'T': self.jump(st, fr, b); return
                if c.k == 'F': continue
                rest.append(c)
            if rest:
                raise Fork(rest + [and_(*[not_(c) for c in rest])], 'switch')
            self.jump(st, fr, dflt); return
        elif op == 'extract':
            _, dst, t, o, idx = ins
            v = self.val(st, fr, t, o)
            for i in idx: v = v[i]
            fr.regs[dst] = v
        elif op == 'insert':
            _, dst, t, o, t2, o2, idx = ins
            v = self.val(st, fr, t, o)
            x = self.val(st, fr, t2, o2)
            def ins_(v, idx):
                v = list(v)
                v[idx[0]] = x if len(idx) == 1 else ins_(v[idx[0]], idx[1:])
                return v
            fr.regs[dst] = ins_(v, idx)
        elif op == 'copy':
            fr.regs[ins[1]] = self.val(st, fr, ins[2], ins[3])
        elif op == 'unreachable':
            raise SafetyViolation('unreachable reached')
        else:
            raise Unsupported('instruction ' + op)
        fr.ip += 1
    def call(self, st, fr, ins):
        _, dst, t, callee, args = ins
        if callee[0] == '%':
            f = fr.regs[callee]
            if not isinstance(f, FnPtr): raise Unsupported('indirect call')
            name, unit = f.name, f.unit
        else:
            name, unit = callee[1:], fr.fn.mod.unit
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.invariant', 'llvm.experimental.noalias', 'llvm.va_')): fr.ip += 1; return
            vs = [self.val(st, fr, a[0], a[1]) for a in args]
            r = self.intrinsic(st, name, args, vs)
            if dst: fr.regs[dst] = r
            fr.ip += 1
            return
        m = self.prog.mod(unit)
        name = m.aliases.get(name, name)
        vs = [self.val(st, fr, a[0], a[1]) for a in args]
        c = self.contracts.get(name) or (self.contracts.get(name[5:]) if name.startswith('__GI_') else None)
        self.called.add(name)
        if c is not None and not (len(st.frames) == 0):
            r = c(self, st, vs)
            if r is not NotImplemented:
                self.used_contracts.add(name)
                if dst: fr.regs[dst] = r
                fr.ip += 1
                return
        f = self.prog.find(name, unit)
        if f is None and name == 'free' and isinstance(vs[0], Ptr) and vs[0].obj is None: fr.ip += 1; return
        if f is None: raise Unsupported('external function ' + name)
        if len(st.frames) > 60: raise Unsupported('recursion')
        self.inlined.add(name)
        vs2 = []
        for a, v in zip(args, vs):
            vs2.append(v)
        self.enter(st, f, vs2, dst)
    def intrinsic(self, st, name, args, vs):
        if name.startswith('llvm.threadlocal'): return vs[0]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = self.conc(st, vs[2])
            if n: self.copy_mem(st, vs[0], vs[1], n)
            return None
        if name.startswith('llvm.memset'):
            n = self.conc(st, vs[2])
            if n: self.set_mem(st, vs[0], vs[1], n)
            return None
        n = args[0][0].n
        if name.startswith('llvm.abs'):
            a = st.S(vs[0], n)
            return a if self.decide(st, ge(a)) else -a
        if name.startswith('llvm.ctlz'):
            a = st.U(vs[0], n)
            lo, hi = st.bounds(a)
            if hi == 0: return const(n)
            if lo == 0: raise Fork([eq0(a), ge(a - 1)], 'ctlz')
            kl, kh = lo.bit_length() - 1, hi.bit_length() - 1
            if kl == kh: return const(n - 1 - kl)
            raise Fork([and_(ge(a - (1 << k)), ge(-a + (1 << (k + 1)) - 1)) for k in range(kl, kh + 1)], 'ctlz')
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            f = st.U if name[5] == 'u' else st.S
            a, b = f(vs[0], n), f(vs[1], n)
            return (b if 'max' in name else a) if self.decide(st, ge(b - a)) else (a if 'max' in name else b)
        if name.startswith('llvm.fshl'):
            k = self.conc(st, st.mod(st.U(vs[2], n), n))
            a, b = st.U(vs[0], n), st.U(vs[1], n)
            return st.div((a * (1 << n) + b) * (1 << k), 1 << n)
        raise Unsupported(name)

class SafetyViolation(Exception): pass
class Timeout(Exception): pass
CONST_TABLES = {'DPD2BIN', 'BIN2DPD'}
PTR = ir.Ty(); PTR.k = 'ptr'; PTR.n = None; PTR.size = 8; PTR.align = 8
I1 = ir.Ty(); I1.k = 'i'; I1.n = 1; I1.size = 1; I1.align = 1

def re_internal(m, name):
    return ' internal ' in ' ' + m.globals[name][:60] or ' private ' in ' ' + m.globals[name][:60]

def fill(o, mod, t, init, prog):
    init = strip_tail(init)
    v = ir.parse_operand(mod, t, init)
    put(o, t, v, 0)

def strip_tail(s):
    a = ir.split_args(s)
    return a[0]

def put(o, t, v, off):
    k = v[0]
    if k == 'zero':
        if t.k in ('arr',):
            for i in range(t.n): put(o, t.e, v, off + i * t.e.size)
        elif t.k == 'struct':
            for e, f in zip(t.e, t.offs): put(o, e, v, off + f)
        elif t.k == 'ptr': o.cells[off] = (8, NULL)
        else: o.cells[off] = (t.size, const(0))
    elif k == 'agg':
        if t.k == 'arr':
            for i, (tt, x) in enumerate(v[1]): put(o, tt, x, off + i * t.e.size)
        else:
            for (tt, x), f in zip(v[1], t.offs): put(o, tt, x, off + f)
    elif k == 'bytes':
        for i, b in enumerate(v[1]): o.cells[off + i] = (1, const(b))
    elif k == 'c':
        o.cells[off] = (t.size, const(v[1] % (1 << t.n)))
    elif k == 'undef': pass
    elif k == 'null': o.cells[off] = (8, NULL)
    elif k == 'g': o.cells[off] = (8, FnPtr(v[1], None))
    elif k == 'gep': o.cells[off] = (8, FnPtr('?gep', None))
    elif k in ('f', 'fx'):
        pass
    else: raise Unsupported('initialiser ' + k)
