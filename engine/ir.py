"""Parser for the subset of LLVM IR text that clang emits for libdfp."""
import re

class Ty:
    __slots__ = ('k', 'n', 'e', 'size', 'align', 'offs')
    def __repr__(s): return s.k + str(s.n or '')

def align_up(x, a): return (x + a - 1) // a * a

class Module:
    def __init__(self, path, unit):
        self.unit = unit
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self._tc = {}
        self._raw = {}
        self._typesrc = {}
        self.parse(open(path).read())
    # ------------------------------------------------------------- types
    def ty(self, s):
        s = s.strip()
        t = self._tc.get(s)
        if t is not None: return t
        t, r = self.parse_ty(s)
        if r.strip(): raise ValueError('type? ' + s)
        self._tc[s] = t
        return t
    def mk(self, k, n=None, e=None):
        t = Ty(); t.k = k; t.n = n; t.e = e; t.offs = None
        if k == 'i':
            b = (n + 7) // 8
            p = 1
            while p < b: p *= 2
            t.size = p if n != 128 else 16; t.align = min(p, 16)
        elif k == 'ptr': t.size = t.align = 8
        elif k == 'float': t.size = t.align = 4
        elif k == 'double': t.size = t.align = 8
        elif k in ('x86_fp80', 'fp128'): t.size = t.align = 16
        elif k == 'arr': t.size = n * e.size; t.align = e.align
        elif k == 'vec': t.size = n * e.size; t.align = t.size
        elif k == 'struct':
            o = 0; al = 1; t.offs = []
            for f in e:
                if not n: o = align_up(o, f.align); al = max(al, f.align)
                t.offs.append(o); o += f.size
            t.size = align_up(o, al); t.align = al
        else: t.size = 0; t.align = 1
        return t
    def parse_ty(self, s):
        s = s.lstrip()
        m = re.match(r'i(\d+)', s)
        if m: t = self.mk('i', int(m.group(1))); s = s[m.end():]
        elif s.startswith('ptr'): t = self.mk('ptr'); s = s[3:]
        elif s.startswith('void'): t = self.mk('void'); s = s[4:]
        elif s.startswith('double'): t = self.mk('double'); s = s[6:]
        elif s.startswith('float'): t = self.mk('float'); s = s[5:]
        elif s.startswith('x86_fp80'): t = self.mk('x86_fp80'); s = s[8:]
        elif s.startswith('fp128'): t = self.mk('fp128'); s = s[5:]
        elif s.startswith('metadata'): t = self.mk('void'); s = s[8:]
        elif s.startswith('['):
            m = re.match(r'\[(\d+) x ', s)
            e, r = self.parse_ty(s[m.end():])
            r = r.lstrip(); assert r[0] == ']'
            t = self.mk('arr', int(m.group(1)), e); s = r[1:]
        elif s.startswith('<{') or s.startswith('{'):
            packed = s.startswith('<{')
            r = s[2 if packed else 1:].lstrip(); fs = []
            while not r.startswith('}'):
                f, r = self.parse_ty(r); fs.append(f); r = r.lstrip()
                if r.startswith(','): r = r[1:].lstrip()
            t = self.mk('struct', packed, fs); s = r[2 if packed else 1:]
        elif s.startswith('<'):
            m = re.match(r'<(\d+) x ', s)
            e, r = self.parse_ty(s[m.end():])
            t = self.mk('vec', int(m.group(1)), e); s = r.lstrip()[1:]
        elif s.startswith('%'):
            m = re.match(r'%("[^"]*"|[\w.$-]+)', s)
            nm = m.group(0)
            if nm not in self.types:
                src = self._typesrc[nm]
                self.types[nm] = self.mk('opaque') if src == 'opaque' else self.ty(src)
            t = self.types[nm]; s = s[m.end():]
        else: raise ValueError('type? ' + s[:60])
        # function type / varargs "i32 (ptr, ...)"
        r = s.lstrip()
        if r.startswith('(') :
            d = 0
            for i, ch in enumerate(r):
                if ch == '(': d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0: break
            s = r[i + 1:]
        return t, s
    # ------------------------------------------------------------- module
    def parse(self, txt):
        lines = txt.split('\n')
        i = 0
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                nm, src = l.split(' = type ', 1)
                self._typesrc[nm.strip()] = src.strip()
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
                nm = m.group(1).strip('"').replace('\\01', '')
                rest = m.group(2)
                if ' alias ' in ' ' + rest:
                    tgt = re.search(r'@("[^"]*"|[\w.$-]+)(?:\s*,.*)?$', rest)
                    self.aliases[nm] = tgt.group(1).strip('"').replace('\\01', '')
                else:
                    self.globals[nm] = rest
            elif l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                nm = m.group(1).strip('"').replace('\\01', '')
                self._raw[nm] = lines[i:j + 1]
                i = j
            i += 1
    def func(self, nm):
        nm = self.aliases.get(nm, nm)
        f = self.funcs.get(nm)
        if f is None and nm in self._raw:
            f = self.funcs[nm] = Func(self, nm, self._raw[nm])
        return f
    def global_init(self, nm):
        """(type, initialiser text or None, is_const, thread_local)"""
        rest = self.globals[nm]
        tl = 'thread_local' in rest
        m = re.search(r'\b(global|constant)\s+', rest)
        isc = m.group(1) == 'constant'
        ext = re.search(r'\b(external|extern_weak)\b', rest[:m.start()]) is not None
        t, r = self.parse_ty(rest[m.end():])
        return t, (None if ext else r.strip()), isc, tl

def split_args(s):
    out = []; d = 0; cur = ''
    q = False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in '([{<': d += 1
            elif ch in ')]}>': d -= 1
            if ch == ',' and d == 0:
                out.append(cur.strip()); cur = ''; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

ATTRS = {'noundef', 'nocapture', 'readonly', 'writeonly', 'noalias', 'nonnull', 'signext', 'zeroext', 'returned', 'immarg',
         'inreg', 'nest', 'readnone', 'nofree', 'inbounds', 'nsw', 'nuw', 'exact', 'tail', 'fast', 'volatile', 'disjoint', 'nneg', 'dead_on_unwind', 'writable'}

class Func:
    def __init__(self, mod, name, lines):
        self.mod = mod; self.name = name
        head = lines[0]
        k = head.index('(', head.index('@'))
        d = 0
        for j in range(k, len(head)):
            if head[j] == '(': d += 1
            elif head[j] == ')':
                d -= 1
                if d == 0: break
        self.params = []
        n = 0
        for a in split_args(head[k + 1:j]):
            if a == '...': self.vararg = True; continue
            t, r = mod.parse_ty(a)
            byval = re.search(r'(byval|sret)\((.*?)\)', r)
            m = re.search(r'(%[\w.$-]+)\s*$', r)
            nm = m.group(1) if m else '%%%d' % n
            self.params.append((nm, t, (byval.group(1), mod.ty(byval.group(2))) if byval else None))
            n += 1
        self.entry = None
        self.blocks = {}
        m = re.match(r'define (.*?)@', head)
        rt = m.group(1)
        for w in ('dso_local', 'internal', 'weak', 'hidden', 'linkonce_odr', 'noundef', 'zeroext', 'signext', 'local_unnamed_addr', 'noalias', 'protected', 'nonnull', 'weak_odr', 'available_externally', 'comdat'):
            rt = re.sub(r'\b%s\b' % w, '', rt)
        self.ret = mod.ty(rt)
        self.internal = ' internal ' in head
        cur = None
        i = 1
        first = True
        while i < len(lines) - 1:
            l = lines[i]; i += 1
            c = l.find('; preds')
            s = l.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'([\w.$-]+|"[^"]*"):', l)
            if m:
                cur = '%' + m.group(1)
                self.blocks[cur] = []
                if self.entry is None: self.entry = cur
                continue
            if cur is None:
                cur = '%entry!'; self.blocks[cur] = []; self.entry = cur
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                while True:
                    x = lines[i].strip(); i += 1
                    s += ' ' + x
                    if x.startswith(']'): break
            s = re.sub(r'(, ![\w.]+ !?[\w.]+|, !\w+ !\d+)+\s*$', '', s)
            s = re.sub(r'\s+#\d+\s*$', '', s)
            self.blocks[cur].append(s)
        self._dec = {}
        # unnamed entry block label is the next number after params
        if self.entry == '%entry!':
            n = sum(1 for p in self.params)
            self.blocks['%%%d' % n] = self.blocks[self.entry]
            self.entry = '%%%d' % n
    def insts(self, b):
        r = self._dec.get(b)
        if r is None:
            r = self._dec[b] = [self.decode(s) for s in self.blocks[b]]
        return r
    # operand: ('r',name) | ('c',int) | ('g',name) | ('null',) | ('undef',) | ('ce',...) | ('agg',...)
    def operand(self, t, s):
        return parse_operand(self.mod, t, s)
    def decode(self, s):
        dst = None
        m = re.match(r'(%[\w.$-]+) = ', s)
        if m: dst = m.group(1); s = s[m.end():]
        op, _, r = s.partition(' ')
        while op in ('tail', 'musttail', 'notail'):
            op, _, r = r.partition(' ')
        mod = self.mod
        def strip(r):
            while True:
                w, _, x = r.partition(' ')
                if w in ATTRS or w in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): r = x
                else: return r
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv'):
            t, r = mod.parse_ty(strip(r))
            a, b = split_args(r)
            return ('bin', dst, op, t, self.operand(t, a), self.operand(t, b))
        if op == 'fneg':
            t, r = mod.parse_ty(strip(r))
            return ('fneg', dst, t, self.operand(t, r))
        if op in ('icmp', 'fcmp'):
            r = strip(r)
            pred, _, r = r.partition(' ')
            t, r = mod.parse_ty(strip(r))
            a, b = split_args(r)
            return (op, dst, pred, t, self.operand(t, a), self.operand(t, b))
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            t, r = mod.parse_ty(strip(r))
            a, b = r.rsplit(' to ', 1)
            return ('cast', dst, op, t, self.operand(t, a), mod.ty(b))
        if op == 'select':
            a, b, c = split_args(strip(r))
            tc, ra = mod.parse_ty(a); tb, rb = mod.parse_ty(b); tc2, rc = mod.parse_ty(c)
            return ('select', dst, tb, self.operand(tc, ra), self.operand(tb, rb), self.operand(tc2, rc))
        if op == 'phi':
            t, r = mod.parse_ty(strip(r))
            inc = []
            for x in split_args(r):
                v, b = split_args(x.strip()[1:-1])
                inc.append((b, self.operand(t, v)))
            return ('phi', dst, t, inc)
        if op == 'br':
            if r.startswith('label'):
                return ('br', r.split()[1])
            a, b, c = split_args(r)
            t, ra = mod.parse_ty(a)
            return ('cbr', self.operand(t, ra), b.split()[1], c.split()[1])
        if op == 'switch':
            m = re.match(r'(.*?), label (\S+)\s*\[(.*)\]', r)
            t, ra = mod.parse_ty(m.group(1))
            cases = re.findall(r'i\d+ (-?\d+), label (\S+)', m.group(3))
            return ('switch', t, self.operand(t, ra), m.group(2), [(int(v), b) for v, b in cases])
        if op == 'ret':
            if r == 'void': return ('ret', None, None)
            t, ra = mod.parse_ty(r)
            return ('ret', t, self.operand(t, ra))
        if op == 'load':
            a = split_args(strip(r))
            t = mod.ty(a[0])
            _, p = mod.parse_ty(a[1])
            return ('load', dst, t, self.operand(_, p))
        if op == 'store':
            a = split_args(strip(r))
            t, v = mod.parse_ty(a[0])
            _, p = mod.parse_ty(a[1])
            return ('store', t, self.operand(t, v), self.operand(_, p))
        if op == 'alloca':
            a = split_args(r)
            n = None
            if len(a) > 1 and not a[1].startswith('align'):
                t2, v = mod.parse_ty(a[1]); n = (t2, self.operand(t2, v))
            return ('alloca', dst, mod.ty(a[0]), n)
        if op == 'getelementptr':
            a = split_args(strip(r))
            t = mod.ty(a[0])
            ops = []
            for x in a[1:]:
                tt, v = mod.parse_ty(x); ops.append((tt, self.operand(tt, v)))
            return ('gep', dst, t, ops)
        if op == 'extractvalue':
            a = split_args(r)
            t, v = mod.parse_ty(a[0])
            return ('extract', dst, t, self.operand(t, v), [int(x) for x in a[1:]])
        if op == 'insertvalue':
            a = split_args(r)
            t, v = mod.parse_ty(a[0]); t2, v2 = mod.parse_ty(a[1])
            return ('insert', dst, t, self.operand(t, v), t2, self.operand(t2, v2), [int(x) for x in a[2:]])
        if op == 'freeze':
            t, v = mod.parse_ty(r)
            return ('copy', dst, t, self.operand(t, v))
        if op == 'unreachable': return ('unreachable',)
        if op == 'call':
            if 'asm ' in r.split('(')[0] or ' asm ' in r: return ('asm', dst, r)
            # [cc] [ret attrs] type callee(args)
            r0 = r
            while True:
                w, _, x = r.partition(' ')
                if w in ATTRS or w in ('fastcc', 'ccc', 'coldcc'): r = x
                elif w == 'align': r = x.partition(' ')[2]
                elif re.match(r'(range|align|dereferenceable)\b', w): r = x
                else: break
            t, r = mod.parse_ty(r)
            r = r.lstrip()
            m = re.match(r'(@"[^"]*"|@[\w.$-]+|%[\w.$-]+)\(', r)
            if not m: raise ValueError('call? ' + r0)
            callee = m.group(1).replace('"', '').replace('\\01', '')
            d = 0
            for j in range(m.end() - 1, len(r)):
                if r[j] == '(': d += 1
                elif r[j] == ')':
                    d -= 1
                    if d == 0: break
            args = []
            for x in split_args(r[m.end():j]):
                if x.startswith('metadata'): continue
                tt, v = mod.parse_ty(x)
                bv = re.search(r'(byval|sret)\((%?[^)]*)\)', v)
                v = re.sub(r'\b(byval|sret|align|dereferenceable|dereferenceable_or_null|captures|initializes)\s*(\([^)]*\)|\d+)', '', v)
                w = [y for y in v.split() if y not in ATTRS] if not v.lstrip().startswith(('getelementptr', 'inttoptr', 'bitcast')) else [v.strip()]
                args.append((tt, self.operand(tt, ' '.join(w)), bv.group(1) if bv else None, mod.ty(bv.group(2)) if bv else None))
            return ('call', dst, t, callee, args)
        raise ValueError('instruction? ' + s)

def parse_operand(mod, t, s):
    s = s.strip()
    while True:
        w, _, x = s.partition(' ')
        if w in ATTRS: s = x.strip()
        else: break
    if s.startswith('align '):
        s = s.split(None, 2)[2]
    if s.startswith('%'): return ('r', s)
    if s.startswith('@'): return ('g', s[1:].strip('"').replace('\\01', ''))
    if re.match(r'-?\d+$', s): return ('c', int(s))
    if s == 'true': return ('c', 1)
    if s == 'false': return ('c', 0)
    if s == 'null': return ('null',)
    if s in ('undef', 'poison'): return ('undef',)
    if s == 'zeroinitializer': return ('zero',)
    if re.match(r'-?\d+\.\d+e[-+]\d+$', s): return ('f', float(s))
    if re.match(r'0x[KLMHR]?[0-9A-Fa-f]+$', s): return ('fx', s)
    if s.startswith('getelementptr'):
        r = s[len('getelementptr'):].strip()
        while True:
            w, _, x = r.partition(' ')
            if w in ATTRS: r = x.strip()
            elif w.startswith('inrange('): r = r[r.index(')')+1:].strip()
            else: break
        assert r[0] == '('
        a = split_args(r[1:r.rindex(')')])
        ty = mod.ty(a[0]); ops = []
        for x in a[1:]:
            tt, v = mod.parse_ty(x); ops.append((tt, parse_operand(mod, tt, v)))
        return ('gep', ty, ops)
    m = re.match(r'(ptrtoint|inttoptr|bitcast|trunc|zext) \((.*)\)$', s)
    if m:
        a, b = m.group(2).rsplit(' to ', 1)
        tt, v = mod.parse_ty(a)
        return ('cast', m.group(1), tt, parse_operand(mod, tt, v), mod.ty(b))
    m = re.match(r'(sub|add) (?:nuw |nsw )*\((.*)\)$', s)
    if m:
        a = split_args(m.group(2))
        t1, v1 = mod.parse_ty(a[0]); t2, v2 = mod.parse_ty(a[1])
        return ('cbin', m.group(1), parse_operand(mod, t1, v1), parse_operand(mod, t2, v2))
    if s[0] in '[{<':
        packed = s.startswith('<{')
        inner = s[2:-2] if packed else s[1:-1]
        vs = []
        for x in split_args(inner):
            tt, v = mod.parse_ty(x); vs.append((tt, parse_operand(mod, tt, v)))
        return ('agg', vs)
    if s.startswith('c"'):
        raw = s[2:-1]; out = []
        i = 0
        while i < len(raw):
            if raw[i] == '\\': out.append(int(raw[i + 1:i + 3], 16)); i += 3
            else: out.append(ord(raw[i])); i += 1
        return ('bytes', bytes(out))
    raise ValueError('operand? ' + s[:100])
