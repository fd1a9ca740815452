"""Extraction: configure and build libdfp from /repo's working tree in a scratch
directory, read the list of translation units from its own makefile, and
compile each unit a check needs with clang to LLVM IR."""
import os, re, subprocess, sys, tempfile, shutil, atexit, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENV = dict(os.environ, LC_ALL='C', CC='gcc', CXX='g++', AWK='gawk', CFLAGS='-O2 -g', CXXFLAGS='-O2 -g')
for k in ('MAKEFLAGS', 'MAKELEVEL'): ENV.pop(k, None)

class ExtractError(Exception): pass

def sh(cmd, cwd=None, timeout=600, check=True):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    if check and r.returncode != 0:
        raise ExtractError('%s failed: %s' % (cmd[0], (r.stderr or r.stdout)[-2000:]))
    return r

class Build:
    def __init__(self, scratch=None):
        if scratch is None:
            scratch = tempfile.mkdtemp(prefix='vdfp.')
            pid = os.getpid()
            def clean():
                if os.getpid() == pid: shutil.rmtree(scratch, ignore_errors=True)
            atexit.register(clean)
        self.dir = scratch
        self.b = os.path.join(scratch, 'b')
        os.makedirs(self.b, exist_ok=True)
        self.units = {}
        self._ll = {}
    def configure(self):
        sh([REPO + '/configure', '--prefix=' + self.b + '/i'], cwd=self.b)
        if not os.path.exists(REPO + '/libbid/bid_binarydecimal.c'):
            with open(self.b + '/bid_binarydecimal.c', 'w') as f: f.write('/* placeholder, as /opt/vp/build.sh */\n')
        out = sh(['make', '-n', 'libdfp.so'], cwd=self.b).stdout
        self.incs = None
        for line in out.replace('\\\n', ' ').splitlines():
            m = re.search(r'-c (\S+\.c) .*-o (\S+)\.os\s*$', line)
            if m:
                self.units[m.group(2)] = m.group(1)
                if self.incs is None:
                    self.incs = re.findall(r'-I(\S+)', line)
        if len(self.units) < 300: raise ExtractError('only %d units found in the makefile output' % len(self.units))
        self.incs = [i if i != '.' else self.b for i in self.incs]
        hdr = sh([sys.executable, HERE + '/gen_declower.py']).stdout
        with open(self.dir + '/declower.h', 'w') as f: f.write(hdr)
    def native(self):
        r = subprocess.run(['make', '-j8', 'libdfp.so'], cwd=self.b, env=ENV, capture_output=True, text=True)
        if r.returncode or not os.path.exists(self.b + '/libdfp.so'):
            raise ExtractError('native build failed: ' + r.stderr[-1500:])
        return self.b
    DEFS = ['-D__OPTIMIZE__=1', '-D__hidden_proto(...)=', '-D__libgcc_cmp_return__=__word__', '-Dlibgcc_cmp_return=__word__', '-DUSE_TLS', '-DHAVE_CC_TLS', '-D__STDC_WANT_DEC_FP__=1',
            '-D__STDC_WANT_IEC_60559_DFP_EXT__=1', '-D__STDC_WANT_IEC_60559_BFP_EXT__=1']
    def ll(self, unit):
        """path of the .ll of a unit (by object name, e.g. fmad32)"""
        if unit in self._ll: return self._ll[unit]
        src = self.units.get(unit)
        if src is None: raise ExtractError('no unit ' + unit)
        if not os.path.isabs(src): src = os.path.join(self.b, src)
        final = os.path.join(self.dir, unit); out = '%s.%d' % (final, os.getpid())
        inc = ['-I' + i for i in self.incs]
        pre = ['-include', self.b + '/config.h', '-include', REPO + '/include/libdfp-symbols.h']
        cm = out + '.c.h'
        with open(cm, 'w') as f:
            f.write('typedef struct { unsigned w_; } vd_Decimal32; typedef struct { unsigned long long w_; } vd_Decimal64;\n'
                    'typedef struct { _Alignas(16) unsigned long long w_[2]; } vd_Decimal128;\n'
                    '#define _Decimal32 vd_Decimal32\n#define _Decimal64 vd_Decimal64\n#define _Decimal128 vd_Decimal128\n')
        r = subprocess.run(['clang', '-std=gnu11', '-w', '-O1', '-ffp-contract=off', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing'] + self.DEFS +
                           ['-include', cm] + pre + inc + ['-S', '-emit-llvm', '-o', out + '.0.ll', src], capture_output=True, text=True)
        mode = 'C'
        if r.returncode:
            mode = 'C++'
            with open(out + '.cc', 'w') as f:
                f.write('#include "%s/declower.h"\nextern "C" {\n#include "config.h"\n#include "%s/include/libdfp-symbols.h"\n#include "%s"\n}\n' % (self.dir, REPO, src))
            fl = ['-std=gnu++17', '-nostdinc++', '-fno-exceptions', '-fno-rtti', '-w', '-Wno-c++11-narrowing', '-fno-operator-names']
            sh(['clang', '-E', '-x', 'c++'] + fl + self.DEFS + ['-I' + self.b] + inc + ['-o', out + '.ii', out + '.cc'])
            s = open(out + '.ii').read()
            s = re.sub(r'("(?:\\.|[^"\\\n])*")|(?<![\w.])((?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)([dD][fdlFDL]?)\b',
                       lambda m: m.group(1) if m.group(1) else m.group(2) + ('_' + m.group(3) if len(m.group(3)) == 2 else ''), s)
            s = re.sub(r'\benum\s+rounding\b(?!\s*\{)', 'int', s)
            s = re.sub(r'\bregister\b', '', s)
            with open(out + '.ii', 'w') as f: f.write(s)
            r = subprocess.run(['clang', '-x', 'c++-cpp-output'] + fl + ['-O1', '-ffp-contract=off', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-S', '-emit-llvm', '-o', out + '.0.ll', out + '.ii'], capture_output=True, text=True)
            if r.returncode: raise ExtractError('clang cannot compile %s: %s' % (src, r.stderr[:1500]))
        sh(['opt', '-passes=always-inline,function(sroa,early-cse,instsimplify,lower-constant-intrinsics,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup;keep-loops;no-switch-range-to-icmp;bonus-inst-threshold=0>,dce)', '-S', out + '.0.ll', '-o', out + '.ll'])
        os.replace(out + '.ll', final + '.ll')
        for x in ('.0.ll', '.c.h', '.cc', '.ii'):
            if os.path.exists(out + x): os.unlink(out + x)
        self._ll[unit] = final + '.ll'
        return final + '.ll'

def find_opt():
    p = shutil.which('opt')
    if not p:
        os.environ['PATH'] += ':/usr/lib/llvm-18/bin'; ENV['PATH'] = os.environ['PATH']
find_opt()
