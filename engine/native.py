"""Native replay: a C driver over the freshly built libdfp.so."""
import os, subprocess, random
from verify import DECW, INTW
CT = {'d32': '_Decimal32', 'd64': '_Decimal64', 'd128': '_Decimal128', 'i32': 'int', 'u32': 'unsigned', 'i64': 'long long', 'u64': 'unsigned long long',
      'i128': '__int128', 'u128': 'unsigned __int128', 'i8': 'signed char'}
# argument kinds of bounded-only contracts: S string, W wide string (input bytes), E/F char**/wchar_t** end pointer
# (output: offset in the first argument), O output buffer of 9000 bytes (output: the string)
STR = {'S': 'const char*', 'W': 'const wchar_t*', 'E': 'char**', 'F': 'wchar_t**', 'O': 'char*'}
def ct(a): return STR[a] if a in STR else CT[a] if a[0] != 'P' else CT[a[1:]] + '*'
def size(a): return (DECW.get(a) or INTW[a][0]) // 8

def driver_source(cts):
    L = ['#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <errno.h>\n#include <fenv.h>\n#include <signal.h>\n#include <unistd.h>',
         'extern int vd_setround(int) __asm__("fe_dec_setround");',
         'typedef unsigned long long u64; typedef unsigned __int128 u128;',
         'static u128 rd(void){u64 h,l; if(scanf("%llx:%llx",&h,&l)!=2) exit(0); return ((u128)h<<64)|l;}',
         '#include <wchar.h>',
         'static unsigned char*rs(size_t*n){static char t[200000]; if(scanf(" s%199999s",t)!=1) exit(0); size_t l=strlen(t)/2; unsigned char*p=malloc(l+1); for(size_t i=0;i<l;i++){unsigned x; sscanf(t+2*i,"%2x",&x); p[i]=x;} p[l]=0; *n=l; return p;}',
         'static wchar_t*rw(void){size_t n; unsigned char*p=rs(&n); wchar_t*w=malloc((n+1)*sizeof*w); for(size_t i=0;i<=n;i++) w[i]=p[i]; free(p); return w;}',
         'static void ws(const unsigned char*p,size_t n){printf(" s"); for(size_t i=0;i<n;i++) printf("%02x",p[i]); if(!n) printf("-");}',
         'extern int vd_getround(void) __asm__("fe_dec_getround");',
         'static void wr(u128 v){printf(" %llx:%llx",(u64)(v>>64),(u64)v);}']
    for i, c in enumerate(cts):
        if c.internal: continue
        if c.csrc: L.append(c.csrc)
        if c.csrc: L.append('#define vf%d %s' % (i, c.fn))
        else: L.append('extern %s vf%d(%s) __asm__("%s");' % (ct(c.ret), i, ','.join(ct(a) for a in c.args) or 'void', c.fn))
    L.append('static int RMAP[5];')
    L.append('static void on(int s){ printf(" S%d\\n", s); fflush(stdout); _exit(3);}')
    L.append('int main(void){ int idx, rm; signal(SIGSEGV,on);signal(SIGFPE,on);signal(SIGABRT,on);')
    L.append(' RMAP[0]=0;RMAP[1]=3;RMAP[2]=2;RMAP[3]=1;RMAP[4]=4;')
    L.append(' while(scanf("%d %d",&idx,&rm)==2){ vd_setround(RMAP[rm]); alarm(20); switch(idx){')
    for i, c in enumerate(cts):
        if c.internal: continue
        L.append('  case %d: {' % i)
        for j, a in enumerate(c.args):
            t = a if a[0] != 'P' else a[1:]
            if a in STR:
                L.append({'S': '   size_t n%d; char*v%d=(char*)rs(&n%d);' % (j, j, j), 'W': '   wchar_t*v%d=rw();' % j, 'E': '   rd(); char*e%d=0; char**v%d=&e%d;' % (j, j, j), 'F': '   rd(); wchar_t*e%d=0; wchar_t**v%d=&e%d;' % (j, j, j),
                          'O': '   rd(); static char v%d[9001]; memset(v%d,0xa5,9000); v%d[9000]=0;' % (j, j, j)}[a]); continue
            L.append('   u128 b%d=rd(); %s v%d; memset(&v%d,0xa5,sizeof v%d);' % (j, CT[t], j, j, j))
            if a[0] != 'P': L.append('   memcpy(&v%d,&b%d,sizeof v%d);' % (j, j, j))
        L.append('   feclearexcept(FE_ALL_EXCEPT); errno=0;')
        L.append('   %s r=vf%d(%s);' % (CT[c.ret], i, ','.join(('v%d' % j if a[0] != 'P' else '&v%d' % j) for j, a in enumerate(c.args))))
        L.append('   int er=errno, fx=fetestexcept(FE_ALL_EXCEPT); u128 o=0; memcpy(&o,&r,sizeof r); wr(o);')
        for j, a in enumerate(c.args):
            if a in 'EF': L.append('   wr((u128)(e%d?e%d-v0:99999));' % (j, j))
            if a == 'O': L.append('   ws((unsigned char*)v%d,strlen(v%d));' % (j, j))
            if a in 'SW': L.append('   free(v%d);' % j)
            if a[0] == 'P': L.append('   o=0; memcpy(&o,&v%d,sizeof v%d); wr(o);' % (j, j))
        L.append('   printf(" %d %d %d\\n",fx,er,vd_getround()); break; }')
    L.append(' } fflush(stdout); } return 0; }')
    return '\n'.join(L)

RMAP = (0, 3, 2, 1, 4)
class Native:
    def __init__(self, build, cts):
        self.cts = cts; self.dir = build.dir
        if not os.path.exists(build.b + '/libdfp.so.1'): os.symlink('libdfp.so', build.b + '/libdfp.so.1')
        self.src = build.dir + '/nd.c'; self.exe = build.dir + '/nd'
        open(self.src, 'w').write(driver_source(cts))
        r = subprocess.run(['gcc', '-std=gnu11', '-w', '-O0', '-fno-builtin', '-o', self.exe, self.src, build.b + '/libdfp.so', '-Wl,-rpath,' + build.b, '-lm'], capture_output=True, text=True)
        if r.returncode: raise RuntimeError('native driver: ' + r.stderr[:800])
        self.calls = 0
    def run(self, reqs):
        """reqs: [(idx, rm, inputs)] -> list of result dicts (None after a crash/timeouts: {'signal':n})"""
        out = []
        todo = list(reqs)
        while todo:
            s = '\n'.join('%d %d %s' % (i, rm, ' '.join('s' + (x.hex() or '-') if isinstance(x, bytes) else '%x:%x' % (x >> 64, x & (2**64 - 1)) for x in inp)) for i, rm, inp in todo)
            try:
                r = subprocess.run([self.exe], input=s + '\n', capture_output=True, text=True, timeout=120)
                lines = r.stdout.split('\n'); rc = r.returncode
            except subprocess.TimeoutExpired as e:
                lines = (e.stdout or b'').decode().split('\n'); rc = -14
            got = 0
            for l in lines:
                if not l.strip(): continue
                p = l.split()
                if p[0][0] == 'S': break
                i, rm, inp = todo[got]
                c = self.cts[i]
                v = [bytes.fromhex(x[1:].replace('-', '')) if x[0] == 's' else int(x.split(':')[0], 16) << 64 | int(x.split(':')[1], 16) for x in p[:-3]]
                outs = {}
                k = 1
                for j, a in enumerate(c.args):
                    if a[0] == 'P' or a in 'EFO': outs[j] = v[k]; k += 1
                out.append({'ret': v[0], 'outs': outs, 'exc': int(p[-3]), 'errno': int(p[-2]), 'mode': int(p[-1]), 'rmkept': int(p[-1]) == RMAP[rm]}); got += 1
            if got < len(todo):
                out.append({'signal': rc}); got += 1
            todo = todo[got:]
            self.calls += got
        return out
