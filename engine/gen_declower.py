#!/usr/bin/env python3
# Generates declower.h: clang classes standing for gcc's decimal types.
# generate declower.h
T=[('_Decimal32','sd','D32'),('_Decimal64','dd','D64'),('_Decimal128','td','D128')]
o=[]
p=o.append
p('''/* Force-included when a libdfp unit that computes with _Decimal types is
   compiled by clang for extraction.  clang has no _Decimal types; gcc lowers
   every operation on them to a call of the __bid_* runtime functions (see
   `gcc -S`), and these classes make exactly that lowering explicit.
   Written by hand once; nothing in it depends on the code under check. */
#pragma once
#include <sys/cdefs.h>
#include <features.h>
#undef __THROW
#define __THROW
#undef __THROWNL
#define __THROWNL
#undef __NTH
#define __NTH(f) f
#undef __NTHNL
#define __NTHNL(f) f
#undef __LEAF
#define __LEAF
#undef __LEAF_ATTR
#define __LEAF_ATTR
typedef unsigned int        vd_u32;
typedef unsigned long long  vd_u64;
struct _Decimal32; struct _Decimal64; struct _Decimal128;
#define restrict __restrict
#define VD_I inline __attribute__((always_inline))
#define _Alignas alignas
#define _Static_assert static_assert
#define _Float128 __float128''')
ints=[('int','si','SI','fix','float'),('unsigned int','uns si','USI','','')]
p('extern "C" {')
for (t,m,_) in T:
    for op in ('add','sub','mul','div'): p(f'{t} __bid_{op}{m}3({t},{t});')
    for op in ('eq','ne','lt','le','gt','ge'): p(f'int __bid_{op}{m}2({t},{t});')
    for ct,cm in (('int','si'),('long','di'),('__int128','ti')): 
        p(f'{ct} __bid_fix{m}{cm}({t}); unsigned {ct} __bid_fixuns{m}{cm}({t}); {t} __bid_float{cm}{m}({ct}); {t} __bid_floatuns{cm}{m}(unsigned {ct});')
    for ct,cm in (('float','sf'),('double','df'),('long double','xf'),('__float128','tf')):
        nm = dict(sd={'sf':('trunc','extend'),'df':('extend','trunc'),'xf':('extend','trunc'),'tf':('extend','trunc')},
             dd={'sf':('trunc','extend'),'df':('trunc','extend'),'xf':('extend','trunc'),'tf':('extend','trunc')},
             td={'sf':('trunc','extend'),'df':('trunc','extend'),'xf':('trunc','extend'),'tf':('trunc','extend')})[m][cm]
        p(f'{ct} __bid_{nm[0]}{m}{cm}({t}); {t} __bid_{nm[1]}{cm}{m}({ct});')
p('_Decimal64 __bid_extendsddd2(_Decimal32); _Decimal128 __bid_extendsdtd2(_Decimal32); _Decimal128 __bid_extendddtd2(_Decimal64);')
p('_Decimal32 __bid_truncddsd2(_Decimal64); _Decimal32 __bid_trunctdsd2(_Decimal128); _Decimal64 __bid_trunctddd2(_Decimal128);')
p('}')
IT=[('bool','int','si',0),('char','int','si',0),('signed char','int','si',0),('short','int','si',0),('int','int','si',0),('long','long','di',0),('long long','long','di',0),('__int128','__int128','ti',0),
    ('unsigned char','int','si',0),('unsigned short','int','si',0),('unsigned int','unsigned int','si',1),('unsigned long','unsigned long','di',1),('unsigned long long','unsigned long','di',1),('unsigned __int128','unsigned __int128','ti',1)]
FT=[('float','sf'),('double','df'),('long double','xf'),('__float128','tf')]
FROM=dict(sd={'sf':('trunc','extend'),'df':('extend','trunc'),'xf':('extend','trunc'),'tf':('extend','trunc')},
             dd={'sf':('trunc','extend'),'df':('trunc','extend'),'xf':('extend','trunc'),'tf':('extend','trunc')},
             td={'sf':('trunc','extend'),'df':('trunc','extend'),'xf':('trunc','extend'),'tf':('trunc','extend')})
for i,(t,m,_) in enumerate(T):
    st={'sd':'vd_u32 w_;','dd':'vd_u64 w_;','td':'vd_u64 w_[2];'}[m]
    al='alignas(16) ' if m=='td' else ''
    p(f'struct {al}{t} {{ {st}')
    p(f'  {t}() = default;')
    for (ct,rt,cm,u) in IT: p(f'  VD_I {t}({ct} v); VD_I operator {ct}() const;')
    for (ct,cm) in FT: p(f'  VD_I {t}({ct} v); VD_I operator {ct}() const;')
    for j,(t2,m2,_) in enumerate(T):
        if j<i: p(f'  VD_I {t}({t2} v);')
        if j>i: p(f'  VD_I {t}({t2} v);')
    for op in '+-*/': p(f'  template<class B> VD_I {t}& operator{op}=(B b) {{ *this = {t}(*this {op} b); return *this; }}')
    p(f'  VD_I {t} operator++(int) {{ {t} o=*this; *this = __bid_add{m}3(*this, {t}(1)); return o; }}')
    p(f'  VD_I {t} operator--(int) {{ {t} o=*this; *this = __bid_sub{m}3(*this, {t}(1)); return o; }}')
    p(f'  VD_I {t}& operator++() {{ *this = __bid_add{m}3(*this, {t}(1)); return *this; }}')
    p(f'  VD_I {t}& operator--() {{ *this = __bid_sub{m}3(*this, {t}(1)); return *this; }}')
    p('};')
LIT = []
for i,(t,m,_) in enumerate(T): p(f'static {t} vd_const{m}(bool, unsigned __int128);')
for i,(t,m,_) in enumerate(T):
    for (ct,rt,cm,u) in IT:
        un='uns' if u else ''
        # gcc folds the conversion of a constant at compile time, to nearest even
        p(f'VD_I {t}::{t}({ct} v) {{ if (__builtin_constant_p(v)) *this = vd_const{m}(v < 0, v < 0 ? -(unsigned __int128)v : (unsigned __int128)v); else *this = __bid_float{un}{cm}{m}(({rt})v); }}')
        if ct=='bool': p(f'VD_I {t}::operator bool() const {{ return __bid_ne{m}2(*this, {t}(0)) != 0; }}')
        else: p(f'VD_I {t}::operator {ct}() const {{ return ({ct})__bid_fix{un}{m}{cm}(*this); }}')
    for (ct,cm) in FT:
        to,fr=FROM[m][cm]
        p(f'VD_I {t}::{t}({ct} v) {{ *this = __bid_{fr}{cm}{m}(v); }} VD_I {t}::operator {ct}() const {{ return __bid_{to}{m}{cm}(*this); }}')
    for j,(t2,m2,_) in enumerate(T):
        if j<i: p(f'VD_I {t}::{t}({t2} v) {{ *this = __bid_extend{m2}{m}2(v); }}')
        if j>i: p(f'VD_I {t}::{t}({t2} v) {{ *this = __bid_trunc{m2}{m}2(v); }}')
p('''template<class A> struct vd_rank { static constexpr int v = 0; };
template<> struct vd_rank<_Decimal32> { static constexpr int v = 1; };
template<> struct vd_rank<_Decimal64> { static constexpr int v = 2; };
template<> struct vd_rank<_Decimal128> { static constexpr int v = 3; };
template<int R> struct vd_ty {}; 
template<> struct vd_ty<1> { typedef _Decimal32 t; };
template<> struct vd_ty<2> { typedef _Decimal64 t; };
template<> struct vd_ty<3> { typedef _Decimal128 t; };
template<class A,class B> struct vd_j { static constexpr int a = vd_rank<A>::v, b = vd_rank<B>::v; static constexpr int r = a>b?a:b; };''')
for (t,m,_) in T: p(f'extern "C" int __bid_unord{m}2({t},{t}); VD_I int vd_unord({t} a,{t} b) {{ return __bid_unord{m}2(a,b); }}')
nm={'+':'add','-':'sub','*':'mul','/':'div'}
for (t,m,_) in T:
    for op in '+-*/': p(f'VD_I {t} vd_{nm[op]}({t} a,{t} b) {{ return __bid_{nm[op]}{m}3(a,b); }}')
    for op,n in (('==','eq'),('!=','ne'),('<','lt'),('<=','le'),('>','gt'),('>=','ge')): 
        p(f'VD_I bool vd_{n}({t} a,{t} b) {{ return __bid_{n}{m}2(a,b) {op} 0; }}')
for op in '+-*/': p(f'template<class A,class B, class T = typename vd_ty<vd_j<A,B>::r>::t> VD_I T operator{op}(A a,B b) {{ return vd_{nm[op]}((T)a,(T)b); }}')
for op,n in (('==','eq'),('!=','ne'),('<','lt'),('<=','le'),('>','gt'),('>=','ge')): 
    p(f'template<class A,class B, class T = typename vd_ty<vd_j<A,B>::r>::t> VD_I bool operator{op}(A a,B b) {{ return vd_{n}((T)a,(T)b); }}')
p('VD_I _Decimal32 operator-(_Decimal32 a) { a.w_ ^= 0x80000000u; return a; }')
p('VD_I _Decimal64 operator-(_Decimal64 a) { a.w_ ^= 0x8000000000000000ull; return a; }')
p('VD_I _Decimal128 operator-(_Decimal128 a) { a.w_[1] ^= 0x8000000000000000ull; return a; }')
for (t,m,_) in T:
    p(f'VD_I {t} operator+({t} a) {{ return a; }} VD_I bool operator!({t} a) {{ return a == 0; }}')
p('''
struct vd_lit { unsigned __int128 c; int e; };
constexpr vd_lit vd_parse(const char *s) {
  vd_lit r{0,0}; bool dot=false;
  while (*s && *s!='e' && *s!='E') { if (*s=='.') dot=true; else { r.c = r.c*10 + (unsigned)(*s-'0'); if (dot) r.e--; } ++s; }
  if (*s) { ++s; int sg=1; if (*s=='-') { sg=-1; ++s; } else if (*s=='+') ++s; int x=0; while (*s) { x = x*10 + (*s-'0'); ++s; } r.e += sg*x; }
  return r; }
/* literals are exactly representable or rounded to nearest even, and never
   out of range; vd_norm drops excess digits */
constexpr unsigned __int128 vd_p10(int n) { unsigned __int128 r=1; while (n-->0) r*=10; return r; }
constexpr vd_lit vd_norm(vd_lit v, int p, int emin, int emax) {
  int drop=0; unsigned __int128 c=v.c; 
  while (c >= vd_p10(p)) { c/=10; drop++; }
  if (v.e + drop < emin) { drop = emin - v.e; }
  if (drop>0) { if (drop>38) return vd_lit{0,emin}; unsigned __int128 q=v.c/vd_p10(drop), r=v.c%vd_p10(drop), h=vd_p10(drop)/2; 
     if (r>h || (r==h && (q&1))) q++; if (q==vd_p10(p)) { q/=10; drop++; } return vd_lit{q, v.e+drop}; }
  unsigned __int128 q=v.c; int e=v.e; while (e>emax && q!=0) { q*=10; e--; } if (e>emax) e=emax;
  return vd_lit{q,e}; }
constexpr vd_u32 vd_enc32(vd_lit v) { vd_u32 c=(vd_u32)v.c, e=(vd_u32)(v.e+101); return c < (1u<<23) ? (e<<23)|c : 0x60000000u|(e<<21)|(c&0x1fffffu); }
constexpr vd_u64 vd_enc64(vd_lit v) { vd_u64 c=(vd_u64)v.c, e=(vd_u64)(v.e+398); return c < (1ull<<53) ? (e<<53)|c : 0x6000000000000000ull|(e<<51)|(c&0x7ffffffffffffull); }
VD_I _Decimal32 operator""_DF(const char *s) { _Decimal32 r; r.w_ = vd_enc32(vd_norm(vd_parse(s),7,-101,90)); return r; }
VD_I _Decimal64 operator""_DD(const char *s) { _Decimal64 r; r.w_ = vd_enc64(vd_norm(vd_parse(s),16,-398,369)); return r; }
VD_I _Decimal128 operator""_DL(const char *s) { vd_lit v = vd_norm(vd_parse(s),34,-6176,6111); _Decimal128 r; r.w_[0]=(vd_u64)v.c; r.w_[1]=(vd_u64)(v.c>>64)|((vd_u64)(v.e+6176)<<49); return r; }
static inline _Decimal32 vd_constsd(bool n, unsigned __int128 a) { _Decimal32 r; r.w_ = vd_enc32(vd_norm(vd_lit{a,0},7,-101,90)) | (vd_u32)n << 31; return r; }
static inline _Decimal64 vd_constdd(bool n, unsigned __int128 a) { _Decimal64 r; r.w_ = vd_enc64(vd_norm(vd_lit{a,0},16,-398,369)) | (vd_u64)n << 63; return r; }
static inline _Decimal128 vd_consttd(bool n, unsigned __int128 a) { vd_lit v = vd_norm(vd_lit{a,0},34,-6176,6111); _Decimal128 r; r.w_[0]=(vd_u64)v.c; r.w_[1]=(vd_u64)(v.c>>64)|((vd_u64)(v.e+6176)<<49) | (vd_u64)n << 63; return r; }
VD_I _Decimal32 operator""_df(const char *s) { return operator""_DF(s); }
VD_I _Decimal64 operator""_dd(const char *s) { return operator""_DD(s); }
VD_I _Decimal128 operator""_dl(const char *s) { return operator""_DL(s); }''')

import re,subprocess
txt='\n'.join(o)

# runtime functions get a C++-side name of their own and the real symbol as asm label
o2=[]; seen=set()
def _decl(m):
    nm=m.group(1)
    return 'vdr_%s%s __asm__("__bid_%s");' % (nm, m.group(2), nm)
inext=False
for l in txt.split('\n'):
    if l.startswith('extern "C" {'): inext=True
    if inext or l.startswith('extern "C" int'):
        parts=l.split(' VD_I ',1)
        parts[0]=re.sub(r'__bid_(\w+)(\([^)]*\));', _decl, parts[0])
        l=' VD_I '.join(parts)
        if l=='}': inext=False
        o2.append(re.sub(r'(?<!")__bid_(?=\w+\()','vdr_',l))
    else: o2.append(re.sub(r'__bid_(?=\w+\()','vdr_',l))
txt='\n'.join(o2)
txt=re.sub(r'\b_Decimal(32|64|128)\b',r'vd_Decimal\1',txt)
txt+='''
VD_I vd_Decimal32 vd_mk32(vd_u32 v) { vd_Decimal32 r; r.w_=v; return r; }
VD_I vd_Decimal64 vd_mk64(vd_u64 v) { vd_Decimal64 r; r.w_=v; return r; }
VD_I vd_Decimal128 vd_mk128(vd_u64 h) { vd_Decimal128 r; r.w_[0]=0; r.w_[1]=h; return r; }
struct vd_inf32 { bool neg;
  VD_I operator vd_Decimal32() const { return vd_mk32(neg ? 0xf8000000u : 0x78000000u); }
  VD_I operator vd_Decimal64() const { return vd_mk64(neg ? 0xf800000000000000ull : 0x7800000000000000ull); }
  VD_I operator vd_Decimal128() const { return vd_mk128(neg ? 0xf800000000000000ull : 0x7800000000000000ull); } };
VD_I vd_inf32 operator*(int k, vd_inf32 a) { return vd_inf32{a.neg != (k < 0)}; } /* k is never 0 */
VD_I vd_inf32 operator-(vd_inf32 a) { return vd_inf32{!a.neg}; }
#define __builtin_infd32() (vd_inf32{false})
#define __builtin_infd64() vd_mk64(0x7800000000000000ull)
#define __builtin_infd128() vd_mk128(0x7800000000000000ull)
#define __builtin_nand32(s) vd_mk32(0x7c000000u)
#define __builtin_nand64(s) vd_mk64(0x7c00000000000000ull)
#define __builtin_isunordered(x,y) vd_unord(x,y)
#define __builtin_isnan(x) vd_unord(x,x)
#define __builtin_nand128(s) vd_mk128(0x7c00000000000000ull)
'''
txt+='\n#define _Decimal32 vd_Decimal32\n#define _Decimal64 vd_Decimal64\n#define _Decimal128 vd_Decimal128\n'
m=subprocess.run(['gcc','-dM','-E','-x','c','/dev/null'],capture_output=True,text=True).stdout
txt+='\n'.join(sorted(l for l in m.splitlines() if 'DEC32' in l or 'DEC64' in l or 'DEC128' in l or 'DECIMAL_BID' in l or 'DEC_EVAL' in l))+'\n'
for w in (32,64,128):
    for k in ('MANT_DIG','MIN_EXP','MAX_EXP','MAX','EPSILON','MIN','SUBNORMAL_MIN','TRUE_MIN'):
        v='SUBNORMAL_MIN' if k=='TRUE_MIN' else k
        txt+=f'#undef DEC{w}_{k}\n#define DEC{w}_{k} __DEC{w}_{v}__\n'

print(txt)
