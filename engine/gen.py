"""Directed input generation for replay search and for bounded stand-ins."""
import random
import forms
from verify import DECW, INTW

def coef(R, p):
    k = R.randrange(14)
    n = R.randint(1, p)
    if k == 0: return R.choice((0, 1, 2, 5, 9, 10))
    if k == 1: return 10 ** R.randint(0, p - 1)
    if k == 2: return 10 ** R.randint(1, p) - 1
    if k == 3: return 10 ** p - 1 - R.randint(0, 20)
    if k == 4: return min(10 ** p - 1, 10 ** (p - 1) + R.randint(0, 20))
    if k == 5: return R.randrange(10 ** n)
    if k == 6: return R.randrange(10 ** R.randint(1, n)) * 10 ** R.randint(0, p - n)
    if k == 7:
        z = R.randint(0, p - 1)
        return (R.randrange(10 ** (p - z)) // 10 * 10 + 5) * 10 ** z % 10 ** p
    if k == 8: return (1 << R.randint(0, int(3.321928 * p)) ) % 10 ** p
    if k == 9: return ((1 << R.randint(1, int(3.321928 * p))) - 1) % 10 ** p
    if k == 11:         # squares, and squares of midpoints cut to p digits
        q = R.randrange(10 ** R.randint(1, p // 2 + 1))
        if R.random() < .5: return min(10 ** p - 1, max(0, q * q + R.choice((0, 0, 0, 1, -1))))
        m = str((10 * R.randrange(10 ** (p - 1), 10 ** p) + 5) ** 2)
        return min(10 ** p - 1, int(m[:p]) + R.randrange(2))
    if k == 10: return int(R.choice('123456789') + ''.join(R.choice('09') for _ in range(n - 1)))
    return R.randrange(10 ** p)

def encode(f, s, e, c):
    k, t = f.k, f.t
    if c < (1 << t): return s << (k - 1) | e << t | c
    return s << (k - 1) | 3 << (k - 3) | e << (t - 2) | (c - (1 << t))

def decimal(R, f, near=None, form=None):
    """near: exponent to stay close to"""
    k, t = f.k, f.t
    s = R.randrange(2)
    r = R.random()
    if form is None:
        form = 'fin' if r < .86 else R.choice(('inf', 'qnan', 'snan', 'nc', 'nc'))
    if form == 'inf': return s << (k - 1) | 0x1e << (k - 6) | (R.choice((0, 0, 1, R.getrandbits(k - 6))))
    if form in ('qnan', 'snan'):
        pl = R.choice((0, 1, f.payload - 1, f.payload, R.randrange(f.payload), R.getrandbits(k - 7)))
        return s << (k - 1) | (0x3e if form == 'qnan' else 0x3f) << (k - 7) | pl
    if form == 'fin' and R.random() < .06: return intedge(R, f, s)
    e = expo(R, f, near)
    if form in ('nc', 'large_nc', 'small_nc'):
        if f.w == 128 and form != 'large_nc' and R.random() < .5:
            return s << (k - 1) | e << t | R.randint(10 ** f.p, (1 << t) - 1)
        lo = max(f.cmax + 1, 1 << t)
        return s << (k - 1) | 3 << (k - 3) | e << (t - 2) | (R.choice((lo, R.randint(lo, (1 << t) + (1 << (t - 2)) - 1))) - (1 << t))
    for _ in range(50):
        c = coef(R, f.p)
        if form == 'small' and c >> t: continue
        if form == 'large' and not c >> t: c = R.randint(1 << t, f.cmax) if (1 << t) <= f.cmax else c
        break
    return encode(f, s, e, c)

def intedge(R, f, s):
    """an integer-type limit, give or take a fraction"""
    v = (1 << R.choice((15, 31, 32, 53, 63, 64, 127, 128))) + R.choice((0, 0, 1, -1, 2, -2))
    z = R.randint(0, 4)
    v = v * 10 ** z + R.choice((0, 0, 1, -1, 5 * 10 ** max(z - 1, 0), -5 * 10 ** max(z - 1, 0), 10 ** z // 2 + 1, 10 ** z // 2 - 1))
    e = f.bias - z
    cut = max(0, len(str(v)) - f.p)
    c = v // 10 ** cut + (R.randrange(2) if cut else 0)
    if c > f.cmax: c //= 10; cut += 1
    return encode(f, s, e + cut, c)
def relate(R, c, vals, i, f):
    """an operand (bits) related to the finite operands before it, or None"""
    s = R.randrange(2)
    x = vals[-1]
    if x.f is not f: 
        # the same value in another format, a neighbour of it
        e = x.e.c - x.f.bias + f.bias; v = x.c.c
        if v == 0: return None
        while v > f.cmax: v //= 10; e += 1
        while R.random() < .7 and v * 10 <= f.cmax: v *= 10; e -= 1
        v = max(0, min(f.cmax, v + R.choice((0, 0, 1, -1))))
        return encode(f, s, e, v) if 0 <= e <= f.emax else None
    k = R.randrange(8)
    if k == 0:          # the same value, another member of the cohort, or a neighbour
        e, v = x.e.c, x.c.c
        z = R.randint(0, f.p)
        for _ in range(z):
            if v and v * 10 <= f.cmax and e: v *= 10; e -= 1
        if R.random() < .5: v = max(0, min(f.cmax, v + R.choice((1, -1, 2, -2))))
        return encode(f, s, e, v)
    if k == 1:          # exponents adding up to the edge of the range (products)
        e = R.choice((0, f.emax)) + f.bias - x.e.c + R.randint(-2 * f.p - 2, f.p + 2)
    elif k == 2:        # differing by the range (quotients)
        e = x.e.c + f.bias - R.choice((0, f.emax)) + R.randint(-f.p - 2, 2 * f.p + 2)
    elif k == 3 and x.c.c:      # a factor
        v = R.choice([d for d in (2, 4, 5, 8, 16, 25, 32, 64, 125, 625, 3, 7, x.c.c) if x.c.c % d == 0] or [1])
        return encode(f, s, max(0, min(f.emax, x.e.c + R.randint(-3, 3))), v)
    elif k == 4:        # half of it, give or take one unit
        v = x.c.c * 5; e = x.e.c - 1
        if v > f.cmax: v //= 10; e += 1
        return encode(f, s, max(0, e), max(0, v + R.choice((0, 0, 1, -1))))
    elif k == 5:        # half a unit in the last place of x
        n = len(str(x.c.c)); e = x.e.c + n - f.p - 1
        z = R.randint(0, 3)
        return encode(f, s, max(0, min(f.emax, e - z)), min(f.cmax, max(0, 5 * 10 ** z + R.choice((0, 0, 1, -1)))))
    elif k == 6 and len(vals) > 1 and vals[0].f is f:    # close to minus the product
        v = vals[0].c.c * x.c.c; e = vals[0].e.c + x.e.c - f.bias
        if v == 0: return None
        while v > f.cmax: v //= 10; e += 1
        if R.random() < .3: v = v // 10 * 10; 
        v = max(0, min(f.cmax, v + R.choice((0, 0, 1, -1))))
        if not 0 <= e <= f.emax: return None
        return encode(f, 1 ^ (vals[0].s.c ^ x.s.c) if R.random() < .8 else s, e, v)
    elif len(vals) > 1: # at the exponent of the product
        e = vals[0].e.c + x.e.c - f.bias + R.randint(-2 * f.p, 2 * f.p)
    else: return None
    if not 0 <= e <= f.emax: return None
    return encode(f, s, e, coef(R, f.p))
def expo(R, f, near):
    k = R.randrange(10)
    if near is not None and k < 8:
        e = near + R.choice((0, 1, -1, R.randint(-f.p - 3, f.p + 3), R.randint(-f.p, f.p), R.randint(-2 * f.p - 4, 2 * f.p + 4)))
    elif k < 4: e = f.bias + R.randint(-2 * f.p, f.p)
    elif k == 4: e = R.randint(0, f.p + 2)
    elif k == 5: e = f.emax - R.randint(0, f.p + 2)
    elif k == 6: e = f.bias + R.randint(-45, 45)
    elif k == 7:        # the edges of the other formats
        g = forms.F[R.choice((32, 64, 128))]
        e = f.bias - g.bias + R.choice((0, g.emax)) + R.randint(-f.p - 2, g.p + 2)
    else: e = R.randint(0, f.emax)
    return max(0, min(f.emax, e))

def integer(R, w, sg):
    k = R.randrange(8)
    if k == 0: v = R.choice((0, 1, -1, 2, 9, 10, (1 << (w - 1)) - 1, -(1 << (w - 1)), (1 << w) - 1))
    elif k == 1: v = R.choice((1, -1)) * (10 ** R.randint(0, len(str(1 << w))) + R.randint(-1, 1))
    elif k == 2: v = R.choice((1, -1)) * ((1 << R.randint(0, w)) + R.randint(-1, 1))
    elif k == 3: v = R.randint(-1000, 1000)
    elif k == 4: v = R.getrandbits(R.randint(1, w)) * R.choice((1, -1))
    elif k == 5:
        z = R.randint(0, 18); v = (R.randrange(10 ** R.randint(1, 20)) * 10 + 5) * 10 ** z * R.choice((1, -1))
    else: v = R.getrandbits(w)
    return v % (1 << w)

def inputs(R, c, case=None, seeds=()):
    """(rm, [bit patterns])"""
    if c.gen:
        r = c.gen(R)
        if r is not None: return r
    rm = R.randrange(5) if c.uses_rm else R.choice((0, 0, 0, R.randrange(5)))
    out = []; near = None; vals = []
    from verify import classify
    fi = iter(case or [])
    same = R.random() < .08
    for i, a in enumerate(c.args):
        if a in DECW:
            f = forms.F[DECW[a]]
            form = next(fi, None)
            b = decimal(R, f, near, form)
            if vals and R.random() < .45 and (form is None or form in ('small', 'large')):
                q = relate(R, c, vals, i, f)
                if q is not None: b = q
            if seeds and R.random() < .4:
                q = R.choice(seeds)
                if q >> f.k == 0: b = q if R.random() < .5 else q ^ (1 << R.randrange(f.k))
            if same and near is not None and form is None: b = out[0] ^ (R.randrange(2) << (f.k - 1)) if c.args[0] == a else b
            out.append(b)
            d = classify(f, b)
            if d.kind == 'fin':
                near = d.e.c
                if d.canon: vals.append(d)
        elif a in INTW:
            w = INTW[a][0]; q = R.random()
            if vals and q < .35:
                f = vals[-1].f
                out.append((R.choice((0, f.emax, R.randint(0, f.emax))) - vals[-1].e.c + R.randint(-2 * f.p, 2 * f.p)) % (1 << w))
            else: out.append(integer(R, *INTW[a]) if q < .7 else R.randint(*R.choice(((-800, 800), (-40, 40), (-13000, 13000)))) % (1 << w))
        else: out.append(0)
    return rm, out
