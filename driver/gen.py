"""Random generation of specification-level inputs and recording of traces.

A World drives the library and records every call as an event of the trace
language of spec/SpplTrace.tla.  Nothing here decides whether an answer is
right.
"""
import copy
import math
import os
import random
from fractions import Fraction as F

from core import *   # noqa
from core import q, v, num, INF, NINF, PINF, E_BASE

STR = ['a', 'b', 'c', 'd', 'e']


def chance(rng, p):
    return rng.random() < p


# ------------------------------------------------------------ own evaluation
# (used only to choose interesting thresholds, never as an oracle)
def ieval(t, x):
    k = t['k']
    if x is None:
        return None
    try:
        if k == 'var':
            return x
        if k == 'pw':
            for p in t['p']:
                if itruth(p['e'], x):
                    return ieval(p['t'], x)
            return None
        a = ieval(t['a'], x)
        if a is None:
            return None
        if k == 'addc': return a + unq(t['q'])
        if k == 'subc': return a - unq(t['q'])
        if k == 'rsubc': return unq(t['q']) - a
        if k == 'mulc': return a * unq(t['q'])
        if k == 'divc': return a / unq(t['q'])
        if k == 'neg': return -a
        if k in ('add', 'sub', 'mul'):
            b = ieval(t['a2'], x)
            return None if b is None else a + b if k == 'add' else a - b if k == 'sub' else a * b
        if k == 'powi': return a ** t['n']
        if k == 'poly': return sum(unq(c) * a ** i for i, c in enumerate(t['c']))
        if k == 'recip': return None if a == 0 else 1 / a
        if k == 'abs': return abs(a)
        if k == 'root':
            if a < 0: return None
            r = F(round(a.numerator ** (1. / t['n'])), round(a.denominator ** (1. / t['n'])))
            return r if r ** t['n'] == a else None
        if k == 'exp':
            if t['b'] == E_BASE: return F(1) if a == 0 else None
            if a.denominator != 1 or abs(a) > 12: return None
            return unq(t['b']) ** int(a)
        if k == 'log':
            if a <= 0: return None
            if t['b'] == E_BASE: return F(0) if a == 1 else None
            b = unq(t['b'])
            for e in range(-14, 15):
                if b ** e == a: return F(e)
            return None
    except (ZeroDivisionError, OverflowError):
        return None
    raise AssertionError(k)


def defined(t, x):
    """Whether the term has a value at x, in floating point."""
    try:
        feval(t, float(x))
        return True
    except (ValueError, ZeroDivisionError):
        return False
    except OverflowError:
        return True


def feval(t, x):
    k = t['k']
    if k == 'var': return x
    if k == 'pw':
        for p in t['p']:
            if itruth(p['e'], F(x)): return feval(p['t'], x)
        raise ValueError
    a = feval(t['a'], x)
    g = lambda: float(unq(t['q']))
    if k == 'addc': return a + g()
    if k == 'subc': return a - g()
    if k == 'rsubc': return g() - a
    if k == 'mulc': return a * g()
    if k == 'divc': return a / g()
    if k == 'neg': return -a
    if k in ('add', 'sub', 'mul'):
        b = feval(t['a2'], x)
        return a + b if k == 'add' else a - b if k == 'sub' else a * b
    if k == 'powi': return a ** t['n']
    if k == 'poly': return sum(float(unq(c)) * a ** i for i, c in enumerate(t['c']))
    if k == 'recip': return 1 / a
    if k == 'abs': return abs(a)
    if k == 'root':
        if a < 0: raise ValueError
        return a ** (1. / t['n'])
    b = math.e if t['b'] == E_BASE else float(unq(t['b']))
    if k == 'exp': return b ** a
    if k == 'log': return math.log(a) / math.log(b)
    raise AssertionError(k)


def itruth(e, x):
    if e['k'] == 'lit':
        y, s = ieval(e['t'], x), e['s']
        if y is None: return False
        if s['k'] == 'int':
            a, b = unq(s['a']), unq(s['b'])
            return (a < y or (a == y and not s['lo'])) and (y < b or (y == b and not s['ro']))
        if s['k'] == 'fin':
            return any(unq(c) == y for c in s['v'])
    return False


def small(x, lim=400):
    return x is not None and abs(x.numerator) <= lim and x.denominator <= lim


# ------------------------------------------------------------- sets and terms
def interval(rng, a, b, lo=None, ro=None):
    lo = chance(rng, .5) if lo is None else lo
    ro = chance(rng, .5) if ro is None else ro
    if isinstance(a, float): lo = True
    if isinstance(b, float): ro = True
    return {'k': 'int', 'a': q(a), 'b': q(b), 'lo': lo, 'ro': ro}


def fin(vals):
    return {'k': 'fin', 'v': [q(x) for x in vals]}


def nom(vals, b=False):
    return {'k': 'nom', 'v': sorted(vals), 'b': b}


def gen_real_set(rng, pts, weights=None):
    """A set of reals with end points among pts."""
    pts = sorted(set(pts)) or [F(0)]
    r = rng.random()
    if r < .34:
        return interval(rng, -INF, rng.choice(pts))
    if r < .62:
        return interval(rng, rng.choice(pts), INF)
    if r < .82 and len(pts) > 1:
        a, b = sorted(rng.sample(pts, 2))
        return interval(rng, a, b)
    if r < .97:
        return fin(rng.sample(pts, min(len(pts), rng.choice([1, 1, 2, 3]))))
    return interval(rng, -INF, INF)


def gen_real_union(rng, pts, n=None):
    n = n or rng.choice([2, 2, 3])
    return {'k': 'uni', 's': [gen_real_set(rng, pts) for _ in range(n)]}


def gen_nom_set(rng, strs):
    k = rng.choice([1, 1, 2, 3])
    pool = strs + ['zz'] if chance(rng, .1) else strs
    return nom(rng.sample(pool, min(k, len(pool))), b=chance(rng, .3))


ARITH = ('addc', 'subc', 'mulc', 'divc', 'rsubc', 'neg', 'add', 'sub', 'mul', 'powi', 'poly')


def gen_term(rng, t, grid, depth=2, polys=2, light=False, natural=False):
    """Wrap term t (a variable whose interesting values are grid) in transforms."""
    for _ in range(rng.randint(1, depth)):
        imgs = [x for x in (ieval(t, g) for g in grid) if small(x)]
        pos = imgs and all(x is not None and x >= 0 for x in (ieval(t, g) for g in grid))
        c = rng.choice(imgs) if imgs else F(0)
        r = rng.random()
        if r < .34:
            k = rng.choice(['addc', 'subc', 'rsubc', 'mulc', 'divc', 'neg'])
            if k == 'neg':
                t = {'k': 'neg', 'a': t}
            elif k in ('mulc', 'divc'):
                t = {'k': k, 'a': t, 'q': q(rng.choice([F(2), F(-1), F(-2), F(3), F(1, 2), F(-1, 2)]))}
            else:
                t = {'k': k, 'a': t, 'q': q(rng.choice([F(1), F(2), F(-1), F(1, 2), c, -c, F(5)]))}
        elif r < .52 and polys > 0:
            polys -= 1
            kk = rng.random()
            if kk < .4:
                base = t if chance(rng, .4) else {'k': 'subc', 'a': t, 'q': q(c)}
                if base['k'] == 'subc':   # (t-c)^2 spelled as a polynomial in t
                    t = {'k': 'poly', 'a': t, 'c': [q(c * c), q(-2 * c), q(1)]} if chance(rng, .5) else \
                        {'k': 'powi', 'a': base, 'n': 2}
                else:
                    t = {'k': 'powi', 'a': t, 'n': rng.choice([2, 2, 3])}
            elif kk < .6 and t['k'] not in ARITH:
                t = {'k': rng.choice(['add', 'sub']), 'a': {'k': 'powi', 'a': t, 'n': 2},
                     'a2': {'k': 'mulc', 'a': t, 'q': q(rng.choice([2 * c, -2 * c, F(2), F(-4)]) or F(2))}}
            elif kk < .8:
                t = {'k': 'mul', 'a': {'k': 'subc', 'a': t, 'q': q(c)},
                     'a2': {'k': 'addc', 'a': t, 'q': q(rng.choice([-c, F(1), F(0), F(2)]))}}
            else:
                t = {'k': 'powi', 'a': t, 'n': 3}
        elif r < .64:
            t = {'k': 'abs', 'a': t}
        elif r < .76:
            t = {'k': 'recip', 'a': t}
        elif r < .84:
            t = {'k': 'root', 'a': t, 'n': rng.choice([2, 2, 3])}
        elif r < .92:
            t = {'k': 'exp', 'a': t, 'b': q(rng.choice([F(2), F(2), F(3), F(1, 2)]))}
        elif natural and r < .95:
            t = {'k': rng.choice(['exp', 'log']), 'a': t, 'b': E_BASE}
        else:
            t = {'k': 'log', 'a': t, 'b': q(2)}
    return t


def near_term(rng, t):
    """A term that differs from t in one constant."""
    sites = []

    def walk(t, path):
        k = t['k']
        if k == 'pw':
            return
        for f in ('q', 'b', 'n', 'c'):
            if f in t and not (f == 'b' and t['b'] == E_BASE):
                sites.append((path, f))
        for f in ('a', 'a2'):
            if f in t:
                walk(t[f], path + [f])
    walk(t, [])
    if not sites:
        return t
    path, f = rng.choice(sites)
    r = copy.deepcopy(t)
    n = r
    for g in path:
        n = n[g]
    if f == 'b':
        n['b'] = q(rng.choice([b for b in (F(2), F(3), F(1, 2), F(4)) if q(b) != n['b']] if n['k'] == 'exp' else [F(2), F(4), F(3)]))
    elif f == 'n':
        n['n'] = rng.choice([2, 3]) if n['n'] not in (2, 3) else 5 - n['n']
    elif f == 'q':
        n['q'] = q(rng.choice([F(1), F(2), F(-1), F(3), F(1, 2)]))
    else:
        i = rng.randrange(len(n['c']))
        n['c'][i] = q(unq(n['c'][i]) + rng.choice([1, -1, 2])) if i < len(n['c']) - 1 else n['c'][i]
    return r


def gen_pw(rng, t, grid):
    pts = sorted(grid)
    c = rng.choice(pts)
    lo = chance(rng, .5)
    lt = {'k': 'lit', 't': t, 's': interval(rng, -INF, c, True, lo)}
    ge = {'k': 'lit', 't': t, 's': interval(rng, c, INF, not lo, True)}
    hi = [p for p in pts if p > c]
    f = lambda: t if chance(rng, .3) else gen_term(rng, t, grid, depth=1, polys=1)
    parts = [{'t': f(), 'e': lt}, {'t': f(), 'e': ge}]
    if hi and chance(rng, .4):
        d = rng.choice(hi)
        mid = {'k': 'lit', 't': t, 's': interval(rng, c, d, not lo, True)}
        top = {'k': 'lit', 't': t, 's': interval(rng, d, INF, False, True)}
        parts = [parts[0], {'t': f(), 'e': mid}, {'t': f(), 'e': top}]
    if chance(rng, .2):
        parts = parts[:-1] if len(parts) > 2 else parts
    return {'k': 'pw', 'p': parts}


def images(t, grid):
    return [x for x in (ieval(t, g) for g in grid) if small(x)]


# ---------------------------------------------------------- variable families
class Fam:
    """Family of distributions of one variable that share a grid."""
    kind = 'c'          # c continuous, i integer, n nominal, x nominal+numeric
    strs = ()

    def pts(self):
        return self.grid

    def far(self):
        """Points beyond the grid that may be possible."""
        return []


def probs(rng, n, den=None, zeros=False):
    den = den or rng.choice([2, 3, 4, 4, 5, 6, 8])
    den = max(den, n)
    cuts = sorted(rng.sample(range(1, den), n - 1)) if n > 1 else []
    w = [b - a for a, b in zip([0] + cuts, cuts + [den])]
    return [F(x, den) for x in w]


class Bounded(Fam):
    def __init__(self, rng, n=None):
        n = n or rng.choice([2, 3, 4])
        self.s = rng.choice([F(1), F(1), F(1), F(2), F(1, 2)])
        self.o = rng.choice([F(0), F(0), F(0), F(-1), F(-2), F(1)]) * self.s
        self.grid = [self.o + self.s * i for i in range(n + 1)]

    def dist(self, rng):
        g = self.grid
        i, j = (0, len(g) - 1) if chance(rng, .6) else sorted(rng.sample(range(len(g)), 2))
        loc, scale = g[i], g[j] - g[i]
        kw = {'loc': fl(loc), 'scale': fl(scale)}
        if loc == 0 and chance(rng, .5): kw.pop('loc')
        if scale == 1 and chance(rng, .5): kw.pop('scale')
        r = rng.random()
        if r < .5:
            return dict(k='uniform', p=[q(loc), q(scale)], loc=0, lib=('uniform', kw))
        if r < .65:
            a = rng.choice([2, 3])
            return dict(k='powerlaw', p=[q(a), q(loc), q(scale)], loc=0, lib=('powerlaw', dict(kw, a=a)))
        if r < .85:
            a, b = rng.choice([(1, 2), (2, 1), (2, 2), (1, 3), (1, 1), (3, 1)])
            return dict(k='beta', p=[q(a), q(b), q(loc), q(scale)], loc=0, lib=('beta', dict(kw, a=a, b=b)))
        inner = [x for x in g if loc < x < loc + scale]
        if inner:
            c = (rng.choice(inner) - loc) / scale
            return dict(k='triang', p=[q(c), q(loc), q(scale)], loc=0, lib=('triang', dict(kw, c=float(c))))
        return dict(k='uniform', p=[q(loc), q(scale)], loc=0, lib=('uniform', kw))


class Tail(Fam):
    def far(self):
        return [self.grid[-1] + F(9, 2)]

    def __init__(self, rng):
        self.s = rng.choice([F(1), F(1), F(2), F(1, 2)])
        self.o = rng.choice([F(0), F(0), F(0), F(-1), F(1), F(-3)]) * self.s
        self.grid = [self.o + self.s * i for i in range(rng.choice([3, 4]))]

    def dist(self, rng):
        loc, s = self.o, self.s
        kw = lambda loc: {k: fl(x) for k, x in (('loc', loc), ('scale', s)) if x != {'loc': 0, 'scale': 1}[k] or chance(rng, .5)}
        r = rng.random()
        if r < .4:
            c = rng.choice([1, 1, 2])
            return dict(k='lomax', p=[q(c), q(loc), q(s)], loc=0, lib=('lomax', dict(kw(loc), c=c)))
        if r < .7:
            return dict(k='fisk', p=[q(loc), q(s)], loc=0, lib=('fisk', dict(kw(loc), c=1)))
        b = rng.choice([1, 2])
        return dict(k='pareto', p=[q(b), q(loc - s), q(s)], loc=0, lib=('pareto', dict(kw(loc - s), b=b)))


class Sym(Fam):
    def far(self):
        return [self.m - F(9, 2), self.m + F(9, 2)]

    def __init__(self, rng):
        self.m = F(rng.choice([0, 0, 1, -2, 3]))
        self.grid = [self.m]

    def dist(self, rng):
        kw = {'loc': fl(self.m)}
        if self.m == 0 and chance(rng, .5): kw = {}
        name = rng.choice(['norm', 'norm', 'laplace', 'logistic', 't', 'hypsecant'])
        if name == 't': kw['df'] = 3
        elif chance(rng, .6): kw['scale'] = rng.choice([1, 2, .5])
        return dict(k='sym', p=[q(self.m)], loc=0, lib=(name, kw))


class Cauchy(Fam):
    def far(self):
        return [self.grid[0] - F(9, 2), self.grid[-1] + F(9, 2)]

    def __init__(self, rng):
        self.m, self.s = F(rng.choice([0, 1, -2])), F(rng.choice([1, 2]))
        self.grid = [self.m - self.s, self.m, self.m + self.s]

    def dist(self, rng):
        return dict(k='cauchy', p=[q(self.m), q(self.s)], loc=0,
                    lib=('cauchy', {'loc': fl(self.m), 'scale': fl(self.s)}))


class Integer(Fam):
    kind = 'i'

    def far(self):
        return [self.grid[-1] + 5]

    def __init__(self, rng, hi=None):
        self.o = rng.choice([0, 0, 0, 0, -2, 3])
        self.hi = hi or rng.choice([2, 3, 4])
        self.grid = [F(self.o + i) for i in range(self.hi + 1)]

    def pts(self):
        return self.grid

    def dist(self, rng):
        o, hi = self.o, self.hi
        loc = {'loc': o} if (o or chance(rng, .1)) else {}
        r = rng.random()
        if r < .3:
            a, b = sorted(rng.sample(range(hi + 2), 2))
            return dict(k='randint', p=[q(a + o), q(b + o)], loc=0, lib=('randint', {'low': a + o, 'high': b + o}))
        if r < .42:
            p = rng.choice([F(1, 2), F(1, 4), F(3, 4), F(1, 3)])
            return dict(k='bernoulli', p=[q(p)], loc=o, lib=('bernoulli', dict(loc, p=float(p))))
        if r < .58:
            n = rng.choice([2, 2, 3])
            p = rng.choice([F(1, 2), F(1, 2), F(1, 3), F(1, 4)])
            return dict(k='binom', p=[q(n), q(p)], loc=o, lib=('binom', dict(loc, n=n, p=float(p))))
        if r < .66:
            return dict(k='geom', p=[q(F(1, 2))], loc=o, lib=('geom', dict(loc, p=.5)))
        if r < .72:
            return dict(k='nbinom', p=[q(rng.choice([1, 2])), q(F(1, 2))], loc=o, lib=None)
        if r < .78:
            M, n, N = rng.choice([(4, 2, 2), (5, 2, 3), (4, 3, 2), (5, 3, 4)])
            return dict(k='hypergeom', p=[q(M), q(n), q(N)], loc=o, lib=('hypergeom', dict(loc, M=M, n=n, N=N)))
        if r < .9:
            a = rng.randint(0, hi) + o
            return dict(k='atomic', p=[q(a)], loc=0, lib=None) if chance(rng, .5) else \
                dict(k='randint', p=[q(a), q(a + 1)], loc=0, lib=('atomic', {'loc': a}))
        vals = rng.sample(range(hi + 1), rng.randint(1, min(3, hi + 1)))
        ps = probs(rng, len(vals))
        return dict(k='table', p=[q(a + o) for a in vals], q=[q(p) for p in ps], loc=0,
                    lib=('discrete', {a + o: float(p) for a, p in zip(vals, ps)}))


class Nominal(Fam):
    kind = 'n'
    grid = ()

    def __init__(self, rng):
        self.strs = STR[:rng.choice([2, 3, 3, 4])]

    def dist(self, rng):
        k = rng.randint(1, len(self.strs)) if chance(rng, .5) else len(self.strs)
        ss = rng.sample(self.strs, k)
        ps = probs(rng, k)
        lib = {s: (float(p) if p.denominator in (1, 2, 4, 8) and chance(rng, .5) else p) for s, p in zip(ss, ps)}
        if len(ss) < len(self.strs) and chance(rng, .2):
            z = [s for s in self.strs if s not in ss][0]
            ss, ps = ss + [z], ps + [F(0)]
            lib[z] = 0
        return dict(k='choice', s=ss, q=[q(p) for p in ps], loc=0, p=[], lib=('choice', lib))


class Atoms(Fam):
    """Numeric atoms at rational points together with a continuous family."""
    def __init__(self, rng):
        self.c = Bounded(rng)
        self.grid = self.c.grid

    def dist(self, rng):
        if chance(rng, .45):
            return dict(k='atomic', p=[q(rng.choice(self.grid))], loc=0, lib=None)
        return self.c.dist(rng)


class IntCont(Fam):
    def far(self):
        return self.i.far()

    """Integer-valued and continuous components over one variable."""
    def __init__(self, rng):
        self.grid = [F(i) for i in range(rng.choice([2, 3, 4]) + 1)]
        self.b, self.i = Bounded(rng), Integer(rng, hi=len(self.grid) - 1)
        self.b.grid, self.b.s, self.b.o = self.grid, F(1), F(0)
        self.i.grid, self.i.o = self.grid, 0

    def dist(self, rng):
        return (self.b if chance(rng, .5) else self.i).dist(rng)


class Mixed(Fam):
    """Nominal and numeric components over one variable."""
    kind = 'x'

    def far(self):
        return self.c.far()

    def __init__(self, rng):
        self.n, self.c = Nominal(rng), rng.choice([Bounded, Integer])(rng)
        self.grid, self.strs = self.c.grid, self.n.strs

    def dist(self, rng):
        return (self.n if chance(rng, .5) else self.c).dist(rng)


FAMS = dict(bounded=Bounded, tail=Tail, sym=Sym, cauchy=Cauchy, integer=Integer,
            nominal=Nominal, atoms=Atoms, intcont=IntCont, mixed=Mixed)


def pick_fam(rng, weights):
    ks = sorted(weights)
    return FAMS[rng.choices(ks, [weights[k] for k in ks])[0]](rng)


DEFAULT_W = dict(bounded=5, tail=2, sym=1, cauchy=1, integer=4, nominal=4, atoms=1, intcont=1, mixed=.5)


class H:
    """A handle: a library object and what the generator knows about it."""
    def __init__(self, name, spe, fams, order, derived=None):
        self.name, self.spe, self.fams = name, spe, dict(fams)   # base var -> Fam
        self.order = list(order)
        self.derived = dict(derived or {})       # var -> (source base var, term over source)

    def vars(self):
        return self.order + list(self.derived)

    def root(self, x):
        while x in self.derived:
            x = self.derived[x][0]
        return x

    def term_root(self, x):
        """x as a term over its base variable (generator use only)."""
        if x not in self.derived:
            return v(x)
        src, t = self.derived[x]
        return subst(t, src, self.term_root(src))

    def pts(self, x):
        if x in self.fams:
            return list(self.fams[x].grid)
        return images(self.term_root(x), self.fams[self.root(x)].grid)

    def far(self, x):
        ys = self.fams[self.root(x)].far()
        if x not in self.fams:
            t = self.term_root(x)
            ys = [feval(t, y) for y in ys if defined(t, y)]
        return ys

    def like(self, name, spe):
        return H(name, spe, self.fams, self.order, self.derived)


def subst(t, x, u):
    if t['k'] == 'var':
        return u if t['v'] == x else t
    if t['k'] == 'pw':
        return {'k': 'pw', 'p': [{'t': subst(p['t'], x, u), 'e': esubst(p['e'], x, u)} for p in t['p']]}
    r = dict(t)
    for f in ('a', 'a2'):
        if f in r: r[f] = subst(r[f], x, u)
    return r


def esubst(e, x, u):
    r = dict(e)
    if e['k'] == 'lit':
        r['t'] = subst(e['t'], x, u)
    for f in ('x', 'x2'):
        if f in r: r[f] = esubst(r[f], x, u)
    if 'xs' in r: r['xs'] = [esubst(y, x, u) for y in r['xs']]
    return r


def is_poly(t):
    return any(k in str(t) for k in ("'powi'", "'mul'", "'poly'", "'add'", "'sub'"))


class World:
    last = None

    def __init__(self, rng, dens=False, weights=None, heavy=2):
        World.last = self
        self.rng, self.dens = rng, dens
        self.ev = []
        self.n = 0
        self.fams = {}
        self.weights = weights or DEFAULT_W
        self.terms = {}            # transforms used in literals
        self.heavy = heavy         # how many polynomial solves we still want

    def fresh(self):
        self.n += 1
        return 'h%d' % self.n

    def log(self, op, **kw):
        kw['op'] = op
        self.ev.append(kw)

    def fam(self, x):
        if x not in self.fams:
            self.fams[x] = pick_fam(self.rng, self.weights)
        return self.fams[x]

    # ---- construction --------------------------------------------------
    def sdist(self, x, d):
        return dict(x=x, d=spec_dist(d), g=[q(p) for p in self.fam(x).grid], dens=self.dens)

    def new_dist(self, x):
        for _ in range(20):
            d = self.fam(x).dist(self.rng)
            if d['k'] == 'atomic' or d['lib'] is not None:
                return d
        return dict(k='randint', p=[q(0), q(2)], loc=0, lib=('randint', {'low': 0, 'high': 2}))

    def leaf(self, x, d=None):
        d = d or self.new_dist(x)
        name = self.fresh()
        try:
            spe, res = mk_leaf(x, d, self.rng), 'ok'
        except Exception as e:
            spe, res = None, err(e)
        self.log('leaf', h=name, res=res, **self.sdist(x, d))
        if spe is None:
            raise Skip('leaf rejected')
        return H(name, spe, {x: self.fam(x)}, [x])

    def mix(self, hs, qs=None, res_expected=True):
        rng = self.rng
        qs = qs or probs(rng, len(hs), den=rng.choice([2, 3, 4, 4, 5, 8]))
        name = self.fresh()
        try:
            if chance(rng, .5):
                spe = None
                for h, w in zip(hs, qs):
                    part = num(w, rng, 'py') * h.spe if chance(rng, .7) else h.spe * num(w, rng, 'raw')
                    spe = part if spe is None else spe | part
            else:
                spe = E.SumSPE([h.spe for h in hs], [math.log(w) for w in qs])
            res = 'ok'
        except Exception as e:
            spe, res = None, err(e)
        self.log('mix', h=name, hs=[h.name for h in hs], qs=[q(w) for w in qs], res=res)
        if spe is None:
            raise Skip('mix rejected')
        return hs[0].like(name, spe)

    def prod(self, hs):
        rng = self.rng
        name = self.fresh()
        try:
            if chance(rng, .5):
                spe = hs[0].spe
                for h in hs[1:]:
                    spe = spe & h.spe
            else:
                spe = E.ProductSPE([h.spe for h in hs])
            res = 'ok'
        except Exception as e:
            spe, res = None, err(e)
        self.log('prod', h=name, hs=[h.name for h in hs], res=res)
        if spe is None:
            raise Skip('prod rejected')
        h = H(name, spe, {}, [])
        for x in hs:
            h.fams.update(x.fams); h.order += x.order; h.derived.update(x.derived)
        return h

    def build(self, xs, depth=2):
        rng = self.rng
        if len(xs) == 1:
            if depth > 0 and chance(rng, .3):
                k = rng.choice([2, 2, 3])
                return self.mix([self.build(xs, 0) for _ in range(k)])
            return self.leaf(xs[0])
        if depth > 0 and chance(rng, .5):
            return self.mix([self.build(self.shuffled(xs), depth - 1) for _ in range(rng.choice([2, 2, 3]))])
        k = rng.randint(1, len(xs) - 1)
        ys = self.shuffled(xs)
        return self.prod([self.build(ys[:k], depth - (chance(rng, .5))), self.build(ys[k:], depth - 1)])

    def shuffled(self, xs):
        xs = list(xs)
        self.rng.shuffle(xs)
        return xs

    def derive(self, h, y=None, depth=2, natural=False, src=None):
        rng = self.rng
        cands = [x for x in h.vars() if h.fams[h.root(x)].kind in 'ci' and len(h.pts(x)) >= 1]
        if not cands:
            raise Skip('no numeric variable')
        src = src or rng.choice(cands)
        y = y or rng.choice([n for n in ('D1', 'D2', 'D3', 'D4', 'B7', 'Zed', 'M_') if n not in h.vars()])
        for _ in range(6):
            t = self.some_term(h, src, depth, natural)
            if all(ieval(t, p) is not None for p in h.pts(src)) and all(defined(t, p) for p in h.far(src)) or chance(rng, .05):
                break
        name = self.fresh()
        try:
            spe, res = h.spe.transform(T.Id(y), mk_term(t, rng)), 'ok'
        except Exception as e:
            spe, res = None, err(e)
        self.log('tr', h=name, src=h.name, x=y, t=t, res=res)
        if spe is None:
            raise Skip('transform rejected')
        h2 = h.like(name, spe)
        h2.derived[y] = (src, t)
        return h2

    def some_term(self, h, src, depth=2, natural=False):
        rng = self.rng
        pts = h.pts(src)
        for _ in range(8):
            if self.heavy > 0 and chance(rng, .2) and len(pts) > 1:
                t = gen_pw(rng, v(src), pts)
            else:
                t = gen_term(rng, v(src), pts, depth, polys=1 if self.heavy > 0 else 0, natural=natural)
            if len(set(images(t, pts))) >= min(2, len(set(pts))):
                break
        if is_poly(t):
            self.heavy -= 1
        return t

    # ---- events ----------------------------------------------------------
    def gen_lit(self, h, x=None, plain=.7):
        rng = self.rng
        x = x or rng.choice(h.vars())
        f = h.fams[h.root(x)]
        if f.kind == 'n' or (f.kind == 'x' and chance(rng, .5) and x in h.fams):
            return {'k': 'lit', 't': v(x), 's': gen_nom_set(rng, list(f.strs))}
        pts = h.pts(x)
        t = v(x)
        if pts and f.kind != 'x' and not chance(rng, plain):
            old = self.terms.setdefault(x, [])
            if old and chance(rng, .3):
                t2 = near_term(rng, rng.choice(old))
                if is_poly(t2):
                    if self.heavy <= 0:
                        t2 = old[0] if not is_poly(old[0]) else t
                    self.heavy -= 1
            else:
                t2 = self.some_term(h, x, 2)
                old.append(t2)
            if images(t2, pts):
                t, pts = t2, images(t2, pts)
        if not pts:
            pts = [F(0)]
        if f.kind == 'i' and t['k'] == 'var' and chance(rng, .15):
            pts = pts + [p + F(1, 2) for p in pts]
        if t['k'] == 'var' and chance(rng, .12):
            s = gen_real_union(rng, pts)
        else:
            s = gen_real_set(rng, pts)
        if f.kind == 'x' and chance(rng, .2):
            s = {'k': 'uni', 's': [s, gen_nom_set(rng, list(f.strs))]}
        return {'k': 'lit', 't': t, 's': s}

    def gen_event(self, h, lits=None, xs=None, plain=.7):
        """Random Boolean combination; lits bounds the number of literals."""
        rng = self.rng
        lits = lits or rng.choice([1, 1, 2, 2, 3, 3, 4])
        if lits == 1:
            x = rng.choice(xs) if xs else None
            e = self.gen_lit(h, x, plain)
            return {'k': 'not', 'x': e} if (chance(rng, .2) and self.no_mixed(e, h)) else e
        k = rng.randint(1, lits - 1)
        a, b = self.gen_event(h, k, xs, plain), self.gen_event(h, lits - k, xs, plain)
        r = rng.random()
        if r < .45:
            e = {'k': 'and', 'xs': [a, b]}
        elif r < .92 or lits > 3 or not self.no_mixed({'k': 'and', 'xs': [a, b]}, h):
            e = {'k': 'or', 'xs': [a, b]}
        else:
            e = {'k': 'xor', 'x': a, 'x2': b}
        if chance(rng, .12) and self.no_mixed(e, h):
            e = {'k': 'not', 'x': e}
        return e

    def no_mixed(self, e, h):
        return not any(h.fams[h.root(x)].kind == 'x' for x in evars(e) if h.root(x) in h.fams)

    # ---- queries ---------------------------------------------------------
    def prob(self, h, e, fn=None):
        try:
            ev = mk_event(e, self.rng)
            p = (fn or (lambda spe, ev: spe.prob(ev)))(h.spe, ev)
            r, note = to_frac(p), None
            if r == [-1, 1]: note = repr(p)
        except Skip:
            raise
        except Exception as ex:
            r, note = [-2, 1], err(ex) + ': ' + str(ex)[:200]
        kw = {'note': note} if note else {}
        self.log('prob', h=h.name, e=e, r=r, **kw)
        return r

    def or_mixed(self, e, h, under=False):
        """A disjunction over a variable that is nominal or numeric by component."""
        if e['k'] == 'lit':
            return under and not self.no_mixed(e, h)
        under = under or e['k'] in ('or', 'xor', 'not')
        return any(self.or_mixed(x, h, under) for x in [e[f] for f in ('x', 'x2') if f in e] + e.get('xs', []))

    def cond(self, h, e, fn=None):
        if self.or_mixed(e, h):         # see known_findings.json
            return None
        name = self.fresh()
        kw = {}
        try:
            ev = mk_event(e, self.rng)
            spe, res = (fn or (lambda spe, ev: spe.condition(ev)))(h.spe, ev), 'ok'
        except Exception as ex:
            spe, res = None, err(ex)
            kw['note'] = str(ex)[:200]
        self.log('cond', h=name, src=h.name, e=e, res=res, **kw)
        return None if spe is None else h.like(name, spe)


def evars(e):
    if e['k'] == 'lit':
        return tvars(e['t'])
    r = set()
    for f in ('x', 'x2'):
        if f in e: r |= evars(e[f])
    for y in e.get('xs', []):
        r |= evars(y)
    return r


def tvars(t):
    if t['k'] == 'var':
        return {t['v']}
    if t['k'] == 'pw':
        return set().union(*[tvars(p['t']) | evars(p['e']) for p in t['p']])
    return tvars(t['a']) | (tvars(t['a2']) if 'a2' in t else set())
