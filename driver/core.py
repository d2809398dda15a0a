"""Binding between specification terms (JSON) and sppl objects.

Everything here translates: abstract syntax of the specification -> objects of
the library under test, and results of the library -> abstract syntax.  No
expected answer is computed here; the specification (spec/*.tla) does that.
"""
import math
import random
from fractions import Fraction as F

import sympy
import numpy

from sppl import sets as S
from sppl import transforms as T
from sppl import spe as E
from sppl import distributions as D

INF = float('inf')
LIM = 30000
PINF, NINF = [1, 0], [-1, 0]


class Skip(Exception):
    """The generator produced something it does not want to use."""


# ----------------------------------------------------------------- numbers
def q(x):
    """Encode an exact rational (int/Fraction/±inf) for the specification."""
    if isinstance(x, float) and math.isinf(x):
        return PINF if x > 0 else NINF
    f = F(x)
    if abs(f.numerator) > LIM or f.denominator > LIM:
        raise Skip('too large %s' % f)
    return [f.numerator, f.denominator]


def unq(c):
    if c[1] == 0:
        return INF if c[0] > 0 else -INF
    return F(c[0], c[1])


def num(x, rng=None, kinds=None):
    """A number equal to the rational x, in a random spelling.

    kinds: 'py'  only Python numbers (needed for left operands, where numpy
                 and sympy numbers take over the operation themselves)
           'raw' no numpy numbers and fractions.Fraction
           None  anything."""
    if isinstance(x, float):
        if rng is not None and kinds == 'raw' and rng.random() < .12:
            return sympy.oo if x > 0 else -sympy.oo
        return x
    x = F(x)
    opts = []
    if x.denominator == 1:
        if rng is None:
            return int(x)
        opts += [int(x), int(x), int(x), float(x)]
        if kinds != 'py':
            opts.append(sympy.Integer(int(x)))
        if kinds is None:
            opts.append(numpy.float64(x))
    else:
        if (x.denominator & (x.denominator - 1)) == 0:
            opts += [float(x), float(x)]
        if kinds != 'py':
            opts.append(sympy.Rational(x.numerator, x.denominator))
        if kinds != 'raw':
            opts.append(x)
    fix = getattr(rng, 'fix', None)
    if fix is not None:
        # the same number is always spelled exactly, or always as a float
        flt = random.Random('%s:%s' % (fix, x)).random() < .5
        opts = [o for o in opts if isinstance(o, float) == flt] or opts
    return rng.choice(opts) if rng else opts[0]


class Fixed(random.Random):
    """A generator that spells equal numbers alike."""
    def __init__(self, rng):
        super().__init__(rng.random())
        self.fix = rng.random()


def to_frac(p, lim=LIM, tol=1e-9):
    """Recover a small fraction from a float, [-1,1] if there is none."""
    try:
        p = float(p)
    except Exception:
        return [-3, 1]
    if math.isnan(p):
        return [-3, 1]
    if math.isinf(p):
        return PINF if p > 0 else NINF
    f = F(p).limit_denominator(lim)
    if abs(float(f) - p) > tol * max(1.0, abs(p)) or abs(f.numerator) > 2 * LIM:
        return [-1, 1]
    return [f.numerator, f.denominator]


# ------------------------------------------------------------------- terms
E_BASE = [0, 1]


def v(x):
    return {'k': 'var', 'v': x}


def mk_term(t, rng=None, env=None, memo=None):
    # a subterm occurring twice is spelled the same way both times
    memo = {} if memo is None else memo
    key = repr(t)
    if key not in memo:
        memo[key] = mk_term_(t, rng, env, memo)
    return memo[key]


def mk_term_(t, rng, env, memo):
    k = t['k']
    n = lambda c, kinds=None: num(unq(c), rng, kinds)
    go = lambda u: mk_term(u, rng, env, memo)
    if k == 'var':
        return (env or {}).get(t['v']) or T.Id(t['v'])
    if k == 'pw':
        rng = rng and Fixed(rng)
        parts = []
        for p in t['p']:
            tt, ee = go(p['t']), mk_event(p['e'], rng, env)
            parts.append(tt * ee if (rng is None or rng.random() < .5) else ee * tt)
        if rng is not None and rng.random() < .3:
            return T.Piecewise([go(p['t']) for p in t['p']], [mk_event(p['e'], rng, env) for p in t['p']])
        r = parts[0]
        for p in parts[1:]:
            r = r + p
        return r
    a = go(t['a'])
    flip = rng is not None and rng.random() < .5
    if k == 'addc':
        return n(t['q'], 'py') + a if flip else a + n(t['q'])
    if k == 'subc':
        return a - n(t['q'])
    if k == 'rsubc':
        return n(t['q'], 'py') - a
    if k == 'mulc':
        return n(t['q'], 'py') * a if flip else a * n(t['q'])
    if k == 'divc':
        return a / n(t['q'])
    if k == 'neg':
        return -a
    if k == 'add':
        return a + go(t['a2'])
    if k == 'sub':
        return a - go(t['a2'])
    if k == 'mul':
        return a * go(t['a2'])
    if k == 'powi':
        return a ** t['n'] if not flip else T.Pow(a, t['n'])
    if k == 'poly':
        return T.Poly(a, [n(c) for c in t['c']])
    if k == 'recip':
        if isinstance(a, T.Identity) and flip:
            return a ** -1
        return 1 / a
    if k == 'abs':
        return abs(a)
    if k == 'root':
        if t['n'] == 2 and flip:
            return T.Sqrt(a)
        return a ** (1, t['n']) if not flip else a ** sympy.Rational(1, t['n'])
    if k == 'exp':
        if t['b'] == E_BASE:
            return T.Exp(a)
        return n(t['b'], 'py') ** a
    if k == 'log':
        if t['b'] == E_BASE:
            return T.Log(a)
        return T.Logarithm(a, n(t['b']))
    raise AssertionError(k)


# -------------------------------------------------------------------- sets
def mk_set(s, rng=None):
    k = s['k']
    n = lambda c: num(unq(c), rng, 'raw')
    if k == 'empty':
        return S.EmptySet
    if k == 'nom':
        return S.FiniteNominal(*s['v'], b=(s['b'] or (None if rng is None or rng.random() < .5 else False)))
    if k == 'fin':
        return S.FiniteReal(*[n(c) for c in s['v']])
    if k == 'int':
        return S.Interval(n(s['a']), n(s['b']), left_open=s['lo'], right_open=s['ro'])
    if k == 'uni':
        r = mk_set(s['s'][0], rng)
        for x in s['s'][1:]:
            r = r | mk_set(x, rng)
        return r
    raise AssertionError(k)


class Enc:
    """Encodes result sets; remembers the endpoints met (for grids)."""

    def __init__(self, den=64):
        self.pts, self.skip, self.den = set(), [], den

    def number(self, x):
        if isinstance(x, complex):
            raise Skip('complex')
        try:
            if math.isinf(x):
                return PINF if x > 0 else NINF
        except TypeError:
            raise Skip('not a number %r' % (x,))
        if isinstance(x, (int, F)) or (isinstance(x, sympy.Rational)):
            f = F(int(x.p), int(x.q)) if isinstance(x, sympy.Rational) else F(x)
            if abs(f.numerator) <= LIM and f.denominator <= LIM:
                self.pts.add(f)
                return [f.numerator, f.denominator]
        fl = float(x)
        f = F(fl).limit_denominator(720)
        if abs(float(f) - fl) < 1e-9 * max(1, abs(fl)):
            if abs(f.numerator) > LIM:
                raise Skip('large')
            self.pts.add(f)
            return [f.numerator, f.denominator]
        # irrational: bracket it between neighbours of a fine lattice
        lo = F(math.floor(fl * self.den), self.den)
        hi = lo + F(1, self.den)
        mid = (lo + hi) / 2
        if abs(mid.numerator) > LIM:
            raise Skip('large')
        self.pts |= {lo, hi}
        self.skip.append((lo, hi))
        return [mid.numerator, mid.denominator]

    def set(self, s):
        if s is S.EmptySet:
            return {'k': 'empty'}
        if isinstance(s, S.FiniteNominal):
            return {'k': 'nom', 'v': sorted(s.values), 'b': bool(s.b)}
        if isinstance(s, S.FiniteReal):
            return {'k': 'fin', 'v': [self.number(x) for x in s.values]}
        if isinstance(s, S.Interval):
            return {'k': 'int', 'a': self.number(s.a), 'b': self.number(s.b),
                    'lo': bool(s.left_open), 'ro': bool(s.right_open)}
        if isinstance(s, S.Union):
            vals = sorted(s.values, key=str)
            return {'k': 'uni', 's': [self.set(x) for x in vals]}
        raise TypeError('not an outcome set: %r' % (s,))

    def grid(self, extra=(), cap=24):
        pts = {F(p) for p in extra if not (isinstance(p, float) and math.isinf(p))} | self.pts
        g = sorted(pts)
        if len(g) > cap:
            raise Skip('grid too big')
        # gaps to be left out: those that lie inside a bracket
        skip = [q(a) + q(b) for a, b in zip(g, g[1:])
                if any(lo <= a and b <= hi for lo, hi in self.skip)]
        skip += [q(a) for a in g if any(lo < a < hi for lo, hi in self.skip)]
        return [q(a) for a in g], skip


# ------------------------------------------------------------------ events
def mk_event(e, rng=None, env=None):
    k = e['k']
    go = lambda x: mk_event(x, rng, env)
    if k == 'lit':
        t, s = mk_term(e['t'], rng, env), e['s']
        n = lambda c, kinds=None: num(unq(c), rng, kinds)
        if s['k'] == 'int' and rng is not None and rng.random() < .75:
            a, b = s['a'], s['b']
            if a == NINF and b != PINF:
                return (t < n(b)) if s['ro'] else (t <= n(b))
            if b == PINF and a != NINF:
                return (t > n(a)) if s['lo'] else (t >= n(a))
            if a != NINF and b != PINF:
                if rng.random() < .5:
                    ev = (n(a, 'py') < t) if s['lo'] else (n(a, 'py') <= t)
                    return (ev < n(b)) if s['ro'] else (ev <= n(b))
                ev = (t < n(b)) if s['ro'] else (t <= n(b))
                return (n(a, 'py') < ev) if s['lo'] else (n(a, 'py') <= ev)
        if s['k'] == 'nom' and not s['b'] and rng is not None and rng.random() < .7:
            return t << rng.choice([set, list, tuple, frozenset])(s['v'])
        if s['k'] == 'fin' and rng is not None and rng.random() < .7:
            return t << rng.choice([set, list, tuple])([num(unq(c), rng, 'raw') for c in s['v']])
        return t << mk_set(s, rng)
    if k == 'not':
        return ~go(e['x'])
    if k == 'xor':
        return go(e['x']) ^ go(e['x2'])
    if k in ('and', 'or'):
        xs = [go(x) for x in e['xs']]
        r = xs[0]
        for x in xs[1:]:
            r = (r & x) if k == 'and' else (r | x)
        return r
    raise AssertionError(k)


def enc_term(t):
    """Encode a transform of the library (for events it rewrote)."""
    if isinstance(t, T.Identity):
        return v(t.token)
    if isinstance(t, T.Poly):
        return {'k': 'poly', 'a': enc_term(t.subexpr), 'c': [enc_num(c) for c in t.coeffs]}
    if isinstance(t, T.Reciprocal):
        return {'k': 'recip', 'a': enc_term(t.subexpr)}
    if isinstance(t, T.Abs):
        return {'k': 'abs', 'a': enc_term(t.subexpr)}
    if isinstance(t, T.Radical):
        return {'k': 'root', 'a': enc_term(t.subexpr), 'n': int(t.degree)}
    if isinstance(t, T.Exponential):
        return {'k': 'exp', 'a': enc_term(t.subexpr), 'b': enc_base(t.base)}
    if isinstance(t, T.Logarithm):
        return {'k': 'log', 'a': enc_term(t.subexpr), 'b': enc_base(t.base)}
    if isinstance(t, T.Piecewise):
        return {'k': 'pw', 'p': [{'t': enc_term(a), 'e': enc_event(b)}
                                 for a, b in zip(t.subexprs, t.events)]}
    raise TypeError('not a transform: %r' % (t,))


def enc_base(b):
    return E_BASE if b == sympy.E else enc_num(b)


def enc_num(x):
    e = Enc()
    r = e.number(x)
    if e.skip:
        raise Skip('irrational constant')
    return r


def enc_event(ev, enc=None):
    enc = enc or Enc()
    if isinstance(ev, T.EventOr):
        return {'k': 'or', 'xs': [enc_event(x, enc) for x in ev.subexprs]}
    if isinstance(ev, T.EventAnd):
        return {'k': 'and', 'xs': [enc_event(x, enc) for x in ev.subexprs]}
    if isinstance(ev, T.EventBasic):
        s = enc.set(ev.values)
        if ev.values is S.EmptySet and isinstance(ev, T.EventFiniteNominal):
            s = {'k': 'nom', 'v': [], 'b': False}
        return {'k': 'lit', 't': enc_term(ev.subexpr), 's': s}
    raise TypeError('not an event: %r' % (ev,))


# ----------------------------------------------------------- distributions
class DistMaker:
    """kind -> (library distribution, specification descriptor)."""

    @staticmethod
    def make(d, rng=None):
        """d: descriptor dict with extra key 'lib' (name, kwargs)."""
        if d['lib'] is None:
            return lambda x: mk_leaf(x.token, d, rng)
        name, kw = d['lib']
        if name in ('choice', 'discrete'):
            return getattr(D, name)(kw)
        return getattr(D, name)(**kw)


def spec_dist(d):
    return {k: x for k, x in d.items() if k != 'lib'}


def fl(x, rng=None):
    x = F(x)
    if x.denominator == 1 and (rng is None or rng.random() < .7):
        return int(x)
    return float(x) if (rng is None or rng.random() < .7) else sympy.Rational(x.numerator, x.denominator)


def mk_leaf(x, d, rng=None):
    if d['k'] == 'atomic':
        return E.AtomicLeaf(T.Id(x), num(unq(d['p'][0]), rng, 'raw'))
    lib = DistMaker.make(d, rng)
    if rng is not None and rng.random() < .2:
        return lib(T.Id(x))
    return T.Id(x) >> lib


# ---------------------------------------------------------- structure (tree)
def leaf_parts(spe, grid, strs):
    """Masses of a leaf on the cells of a grid: asked of the library's leaf
    through its own distribution object (scipy), not through prob()."""
    x = spe.symbol
    if isinstance(spe, E.NominalLeaf):
        return [[[s], to_frac(w)] for s, w in spe.dist.items() if w != 0]
    if isinstance(spe, E.AtomicLeaf):
        f = F(float(spe.value)).limit_denominator(LIM)
        return [[q(f), [1, 1]]]
    raise NotImplementedError


def err(e):
    return 'err:' + type(e).__name__
