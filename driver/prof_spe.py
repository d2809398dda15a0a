"""C05-C07, C09, C11-C19: distributions, inference, structure, sampling."""
import copy
import itertools
import json
import math
import os
import time

import numpy

from gen import *   # noqa
from gen import chance
from core import *  # noqa
from core import num, q, unq, v, to_frac, err, spec_dist, E, S, T, F, Skip, mk_event, mk_term, Enc

NAMES = ['X', 'Y', 'Z', 'W']


# ------------------------------------------------------------------- helpers
def build_world(rng, n=None, dens=False, weights=None, derive=.5, cond=.4, heavy=2, lits=None, ex=False):
    w = World(rng, dens=dens, weights=weights, heavy=heavy)
    n = n or rng.choice([1, 2, 2, 3, 3, 4])
    h = w.build(NAMES[:n], depth=rng.choice([1, 2, 2, 3]))
    while chance(rng, derive) and len(h.derived) < 3:
        try:
            h = w.derive(h)
        except Skip:
            break
    if chance(rng, cond):
        h2 = w.cond(h, w.gen_event(h, lits))
        h = h2 or h
    return w, h


def queries(w, h, n, lits=None, negs=.25, fn=None):
    rng = w.rng
    for _ in range(n):
        e = w.gen_event(h, lits)
        w.prob(h, e, fn)
        if w.no_mixed(e, h) and chance(rng, negs):
            if chance(rng, .6):
                w.prob(h, {'k': 'not', 'x': e}, fn)
            else:
                w.prob(h, {'k': 'or', 'xs': [e, {'k': 'not', 'x': e}]}, fn)


def value(rng, c):
    """A cell as a value of the library."""
    return c[0] if len(c) == 1 else num(unq(c), rng, 'raw')


def clique(w, h):
    """A disjunction whose clauses meet in pairs but not three at a time."""
    rng = w.rng
    xs = [x for x in h.order if h.fams[x].kind in 'in' and '[' not in x]
    xs = [x for x in xs if len(h.fams[x].strs if h.fams[x].kind == 'n' else h.fams[x].grid) >= 3]
    if not xs or len(h.order) < 2:
        return None
    x = rng.choice(xs)
    f = h.fams[x]
    vals = list(f.strs) if f.kind == 'n' else sorted(f.grid)
    vals = rng.sample(vals, rng.choice([3, 3, min(4, len(vals))]))
    lit = lambda s: {'k': 'lit', 't': v(x), 's': s}
    ys = [y for y in h.vars() if y != x and h.root(y) != x]
    es = []
    for u in vals:
        rest = [y for y in vals if y != u]
        es.append({'k': 'and', 'xs': [lit(nom(rest) if f.kind == 'n' else fin(rest)), w.gen_lit(h, rng.choice(ys))]})
    for _ in range(rng.choice([0, 1, 1])):
        es.append(w.gen_event(h, rng.choice([1, 2]), ys))
    rng.shuffle(es)
    return {'k': 'or', 'xs': es}


def assignment(rng, asg):
    return {T.Id(x): value(rng, c) for x, c in asg}


def dens(w, h, asg, fn=None):
    note = {}
    try:
        a = assignment(w.rng, asg)
        r = to_frac((fn or (lambda s, a: s.pdf(a)))(h.spe, a))
        if r == [-1, 1]:
            note = {'note': 'irrational'}
    except Exception as ex:
        r, note = [-2, 1], {'note': err(ex) + str(ex)[:150]}
    w.log('dens', h=h.name, asg=asg, r=r, **note)
    return r


def constr(w, h, asg, fn=None):
    name, note = w.fresh(), {}
    try:
        a = assignment(w.rng, asg)
        spe, res = (fn or (lambda s, a: s.constrain(a)))(h.spe, a), 'ok'
    except Exception as ex:
        spe, res, note = None, err(ex), {'note': str(ex)[:150]}
    w.log('constr', h=name, src=h.name, asg=asg, res=res, **note)
    return None if spe is None else h.like(name, spe)


def copied(w, h, f, fn):
    """fn: expression -> another expression with the same distribution."""
    name, note = w.fresh(), {}
    try:
        spe, res = fn(h.spe), 'ok'
    except Exception as ex:
        spe, res, note = None, err(ex), {'note': str(ex)[:200]}
    w.log('copy', h=name, src=h.name, f=f, res=res, **note)
    return None if spe is None else h.like(name, spe)


def lib_set(c):
    if len(c) == 1:
        return S.FiniteNominal(c[0])
    if len(c) == 2:
        return S.FiniteReal(num(unq(c)))
    return S.Interval.open(num(unq(c[:2])), num(unq(c[2:])))


def cells(grid):
    g = [q(p) for p in sorted(grid)]
    r = []
    for i, p in enumerate(g):
        r += [(g[i - 1] if i else NINF) + p, p]
    return r + [(g[-1] if g else NINF) + PINF]


def tree_of(spe, fams):
    syms = sorted(s.token for s in spe.get_symbols())
    if isinstance(spe, (E.SumSPE, E.ProductSPE)):
        cs = [tree_of(c, fams) for c in spe.children]
        if isinstance(spe, E.ProductSPE):
            return {'k': 'prod', 'cs': cs, 'syms': syms}
        ws = [to_frac(math.exp(x)) for x in spe.weights]
        # a weight that is no small fraction is unknown (0/0), one that is no number is negative
        return {'k': 'sum', 'w': [[0, 0] if x == [-1, 1] else [-1, 1] if x[1] == 0 or x[0] < 0 else x for x in ws],
                'unit': abs(sum(math.exp(x) for x in spe.weights) - 1) < 1e-9, 'cs': cs, 'syms': syms}
    x = spe.symbol
    fam = fams.get(x.token)
    parts = []
    if isinstance(spe, E.NominalLeaf):
        parts = [[[s], to_frac(p)] for s, p in spe.dist.items()]
    elif isinstance(spe, E.AtomicLeaf):
        parts = [[q(F(float(spe.value)).limit_denominator(1000)), [1, 1]]]
    elif fam is not None:
        for c in cells(fam.grid):
            p = to_frac(math.exp(spe.logprob(x << lib_set(c))))
            parts.append([c, [0, 0] if p[0] < 0 else p])
    parts = [p for p in parts if p[1][0] != 0 or p[1][1] == 0]
    return {'k': 'leaf', 'x': x.token, 'syms': syms, 'parts': parts}


def tree(w, h):
    try:
        r = tree_of(h.spe, h.fams)
    except Skip:
        return
    if len(repr(r)) > 12000:
        return
    w.log('tree', h=h.name, r=r)


def enc_value(y):
    if isinstance(y, str):
        return [str(y)]
    y = float(y)
    if math.isnan(y):
        raise Skip('nan')
    e = Enc()
    c = e.number(y)
    if e.skip:
        lo, hi = e.skip[0]
        return q(lo) + q(hi)
    return c


def samples(w, h, xs, n, call, note=None):
    """call() -> list of dicts over symbols"""
    kw = {}
    try:
        got = list(call())
        res = 'ok'
    except Exception as ex:
        got, res, kw = [], err(ex), {'note': str(ex)[:150]}
    out = []
    for s in got:
        try:
            out.append({k.token: enc_value(y) for k, y in s.items()})
        except Skip:
            return None
        except Exception:
            out.append({'?': [0, 1]})
    w.log('samp', h=h.name, xs=sorted(xs), n=n, s=out, res=res, **kw)
    return got


# ------------------------------------------------------------------------ C05
def C05(rng):
    w, h = build_world(rng)
    n = rng.randint(5, 9)
    for i in range(n):
        e = clique(w, h) if i in (1, 3) else None
        e = e or w.gen_event(h)
        w.prob(h, e)
        r = rng.random()
        if w.no_mixed(e, h):
            if r < .2:
                w.prob(h, {'k': 'not', 'x': e})
            elif r < .3:
                w.prob(h, {'k': 'or', 'xs': [e, {'k': 'not', 'x': e}]})
    if chance(rng, .25):
        try:
            dens_some(w, h)
        except Skip:
            pass
    return w.ev


def dens_some(w, h):
    """Point probabilities of discrete variables."""
    rng = w.rng
    xs = [x for x in h.order if h.fams[x].kind in 'in']
    if not xs:
        return
    for _ in range(2):
        ys = sorted(rng.sample(xs, rng.randint(1, len(xs))))
        asg = [[x, [rng.choice(h.fams[x].strs)] if h.fams[x].kind == 'n' else q(rng.choice(h.fams[x].grid))]
               for x in ys]
        dens(w, h, asg)


# ------------------------------------------------------------------------ C06
def null_event(w, h):
    """Events that are likely to have probability zero."""
    rng = w.rng
    x = rng.choice(h.order)
    f = h.fams[x]
    r = rng.random()
    if f.kind == 'n':
        e = {'k': 'lit', 't': v(x), 's': nom(['zz'])} if r < .6 else \
            {'k': 'and', 'xs': [{'k': 'lit', 't': v(x), 's': nom([f.strs[0]])}, {'k': 'lit', 't': v(x), 's': nom([f.strs[1]])}]}
    elif f.kind == 'x':
        e = {'k': 'lit', 't': v(x), 's': nom(['zz'])}
    else:
        g = f.grid
        opts = [{'k': 'lit', 't': v(x), 's': fin([rng.choice(g)])},
                {'k': 'lit', 't': v(x), 's': interval(rng, g[-1] + 50, INF)} if f.kind == 'c' else
                {'k': 'lit', 't': v(x), 's': fin([g[0] + F(1, 2)])},
                {'k': 'lit', 't': v(x), 's': interval(rng, -INF, g[0], True, True)},
                {'k': 'and', 'xs': [{'k': 'lit', 't': v(x), 's': interval(rng, -INF, g[-1], True, True)},
                                    {'k': 'lit', 't': v(x), 's': interval(rng, g[-1], INF, False, True)}]},
                {'k': 'lit', 't': {'k': 'powi', 'a': v(x), 'n': 2}, 's': interval(rng, -INF, F(0), True, True)},
                {'k': 'lit', 't': {'k': 'abs', 'a': v(x)}, 's': fin([F(-1)])},
                {'k': 'lit', 't': v(x), 's': {'k': 'fin', 'v': [PINF]}},
                {'k': 'lit', 't': v(x), 's': interval(rng, F(0), INF)}]
        if f.kind == 'c' and isinstance(f, (Sym, Cauchy, Tail)):
            opts.pop(1)
        e = rng.choice(opts)
    if chance(rng, .3):
        e = {'k': rng.choice(['and', 'and', 'or']), 'xs': [e, w.gen_event(h, 1)]}
    return e


def C06(rng):
    w, h = build_world(rng, cond=0, derive=.45)
    for k in range(rng.choice([1, 2, 2, 3])):
        src = h
        e = clique(w, src) if chance(rng, .08) else None
        e = e or w.gen_event(src, rng.choice([1, 2, 2, 3, 4]))
        h2 = w.cond(src, e)
        # P(B | A) for several B; P(A | A); the parts on their own
        if h2 is None:
            h3 = w.cond(src, w.gen_event(src, 1))
            if h3 is None:
                break
            h2 = h3
        else:
            w.prob(h2, e)
        queries(w, h2, rng.randint(2, 4), negs=.15)
        if chance(rng, .3):
            w.prob(src, w.gen_event(src))            # the source is unaffected
        h = h2
        if chance(rng, .3) and len(h.derived) < 3:
            try:
                h = w.derive(h)
            except Skip:
                pass
            else:
                queries(w, h, 2)
    if chance(rng, .5):
        w.cond(h, null_event(w, h))
    if chance(rng, .25):
        x = rng.choice(h.order)
        bad = {'k': 'lit', 't': v('UNKNOWN'), 's': rng.choice([nom(['a']), interval(rng, F(0), INF), fin([F(1)])])}
        e = bad if chance(rng, .5) else {'k': rng.choice(['and', 'or']), 'xs': rng.sample([bad, w.gen_lit(h, x)], 2)}
        w.cond(h, e)
        w.prob(h, e)
    if chance(rng, .3):
        tree(w, h)
    return w.ev


# ------------------------------------------------------------------------ C07
DENS_W = dict(bounded=5, tail=1, integer=4, nominal=3, atoms=3, intcont=3, mixed=2)


class DBounded(Bounded):
    """Supports at even points of the grid, densities at odd ones."""
    def __init__(self, rng, n=None):
        self.s = rng.choice([F(1), F(1), F(2), F(1, 2)])
        self.o = rng.choice([F(0), F(0), F(-2), F(1)]) * self.s
        self.grid = [self.o + self.s * i for i in range(rng.choice([3, 5]))]

    def dist(self, rng):
        g = self.grid
        i, j = (0, len(g) - 1) if chance(rng, .6) else sorted(rng.sample(range(0, len(g), 2), 2))
        loc, scale = g[i], g[j] - g[i]
        kw = {'loc': fl(loc), 'scale': fl(scale)}
        if loc == 0 and chance(rng, .5): kw.pop('loc')
        if scale == 1 and chance(rng, .5): kw.pop('scale')
        r = rng.random()
        if r < .5:
            return dict(k='uniform', p=[q(loc), q(scale)], loc=0, lib=('uniform', kw))
        if r < .65:
            a = rng.choice([2, 3])
            return dict(k='powerlaw', p=[q(a), q(loc), q(scale)], loc=0, lib=('powerlaw', dict(kw, a=a)))
        if r < .85:
            a, b = rng.choice([(1, 2), (2, 1), (2, 2), (1, 3)])
            return dict(k='beta', p=[q(a), q(b), q(loc), q(scale)], loc=0, lib=('beta', dict(kw, a=a, b=b)))
        c = F(1, 2)
        return dict(k='triang', p=[q(c), q(loc), q(scale)], loc=0, lib=('triang', dict(kw, c=float(c))))

    def cuts(self):
        return self.grid[::2]

    def evals(self):
        return self.grid[1::2]


class DTail(Tail):
    def __init__(self, rng):
        self.s = rng.choice([F(1), F(2)])
        self.o = rng.choice([F(0), F(0), F(-2)]) * self.s
        self.grid = [self.o + self.s * i for i in range(5)]

    def cuts(self):
        return self.grid[::2]

    def evals(self):
        return self.grid[1::2]


class DAtoms(DBounded):
    def dist(self, rng):
        if chance(rng, .45):
            return dict(k='atomic', p=[q(rng.choice(self.grid[1::2]))], loc=0, lib=None)
        return super().dist(rng)


class DIntCont(DBounded):
    def __init__(self, rng, n=None):
        self.s, self.o = F(1), F(0)
        self.grid = [F(i) for i in range(5)]
        self.i = Integer(rng, hi=4)
        self.i.grid, self.i.o = self.grid, 0

    def dist(self, rng):
        return super().dist(rng) if chance(rng, .5) else self.i.dist(rng)


class DMixed(Fam):
    kind = 'x'

    def __init__(self, rng):
        self.n, self.c = Nominal(rng), rng.choice([DBounded, Integer])(rng)
        self.grid, self.strs = self.c.grid, self.n.strs

    def dist(self, rng):
        return (self.n if chance(rng, .5) else self.c).dist(rng)

    def cuts(self):
        return self.c.cuts() if isinstance(self.c, DBounded) else self.grid

    def evals(self):
        return self.c.evals() if isinstance(self.c, DBounded) else self.grid


DFAMS = dict(bounded=DBounded, tail=DTail, integer=Integer, nominal=Nominal, atoms=DAtoms, intcont=DIntCont,
             mixed=DMixed)


class DWorld(World):
    def fam(self, x):
        if x not in self.fams:
            ks = sorted(DENS_W)
            self.fams[x] = DFAMS[self.rng.choices(ks, [DENS_W[k] for k in ks])[0]](self.rng)
        return self.fams[x]

    def gen_lit(self, h, x=None, plain=.7):
        """Literals with thresholds at support points of continuous variables."""
        rng = self.rng
        x = x or rng.choice(h.vars())
        f = h.fams[h.root(x)]
        if not hasattr(f, 'cuts'):
            return super().gen_lit(h, x, plain)
        if f.kind == 'x' and chance(rng, .5):
            return {'k': 'lit', 't': v(x), 's': gen_nom_set(rng, list(f.strs))}
        if x in h.fams:
            t, pts = v(x), f.cuts()
        else:
            t, pts = v(x), images(h.term_root(x), f.cuts())
        pts = sorted(set(pts)) or [F(0)]
        while True:
            s = gen_real_set(rng, pts)
            if s['k'] == 'int':
                return {'k': 'lit', 't': t, 's': s}


def some_assignment(rng, h, ys):
    asg = []
    for x in ys:
        f = h.fams[x]
        if f.kind == 'n' or (f.kind == 'x' and chance(rng, .4)):
            c = [rng.choice(list(f.strs) + (['zz'] if chance(rng, .1) else []))]
        else:
            pts = f.evals() if hasattr(f, 'evals') else list(f.grid)
            p = rng.choice(pts)
            if chance(rng, .08):
                p = pts[0] - 20 if isinstance(f, DBounded) else pts[-1] + F(1, 2) if f.kind == 'i' else p
            c = q(p)
        if f.kind in 'ci' and chance(rng, .04):
            c = ['zz']
        asg.append([x, c])
    return asg


def C07(rng):
    w = DWorld(rng, dens=True, heavy=1)
    n = rng.choice([1, 2, 2, 3])
    h = w.build(NAMES[:n], depth=rng.choice([1, 2, 2, 3]))
    while chance(rng, .35) and len(h.derived) < 2:
        try:
            h = w.derive(h)
        except Skip:
            break
    if chance(rng, .35):
        h = w.cond(h, w.gen_event(h, rng.choice([1, 2, 2]))) or h
    for rnd in range(rng.choice([1, 2, 2])):
        for _ in range(3):
            ys = sorted(rng.sample(h.order, rng.randint(1, len(h.order))))
            dens(w, h, some_assignment(rng, h, ys))
        for _ in range(2):
            ys = sorted(rng.sample(h.order, rng.randint(1, max(1, len(h.order) - (rnd == 0)))))
            asg = some_assignment(rng, h, ys)
            dens(w, h, asg)
            h2 = constr(w, h, asg)
            if h2 is None:
                continue
            queries(w, h2, 2, lits=rng.choice([1, 2]), negs=0)
            rest = [x for x in h.order if x not in ys]
            if rest and chance(rng, .6):
                zs = sorted(rng.sample(rest, rng.randint(1, len(rest))))
                dens(w, h2, some_assignment(rng, h2, zs))
            if chance(rng, .3):
                dens(w, h2, asg)
            if chance(rng, .3):
                h3 = w.cond(h2, w.gen_event(h2, 1))
                if h3 is not None:
                    queries(w, h3, 1)
            if chance(rng, .4):
                h = h2
                break
    if h.derived and chance(rng, .3):
        dens(w, h, [[sorted(h.derived)[0], q(1)]])
    if chance(rng, .15):
        dens(w, h, [['UNKNOWN', q(1)]])
    return w.ev


# ------------------------------------------------------------------------ C09
def C09(rng):
    w = World(rng, heavy=3, weights=dict(bounded=5, tail=1, sym=.5, cauchy=.5, integer=4, nominal=1.5, atoms=1.5, intcont=1))
    n = rng.choice([1, 1, 2, 2, 3])
    h = w.build(NAMES[:n], depth=rng.choice([0, 1, 1, 2]))
    h = w.derive(h)
    if chance(rng, .5):
        queries(w, h, 2)
    # another component with its own definitions of the same derived variables
    if chance(rng, .3):
        g = w.build(NAMES[:n], depth=rng.choice([0, 1]))
        y = list(h.derived)[0]
        g = w.derive(g, y=y, src=h.derived[y][0])
        h = w.mix([h, g]) if chance(rng, .5) else w.mix([g, h])
        queries(w, h, 2)
    while chance(rng, .6) and len(h.derived) < 4:
        h = w.derive(h, src=rng.choice(list(h.derived)) if chance(rng, .4) and h.fams[h.root(list(h.derived)[0])].kind in 'ci' else None)
    # further factors
    if chance(rng, .3):
        g = w.build(['Y2'], depth=1)
        h = w.prod([h, g])
    # redefinitions are rejected
    if chance(rng, .2):
        x = rng.choice(h.vars())
        try:
            redefine(w, h, x)
        except Skip:
            pass
    for _ in range(rng.choice([0, 1, 1, 2])):
        y = rng.choice(list(h.derived))
        e = w.gen_lit(h, y) if chance(rng, .7) else w.gen_event(h)
        h2 = w.cond(h, e)
        if h2 is not None:
            h = h2
            queries(w, h, 2)
    for _ in range(3):
        y = rng.choice(list(h.derived))
        e = w.gen_lit(h, y)
        if chance(rng, .6):
            x = h.root(y) if chance(rng, .5) else rng.choice(h.vars())
            e = {'k': rng.choice(['and', 'or']), 'xs': rng.sample([e, w.gen_lit(h, x)], 2)}
        w.prob(h, e)
        if chance(rng, .3) and w.no_mixed(e, h):
            w.prob(h, {'k': 'not', 'x': e})
    if chance(rng, .5):
        k = rng.choice([3, 8])
        # a variable derived from a rounded value may fall on the wrong side of a threshold
        flat = [x for x in h.vars() if x in h.fams or h.derived[x][0] in h.fams]
        if chance(rng, .5) and len(flat) == len(h.vars()):
            xs = h.vars()
            samples(w, h, xs, k, lambda: h.spe.sample(k))
        else:
            xs = sorted(rng.sample(flat, rng.randint(1, len(flat))))
            samples(w, h, xs, k, lambda: h.spe.sample_subset({T.Id(x) for x in xs}, k))
    if chance(rng, .3):
        tree(w, h)
    return w.ev


def redefine(w, h, x, src=None):
    """An attempt to define a variable again, or from an unknown variable."""
    rng = w.rng
    cands = [y for y in h.vars() if h.fams[h.root(y)].kind in 'ci']
    if not cands:
        return
    src = src or (rng.choice(cands) if chance(rng, .7) else 'UNKNOWN')
    t = {'k': 'addc', 'a': v(src), 'q': q(1)}
    try:
        h.spe.transform(T.Id(x), mk_term(t, rng))
        res = 'ok'
    except Exception as ex:
        res = err(ex)
    w.log('tr', h=w.fresh(), src=h.name, x=x, t=t, res=res)


# ------------------------------------------------------------------------ C11
def ops_simplify(spe):
    return E.spe_simplify_sum(spe) if isinstance(spe, E.SumSPE) else spe


def clone(spe):
    """A copy with its own nodes, so that sharing can be done in place."""
    if isinstance(spe, E.SumSPE):
        return E.SumSPE([clone(c) for c in spe.children], list(spe.weights))
    if isinstance(spe, E.ProductSPE):
        return E.ProductSPE([clone(c) for c in spe.children])
    return copy.copy(spe)


def twin_world(rng, n):
    """A world in which equal and nearly equal parts are likely."""
    w = World(rng, heavy=1)
    dists = {}

    def leaf(x):
        ds = dists.setdefault(x, [])
        if len(ds) < rng.choice([1, 2, 3]):
            ds.append(w.new_dist(x))
        d = rng.choice(ds)
        if chance(rng, .25):
            d = near(rng, w, x, d)
        return w.leaf(x, d)
    w.twin = leaf
    return w


def near(rng, w, x, d):
    """Another distribution of the same family, equal in most parameters."""
    for _ in range(4):
        d2 = w.new_dist(x)
        if d2['k'] == d['k'] and d2 != d:
            return d2
    return d


def derive_all(w, hs):
    """The same or different derived variables on several expressions."""
    rng = w.rng
    try:
        h0 = w.derive(hs[0], y='D1', depth=1)
    except Skip:
        return hs
    src, t = h0.derived['D1']
    out = [h0]
    for h in hs[1:]:
        tt = t
        if chance(rng, .35):
            tt = w.some_term(h, src, 1)
        name = w.fresh()
        try:
            spe, res = h.spe.transform(T.Id('D1'), mk_term(tt, rng)), 'ok'
        except Exception as ex:
            spe, res = None, err(ex)
        w.log('tr', h=name, src=h.name, x='D1', t=tt, res=res)
        if spe is None:
            raise Skip('rejected')
        h2 = h.like(name, spe)
        h2.derived['D1'] = (src, tt)
        out.append(h2)
    return out


def C11(rng):
    n = rng.choice([1, 2, 2, 3, 3])
    w = twin_world(rng, n)
    xs = NAMES[:n]
    comps = []
    for _ in range(rng.choice([2, 3, 3, 4])):
        if comps and chance(rng, .2):
            comps.append(rng.choice(comps))
            continue
        parts = [w.twin(x) for x in w.shuffled(xs)]
        if len(parts) > 2 and chance(rng, .4):
            a, b = parts[:2]
            m = w.mix([w.prod([a, b]), w.prod([w.twin(a.order[0]), w.twin(b.order[0])])])
            parts = [m] + parts[2:]
        elif len(parts) >= 2 and chance(rng, .3):
            x = parts[0].order[0]
            parts[0] = w.mix([parts[0], w.twin(x)])
        comps.append(parts[0] if len(parts) == 1 else w.prod(parts))
    if chance(rng, .3):
        comps = derive_all(w, comps)
    m = w.mix(comps)
    cur = m
    for op in rng.choice([['simplify'], ['dedup'], ['simplify', 'dedup'], ['cond'], ['cond', 'simplify'], ['dedup', 'cond', 'dedup']]):
        if op == 'simplify':
            nxt = copied(w, cur, 'simplify', ops_simplify)
        elif op == 'dedup':
            nxt = copied(w, cur, 'dedup', lambda s: E.spe_cache_duplicate_subtrees(clone(s), {}))
        else:
            nxt = w.cond(cur, w.gen_event(cur, rng.choice([2, 2, 3]), plain=.9))
        if nxt is None:
            break
        cur = nxt
        tree(w, cur)
        queries(w, cur, 2, negs=.1)
    # sharing across expressions, with one table for all of them
    if chance(rng, .25):
        memo = {}
        a = copied(w, m, 'dedup', lambda s: E.spe_cache_duplicate_subtrees(clone(s), memo))
        b = copied(w, cur, 'dedup', lambda s: E.spe_cache_duplicate_subtrees(clone(s), memo))
        for h in (a, b):
            if h is not None:
                tree(w, h)
    # the branches of a program, with simplification and without
    import prof_prog
    lit = w.gen_event(cur, rng.choice([1, 1, 2]), plain=.9)
    if w.no_mixed(lit, cur):
        x = 'N1'
        w.fam(x)
        ds = [w.new_dist(x) for _ in range(rng.choice([1, 2]))]
        cmd = {'k': 'ifelse', 'bs': [{'e': lit, 'c': prof_prog.sample_cmd(w, x, rng.choice(ds))},
                                     {'e': {'k': 'tru'}, 'c': prof_prog.sample_cmd(w, x, rng.choice(ds))}]}
        for env in ('', '1'):
            if env:
                os.environ['SPPL_NO_SIMPLIFY'] = '1'
            try:
                h2 = prof_prog.run_cmd(w, cur, cmd)
            finally:
                os.environ.pop('SPPL_NO_SIMPLIFY', None)
            if h2 is not None:
                h2.fams[x] = w.fams[x]
                h2.order = h2.order + [x]
                tree(w, h2)
                queries(w, h2, 1)
    queries(w, m, 1)          # the mixture itself is what it was
    return w.ev


# ------------------------------------------------------------------------ C12
def snapshot(spe):
    if isinstance(spe, (E.SumSPE, E.ProductSPE)):
        return (type(spe).__name__, id(spe), tuple(snapshot(c) for c in spe.children), tuple(getattr(spe, 'weights', ())),
                frozenset(str(s) for s in spe.get_symbols()))
    return (id(spe), repr(sorted((str(k), repr(y)) for k, y in spe.env.items())),
            repr(getattr(spe, 'support', None)), repr(getattr(spe, 'value', None)),
            repr(spe.dist) if isinstance(spe, E.NominalLeaf) else
            repr((spe.dist.dist.name, spe.dist.args, sorted(spe.dist.kwds.items()), spe.conditioned)) if hasattr(spe, 'dist') else '')


def C12(rng):
    w, h = build_world(rng, n=rng.choice([1, 2, 2, 3]), cond=.3, derive=.4, heavy=1)
    g = None
    held = [(h, snapshot(h.spe))]
    memo = E.Memo()

    def lp(memo):
        return lambda spe, ev: math.exp(spe.logprob(ev, memo=memo))
    events = [w.gen_event(h) for _ in range(3)]

    def fixed(e):
        """the same event object every time"""
        return e, mk_event(e, random.Random(0))
    evs = []
    for e in events:
        try:
            evs.append(fixed(e))
        except Exception:
            pass
    texts = [repr(o) for _e, o in evs]

    def askp(hh, k, kind):
        e, o = evs[k]
        fn = {'plain': lambda s, ev: s.prob(o), 'none': lambda s, ev: math.exp(s.logprob(o)),
              'off': lambda s, ev: math.exp(s.logprob(o, memo=False)),
              'memo': lambda s, ev: math.exp(s.logprob(o, memo=memo))}[kind]
        w.prob(hh, e, fn)
    pool = [h]
    asgs = []
    xs = [x for x in h.order if h.fams[x].kind in 'in']
    for _ in range(rng.randint(8, 14)):
        kind = rng.choice(['plain', 'none', 'off', 'memo', 'memo', 'memo'])
        hh = rng.choice(pool)
        r = rng.random()
        if not evs:
            break
        k = rng.randrange(len(evs))
        if r < .55:
            askp(hh, k, kind)
        elif r < .8:
            e, o = evs[k]
            m = {'plain': None, 'none': None, 'off': False, 'memo': memo}[kind]
            h2 = w.cond(hh, e, lambda s, ev: s.condition(o, memo=m))
            if h2 is not None:
                if len(pool) < 4:
                    pool.append(h2)
                    held.append((h2, snapshot(h2.spe)))
                askp(h2, rng.randrange(len(evs)), 'memo')
        elif xs:
            ys = sorted(rng.sample(xs, rng.randint(1, len(xs))))
            if not asgs or chance(rng, .6):
                asgs.append([[x, [rng.choice(h.fams[x].strs)] if h.fams[x].kind == 'n' else q(rng.choice(h.fams[x].grid))]
                             for x in ys])
            asg = rng.choice(asgs)
            m = {'plain': None, 'none': None, 'off': False, 'memo': memo}[kind]
            if chance(rng, .5):
                a0 = assignment(random.Random(1), asg)
                before = repr(a0)
                dens(w, hh, asg, lambda s, a: math.exp(s.logpdf(a0, memo=m)))
                if repr(a0) != before:
                    w.log('flag', r=False, f='an assignment was changed by a query')
            else:
                h2 = constr(w, hh, asg, lambda s, a: s.constrain(a, memo=m))
                if h2 is not None and len(pool) < 4:
                    pool.append(h2)
                    held.append((h2, snapshot(h2.spe)))
        # a variable is defined on what may share parts with what is held
        if chance(rng, .25):
            try:
                h3 = w.derive(rng.choice(pool), depth=1)
            except Skip:
                pass
            else:
                if len(pool) < 5:
                    pool.append(h3)
                    held.append((h3, snapshot(h3.spe)))
                w.prob(h3, w.gen_lit(h3, list(h3.derived)[-1], plain=1))
        # expressions come and go while the table stays
        if chance(rng, .35):
            tmp = w.build(h.order, depth=1) if not h.derived else None
            if tmp is not None:
                askp(tmp, k, 'memo')
                w.cond(tmp, evs[k][0], lambda s, ev: s.condition(evs[k][1], memo=memo))
                tmp.spe = None
                del tmp
        if chance(rng, .2):
            try:
                hh.spe.sample(2)
            except Exception:       # judged by C15
                pass
    ok = all(snapshot(hh.spe) == s for hh, s in held)
    w.log('flag', r=ok, f='an expression held by the caller was changed')
    w.log('flag', r=[repr(o) for _e, o in evs] == texts, f='an event was changed by a query')
    return w.ev


# ------------------------------------------------------------------------ C13
def roundtrip(spe, text=True):
    from sppl.compilers.spe_to_dict import spe_to_dict, spe_from_dict
    d = spe_to_dict(spe)
    if text:
        d = json.loads(json.dumps(d))
    return spe_from_dict(d)


def C13(rng):
    w, h = build_world(rng, n=rng.choice([1, 2, 2, 3]), cond=.55, derive=.55, heavy=1)
    if chance(rng, .35):
        xs = [x for x in h.order if h.fams[x].kind in 'in']
        if xs:
            ys = sorted(rng.sample(xs, 1))
            h = constr(w, h, some_assignment(rng, h, ys)) or h
    before = snapshot(h.spe)
    c = copied(w, h, 'save and load', roundtrip)
    w.log('flag', r=snapshot(h.spe) == before, f='saving changed the expression')
    if c is None:
        return w.ev
    tree(w, c)
    w.log('flag', r=c.spe.get_symbols() == h.spe.get_symbols(), f='loaded expression has other variables')
    for _ in range(3):
        e = w.gen_event(h)
        w.prob(c, e)
    xs = [x for x in h.order if h.fams[x].kind in 'in']
    if xs:
        dens(w, c, some_assignment(rng, c, sorted(rng.sample(xs, rng.randint(1, len(xs))))))
    c2 = w.cond(c, w.gen_event(c, 2))
    if c2 is not None:
        queries(w, c2, 1)
        if chance(rng, .4):
            c3 = copied(w, c2, 'save and load again', roundtrip)
            if c3 is not None:
                queries(w, c3, 2)
    if chance(rng, .5) or len(h.derived) > 1:
        samples(w, c, h.vars(), 3, lambda: c.spe.sample(3))
        # the same draws as the original, from the same state of the generator
        try:
            try:
                a = h.spe.sample(5, prng=numpy.random.RandomState(3))
            except Exception:       # judged by C15
                raise Skip('sampling')
            b = c.spe.sample(5, prng=numpy.random.RandomState(3))
            same = all({k.token: enc_value(y) for k, y in s.items()} == {k.token: enc_value(y) for k, y in t.items()} for s, t in zip(a, b))
            w.log('flag', r=same, f='loaded expression samples differently')
        except Skip:
            pass
    return w.ev


# ------------------------------------------------------------------------ C14
def rerender(spe, fwidth=None):
    import io
    from sppl.compilers.spe_to_sppl import render_sppl
    from sppl.compilers.sppl_to_python import SPPL_Compiler
    out = io.StringIO()
    render_sppl(spe, stream=out, fwidth=fwidth)
    rerender.text = out.getvalue()
    return SPPL_Compiler(out.getvalue()).execute_module().model


def renderable(spe):
    """Atoms can be expressed in SPPL when they are integers."""
    if isinstance(spe, (E.SumSPE, E.ProductSPE)):
        return all(renderable(c) for c in spe.children)
    return not isinstance(spe, E.AtomicLeaf) or float(spe.value).is_integer()


def rerendered(w, h):
    if not renderable(h.spe):       # an error is an answer then
        try:
            rerender(h.spe)
        except Exception:
            return None
    return copied(w, h, 'render and compile', rerender)


def C14(rng):
    w = World(rng, heavy=1)
    n = rng.choice([1, 2, 2, 3])
    h = w.build(NAMES[:n], depth=rng.choice([1, 2, 3, 3]))
    if chance(rng, .5):
        try:
            h = w.derive(h)
        except Skip:
            pass
    if chance(rng, .45):
        h = w.cond(h, w.gen_event(h, rng.choice([1, 2, 2, 3]))) or h
    if chance(rng, .3):
        g = w.build(['V1'], depth=1)
        if len(h.derived) == 0 and chance(rng, .5):
            h2 = w.mix([h, h])
            h = h2
        h = w.prod([h, g])
    before = snapshot(h.spe)
    c = rerendered(w, h)
    w.log('flag', r=snapshot(h.spe) == before, f='rendering changed the expression')
    if c is None:
        return w.ev
    extra = {s.token for s in c.spe.get_symbols()} - {s.token for s in h.spe.get_symbols()}
    w.log('flag', r=all(x.startswith('branch_var_') for x in extra)
          and h.spe.get_symbols() <= c.spe.get_symbols(), f='the recompiled text has other variables')
    for _ in range(rng.randint(3, 5)):
        w.prob(c, w.gen_event(h))
    c2 = w.cond(c, w.gen_event(c, 2))
    if c2 is not None:
        queries(w, c2, 1)
    if chance(rng, .15):
        c = rerendered(w, c)
        if c is not None:
            queries(w, c, 2)
    return w.ev


# ------------------------------------------------------------------------ C15
def C15(rng):
    w, h = build_world(rng, n=rng.choice([1, 2, 2, 3]), cond=.45, derive=.5, heavy=1)
    if chance(rng, .3):
        xs = [x for x in h.order if h.fams[x].kind in 'in']
        if xs:
            h = constr(w, h, some_assignment(rng, h, sorted(rng.sample(xs, 1)))) or h
    before = snapshot(h.spe)
    for _ in range(rng.choice([2, 3])):
        n = rng.choice([0, 1, 2, 5, 9])
        r = rng.random()
        sd = rng.randrange(2 ** 30)
        prng = (lambda: numpy.random.RandomState(sd)) if chance(rng, .7) else (lambda: None)
        if r < .35:
            xs = h.vars()
            call = lambda: h.spe.sample(n, prng=prng())
        elif r < .7:
            xs = sorted(rng.sample(h.vars(), rng.randint(1, len(h.vars()))))
            coll = rng.choice([set, frozenset])
            call = lambda: h.spe.sample_subset(coll(T.Id(x) for x in xs), n, prng=prng())
        else:
            xs = sorted(rng.sample(h.vars(), rng.randint(1, min(3, len(h.vars())))))
            args = ', '.join(xs)
            fn = eval('lambda %s: (%s,)' % (args, args))
            call = lambda: [dict(zip([T.Id(x) for x in xs], y)) for y in h.spe.sample_func(fn, n, prng=prng())]
        got = samples(w, h, xs, n, call)
        if got and n and prng() is not None:
            try:
                again = list(call())
                w.log('flag', r=[sorted((k.token, str(y)) for k, y in s.items()) for s in got] ==
                      [sorted((k.token, str(y)) for k, y in s.items()) for s in again], f='equal seeds give different draws')
            except Exception as ex:
                w.log('flag', r=False, f='sampling again raised ' + err(ex))
    # frequencies over many draws
    if chance(rng, .45):
        n, sq = 2500, 50
        sd = rng.randrange(2 ** 30)
        es = []
        for _ in range(40):
            e = w.gen_event(h, rng.choice([1, 1, 2, 2, 3]), plain=1)
            try:
                o = mk_event(e, random.Random(0))
            except Exception:
                continue
            if all(x in h.order for x in evars(e)) and simple_event(e):
                es.append(e)
            if len(es) >= 4:
                break
        prng = numpy.random.RandomState(sd)
        xs = h.order if chance(rng, .5) else sorted(rng.sample(h.order, rng.randint(1, len(h.order))))
        try:
            r = rng.random()
            if r < .6:
                got = h.spe.sample_subset({T.Id(x) for x in xs}, n, prng=prng)
            else:
                fn = eval('lambda %s: (%s,)' % (', '.join(xs), ', '.join(xs)))
                got = [dict(zip([T.Id(x) for x in xs], y)) for y in h.spe.sample_func(fn, n, prng=prng)]
        except Exception as ex:
            w.log('samp', h=h.name, xs=xs, n=n, s=[], res=err(ex))
            return w.ev
        w.log('flag', r=len(got) == n, f='wrong number of draws')
        for e in es:
            if evars(e) <= set(xs):
                k = sum(1 for s in got if holds(e, {a.token: b for a, b in s.items()}))
                w.log('freq', h=h.name, e=e, n=n, sq=sq, k=k)
        # order of draws: neighbours are independent
        if es and evars(es[0]) <= set(xs) and r < .6:
            flags = [holds(es[0], {a.token: b for a, b in s.items()}) for s in got]
            half = flags[:len(flags) // 2]
            w.log('freq', h=h.name, e=es[0], n=1250, sq=36, k=sum(half))
    w.log('flag', r=snapshot(h.spe) == before, f='sampling changed the expression')
    return w.ev


def simple_event(e):
    """Literals over plain variables, so that a draw can be classified here."""
    if e['k'] == 'lit':
        return e['t']['k'] == 'var'
    return all(simple_event(y) for y in e.get('xs', []) + [e[f] for f in ('x', 'x2') if f in e])


def in_set(y, s):
    k = s['k']
    if k == 'uni':
        return any(in_set(y, x) for x in s['s'])
    if k == 'nom':
        return isinstance(y, str) and (y in s['v']) != s['b']
    if isinstance(y, str):
        return False
    if k == 'fin':
        return any(abs(float(y) - float(unq(c))) < 1e-12 for c in s['v'])
    a, b = float(unq(s['a'])), float(unq(s['b']))
    y = float(y)
    return (a < y or (a == y and not s['lo'])) and (y < b or (y == b and not s['ro']))


def holds(e, s):
    k = e['k']
    if k == 'lit':
        return in_set(s[e['t']['v']], e['s'])
    if k == 'not':
        return not holds(e['x'], s)
    if k == 'and':
        return all(holds(x, s) for x in e['xs'])
    if k == 'or':
        return any(holds(x, s) for x in e['xs'])
    return holds(e['x'], s) != holds(e['x2'], s)


# ------------------------------------------------------------------------ C16
def bad_mix(w, hs):
    """Mixtures with weights that may not sum to one."""
    rng = w.rng
    n = len(hs)
    kind = rng.choice(['ok', 'short', 'excess', 'zero', 'neg', 'one'])
    qs = probs(rng, n, den=rng.choice([2, 3, 4, 5, 8]))
    if kind == 'short':
        qs[0] = qs[0] * F(1, 2)
    elif kind == 'excess':
        qs[-1] = qs[-1] + F(1, 4)
    elif kind == 'zero':
        qs = [F(0)] + probs(rng, n - 1, den=4) if n > 1 else [F(0)]
    elif kind == 'neg':
        qs[0], qs[-1] = qs[0] - qs[-1] - 1, qs[-1] + qs[-1] + 1
    elif kind == 'one':
        qs = [F(1)] + [F(0)] * (n - 1)
    return qs


def C16(rng):
    w = World(rng, heavy=1)
    n = rng.choice([1, 2, 2, 3])
    xs = NAMES[:n]
    pool = []
    for _ in range(rng.choice([2, 3])):
        pool.append(w.build(w.shuffled(xs), depth=rng.choice([0, 1, 1])))
    other = [w.build(rng.sample(NAMES + ['V1'], rng.choice([1, 2])), depth=rng.choice([0, 1])) for _ in range(2)]
    made = []

    def attempt(op, name, build, like, **kw):
        note = {}
        try:
            spe, res = build(), 'ok'
        except Exception as ex:
            spe, res, note = None, err(ex), {'note': str(ex)[:100]}
        if spe is not None and not isinstance(spe, E.SPE):
            spe, res = None, 'err:NotAnExpression'
        if isinstance(spe, E.PartialSumSPE):
            partial_use(w, spe)
            spe, res = None, 'err:PartialSumSPE'
        w.log(op, h=name, res=res, **kw, **note)
        if spe is not None:
            h = like(spe)
            made.append(h)
            tree(w, h)
            return h

    for _ in range(rng.randint(4, 7)):
        r = rng.random()
        everyone = pool + other + made
        if r < .3:         # mixtures by operators
            hs = rng.sample(pool, rng.choice([2, 2, min(3, len(pool))])) if chance(rng, .7) else \
                [rng.choice(pool), rng.choice(other)]
            qs = bad_mix(w, hs) if chance(rng, .6) else probs(rng, len(hs))

            def op():
                s = None
                for h, x in zip(hs, qs):
                    p = num(x, rng, 'py') * h.spe if chance(rng, .5) else h.spe * num(x, rng, 'raw')
                    s = p if s is None else s | p
                return s
            # zero and one are not weights of an operator mixture
            name = w.fresh()
            if any(x <= 0 or x >= 1 for x in qs):
                try:
                    s = op()
                    res = 'ok' if isinstance(s, E.SumSPE) else 'err'
                except Exception as ex:
                    res = err(ex)
                w.log('flag', r=res != 'ok', f='a mixture with a weight outside (0,1) was accepted')
            else:
                attempt('mix', name, op, lambda s: hs[0].like(name, s), hs=[h.name for h in hs], qs=[q(x) for x in qs])
        elif r < .5:       # mixtures by the constructor
            hs = [rng.choice(everyone) for _ in range(rng.choice([2, 3]))] if chance(rng, .4) else \
                [rng.choice(pool) for _ in range(rng.choice([2, 3]))]
            qs = bad_mix(w, hs)
            if any(x <= 0 for x in qs):
                qs = probs(rng, len(hs))
            name = w.fresh()
            attempt('mix', name, lambda: E.SumSPE([h.spe for h in hs], [math.log(x) for x in qs]),
                    lambda s: hs[0].like(name, s), hs=[h.name for h in hs], qs=[q(x) for x in qs])
        elif r < .8:       # products
            hs = [rng.choice(everyone) for _ in range(rng.choice([2, 2, 3]))]
            name = w.fresh()

            def op():
                if chance(rng, .5):
                    return E.ProductSPE([h.spe for h in hs])
                s = hs[0].spe
                for h in hs[1:]:
                    s = s & h.spe
                return s

            def like(s):
                h = H(name, s, {}, [])
                for x in hs:
                    h.fams.update(x.fams)
                    h.order += [y for y in x.order if y not in h.order]
                    h.derived.update(x.derived)
                return h
            attempt('prod', name, op, like, hs=[h.name for h in hs])
        else:              # definitions
            h = rng.choice(everyone)
            redefine(w, h, rng.choice(h.vars() + ['D1', 'D2']))
    for _ in range(rng.choice([1, 2])):
        bad_leaf(w)
    h = rng.choice(pool + made)
    h2 = w.cond(h, w.gen_event(h, rng.choice([1, 2, 3])))
    if h2 is not None:
        tree(w, h2)
    queries(w, h, 1)
    return w.ev


def partial_use(w, p):
    """Partial mixtures are not distributions."""
    rng = w.rng
    x = sorted(s.token for s in p.symbols)[0]
    leaf = T.Id('QQ') >> D.uniform()
    uses = [lambda: p & leaf, lambda: leaf & p, lambda: p.sample(2), lambda: p.prob(T.Id(x) > 0), lambda: p.condition(T.Id(x) > 0),
            lambda: 0.5 * p, lambda: p * 0.5, lambda: E.ProductSPE([p, leaf]), lambda: p | leaf, lambda: leaf | p,
            lambda: p.transform(T.Id('TT'), T.Id(x) + 1), lambda: E.SumSPE([p], [0.]), lambda: p.logpdf({T.Id(x): 0})]
    k = rng.randrange(len(uses))
    try:
        r = uses[k]()
        ok = isinstance(r, E.PartialSumSPE)
    except Exception:
        ok = True
    w.log('flag', r=ok, f='a partial mixture was used as a distribution (%d)' % k)


def bad_leaf(w):
    """Nominal weights and discrete tables that are no distributions."""
    rng = w.rng
    k = rng.choice([2, 3])
    ps = probs(rng, k)
    bad = rng.choice(['short', 'excess', 'neg', 'ok', 'empty', 'num'])
    if bad == 'short': ps[0] = ps[0] / 2
    if bad == 'excess': ps[0] = ps[0] + F(1, 3)
    if bad == 'neg': ps = [ps[0] + ps[1] + 1, -(ps[0] + ps[1]) - 1 + (1 - sum(ps[2:]))] + ps[2:]; ps[0] = 1 - sum(ps[1:])
    keys = STR[:k]
    d = dict(zip(keys, ps))
    if bad == 'neg' and all(p >= 0 for p in ps): return
    if bad == 'empty': d = {}
    if bad == 'num': d = {1: F(1, 2), 2: F(1, 2)}
    try:
        (T.Id('B') >> D.choice(d)) if chance(rng, .5) else E.NominalLeaf(T.Id('B'), d)
        res = 'ok'
    except Exception as ex:
        res = err(ex)
    w.log('flag', r=(res == 'ok') == (bad == 'ok'), f='nominal weights %s: %s' % (bad, res))


# ------------------------------------------------------------------------ C17
def mi(w, h, a, b, memo=None):
    rng = w.rng
    kw = {}
    r, neg, er = 0, False, ''
    try:
        sd = rng.random()
        x = h.spe.mutual_information(mk_event(a, random.Random(sd)), mk_event(b, random.Random(sd + 1)), **({'memo': memo} if memo else {}))
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            er = 'err:NotANumber'
        else:
            r, neg = int(round(x * 1e5)), bool(x < -1e-9)
    except Exception as ex:
        er = err(ex)
        kw['note'] = str(ex)[:100]
    w.log('mi', h=h.name, e=a, e2=b, r=r, neg=neg, err=er, **kw)


def C17(rng):
    w, h = build_world(rng, n=rng.choice([1, 2, 2, 3]), cond=.3, derive=.4, heavy=1)
    memo = E.Memo() if chance(rng, .5) else None
    for _ in range(rng.randint(4, 6)):
        a = w.gen_event(h, rng.choice([1, 1, 2]))
        for _k in range(6):
            if w.no_mixed(a, h):
                break
            a = w.gen_event(h, 1)
        if not w.no_mixed(a, h):
            continue
        r = rng.random()
        no = lambda x: {'k': 'not', 'x': x}
        if r < .12:
            b = a
        elif r < .22:
            b = no(a)
        elif r < .34:
            c = w.gen_event(h, 1)
            b = {'k': rng.choice(['and', 'or']), 'xs': [a, c]}
        elif r < .44:
            x = sorted(evars(a))[0]
            b = {'k': 'or', 'xs': [w.gen_lit(h, x), a]}
            b = {'k': 'or', 'xs': [b, no(b)]} if chance(rng, .5) else {'k': 'and', 'xs': [a, no(a)]}
        else:
            b = w.gen_event(h, rng.choice([1, 1, 2]))
        if not w.no_mixed(b, h):
            continue
        mi(w, h, a, b, memo)
        if chance(rng, .4):
            mi(w, h, b, a, memo)
        if memo is not None and chance(rng, .5):
            mi(w, h, a, b)
    return w.ev


# ------------------------------------------------------------------------ C19
def micro(x):
    x = float(x)
    return int(round(x * 1e6)) if abs(x) < 1e3 else -1


BLANK = dict(k='?', cls='?', x='', name='', syms=[], w=[], wt=[], n=-1, env=[], info=[], cs=[])


def node(**kw):
    return dict(BLANK, **kw)


def texts(d):
    return sorted([str(a), str(b)] for a, b in d.items())


def expression(spe):
    """The expression itself, read from its attributes."""
    syms = sorted(str(s) for s in spe.get_symbols())
    if isinstance(spe, E.SumSPE):
        return node(k='sum', cls='SumSPE', syms=syms, w=[micro(math.exp(x)) for x in spe.weights],
                    wt=['%1.3f' % math.exp(x) for x in spe.weights], cs=[expression(c) for c in spe.children])
    if isinstance(spe, E.ProductSPE):
        return node(k='prod', cls='ProductSPE', syms=syms, cs=[expression(c) for c in spe.children])
    r = node(k='leaf', cls='RealLeaf', x=str(spe.symbol), syms=syms, env=[[str(a), str(b)] for a, b in spe.env.items()])
    if isinstance(spe, E.NominalLeaf):
        r.update(cls='NominalLeaf', name='Nominal', info=[['dist', str(texts({str(a): float(b) for a, b in spe.dist.items()}))]])
    elif isinstance(spe, E.AtomicLeaf):
        r.update(cls='AtomicLeaf', name='Atomic(%s)' % spe.value, info=[['value', str(spe.value)]])
    else:
        r.update(name=spe.dist.dist.name, info=[['dist', dist_text(spe.dist.dist.name, spe.dist.args, spe.dist.kwds)],
                                                ['support', repr(spe.support)], ['conditioned', str(spe.conditioned)]])
    return r


def dist_text(name, args, kwds):
    return '%s %s %s' % (name, tuple(args), texts(kwds))


REAL = ('RealLeaf', 'ContinuousLeaf', 'DiscreteLeaf')
INFO = dict(NominalLeaf=['dist'], AtomicLeaf=['value'], RealLeaf=['dist', 'support', 'conditioned'])


def read_full(r):
    """Nested lists as a tree of nodes; what cannot be read stays blank."""
    try:
        head, d = r[0], {k: x for k, x in r[1]}
        dup = len(d) != len(r[1])
        if dup:
            return node()
        if head in ('SumSPE', 'ProductSPE'):
            return node(k='sum' if head == 'SumSPE' else 'prod', cls=head, syms=sorted(map(str, d['symbols'])), n=d['n_children'],
                        w=[micro(x) for x in d.get('weights', [])], cs=[read_full(c) for c in d['children']])
        cls = 'RealLeaf' if head in REAL else str(head)
        info = []
        for k in INFO[cls]:
            x = d[k]
            info.append([k, str(texts(x)) if cls == 'NominalLeaf' else str(x) if k in ('value', 'conditioned') else
                         dist_text(*x) if k == 'dist' else repr(x)])
        return node(k='leaf', cls=cls, x=str(d['symbol']), env=[[str(a), str(b)] for a, b in d['env'].items()], info=info)
    except Exception:
        return node()


def read_concise(r):
    try:
        if r and isinstance(r[0], str) and r[0][:2] in ('+(', '*('):
            return node(k='sum' if r[0][0] == '+' else 'prod', n=int(r[0][2:-1]), cs=[read_concise(c) for c in r[1]])
        return node(k='leaf', env=[[str(a), str(b)] for a, b in r])
    except Exception:
        return node()


def read_graph(G):
    sign = {'\N{PLUS SIGN}': 'plus', '\N{MULTIPLICATION SIGN}': 'times'}
    return {'nodes': [{'id': str(i), 'lab': [sign.get(y, y) for y in str(d.get('label', '')).split('\n')]}
                      for i, d in G.nodes(data=True)],
            'edges': [{'s': str(a), 'd': str(b), 'lab': str(d.get('label', '')).strip(), 'dashed': d.get('style') == 'dashed'}
                      for a, b, d in G.edges(data=True)]}


class Coarse:
    """A clock that ticks 64 times a second, as on some platforms."""
    def __enter__(self):
        self.real = time.time
        t0, n = time.time(), itertools.count()
        time.time = lambda: int(t0 * 64 + next(n) // 500) / 64.
        return self

    def __exit__(self, *a):
        time.time = self.real


def draw(w, h, kinds=('full', 'concise', 'graph')):
    import sppl.render as R
    import sppl.magics.render as G
    rng = w.rng
    for f in w.shuffled(kinds):
        kw = {}
        before = snapshot(h.spe)
        e = expression(h.spe)
        if len(repr(e)) > 60000:
            continue
        fn = {'full': R.render_nested_lists, 'concise': R.render_nested_lists_concise, 'graph': G.render_networkx_graph}[f]
        try:
            if f == 'graph' and chance(rng, .4):
                with Coarse():
                    got = fn(h.spe)
            else:
                got = fn(h.spe)
            res = 'ok'
        except Exception as ex:
            got, res, kw = None, err(ex), {'note': str(ex)[:150]}
        r = node() if f != 'graph' else {'nodes': [], 'edges': []}
        if res == 'ok':
            try:
                r = {'full': read_full, 'concise': read_concise, 'graph': read_graph}[f](got)
            except Exception as ex:
                res = 'err:Unreadable'
        w.log('draw', h=h.name, f=f, e=e, r=r, res=res, **kw)
        if snapshot(h.spe) != before or expression(h.spe) != e:
            w.log('flag', r=False, f='drawing changed the expression')


def C19(rng):
    if chance(rng, .5):
        w, h = build_world(rng, cond=.4, derive=.5, heavy=1)
    else:        # repeated parts
        w = twin_world(rng, 2)
        xs = NAMES[:rng.choice([1, 2, 3])]
        comps = []
        for _ in range(rng.choice([2, 3, 4])):
            if comps and chance(rng, .4):
                comps.append(rng.choice(comps))
                continue
            parts = [w.twin(x) for x in w.shuffled(xs)]
            comps.append(parts[0] if len(parts) == 1 else w.prod(parts))
        if chance(rng, .3):
            comps = derive_all(w, comps)
        h = w.mix(comps)
        if chance(rng, .4):
            h = w.mix([h, rng.choice(comps)])
        if chance(rng, .4):
            h = copied(w, h, 'dedup', lambda s: E.spe_cache_duplicate_subtrees(clone(s), {})) or h
    if chance(rng, .35):
        xs = [x for x in h.order if h.fams[x].kind in 'in']
        if xs:
            h = constr(w, h, some_assignment(rng, h, sorted(rng.sample(xs, 1)))) or h
            if chance(rng, .5) and len(h.derived) < 3:
                try:
                    h = w.derive(h)
                except Skip:
                    pass
    if chance(rng, .2):      # deep
        a = w.build(h.order, depth=1) if not h.derived else h
        n = rng.choice([3, 8, 20])
        for i in range(n):
            h2 = w.mix([a, h] if chance(rng, .5) else [h, rng.choice([a, h])], qs=[F(1, 2), F(1, 2)])
            if chance(rng, .2) and i < 3 and not h.derived:
                y = 'L%d' % i
                h2 = w.prod([h2, w.leaf(y)])
                h = h2
                break
            h = h2
    tree(w, h)
    draw(w, h)
    if chance(rng, .5):
        h2 = w.cond(h, w.gen_event(h, rng.choice([1, 2])))
        if h2 is not None:
            draw(w, h2)
            draw(w, h, ['graph'])
            h = h2
    # what was drawn is what it was
    queries(w, h, 2, negs=0)
    if chance(rng, .3):
        draw(w, h)
    return w.ev


# ---------------------------------------------------------- fixed first traces
def mixed_kinds(rng):
    """A variable that is nominal in one component and numeric in the other."""
    w = World(rng)
    g = [q(0), q(F(1, 2)), q(1)]
    U = dict(k='uniform', p=[q(0), q(1)], loc=0, lib=('uniform', {}))
    C = dict(k='choice', s=['a', 'b'], q=[q(F(1, 2)), q(F(1, 2))], p=[], loc=0, lib=('choice', {'a': F(1, 2), 'b': F(1, 2)}))
    hs = []
    for k, d in enumerate((C, U)):
        x, z = T.Id('X') >> DistMaker.make(d), T.Id('Z') >> DistMaker.make(U)
        for y, s, dd in (('X', x, d), ('Z', z, U)):
            w.log('leaf', h='%s%d' % (y, k), res='ok', x=y, d=spec_dist(dd), g=g, dens=False)
        w.log('prod', h='p%d' % k, hs=['X%d' % k, 'Z%d' % k], res='ok')
        hs.append(x & z)
    m = .5 * hs[0] | .5 * hs[1]
    w.log('mix', h='m', hs=['p0', 'p1'], qs=[q(F(1, 2)), q(F(1, 2))], res='ok')
    half = {'k': 'lit', 't': v('Z'), 's': interval(rng, F(1, 2), INF, False, True)}
    e = {'k': 'or', 'xs': [{'k': 'lit', 't': v('X'), 's': nom(['a'])}, half]}
    X, Z = T.Id('X'), T.Id('Z')
    c = m.condition((X << {'a'}) | (Z >= .5))
    w.log('cond', h='c', src='m', e=e, res='ok')
    w.log('prob', h='c', e=half, r=to_frac(c.prob(Z >= .5)))
    return w.ev


FIXED = {'C06': [mixed_kinds]}
