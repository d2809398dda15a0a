"""C18: the catalogue of distributions.

A continuous variable is followed on the scale of its quantiles: the number k
of the specification stands for the k/n quantile of the named law with the
given parameters, so that the variable is uniform on [0, n] there.  Densities
are relative to the law.  Discrete laws have exact rational weights on a few
points (Measure.tla, family "law")."""
import math
import warnings

import scipy.stats

from gen import *   # noqa
from gen import chance
from core import *  # noqa
from core import num, q, unq, v, to_frac, err, E, S, T, D, F, Skip, PINF, NINF, INF

# positive shape, shapes in the unit interval, real shape, ...
pos = lambda r: r.choice([.5, 1, 1.5, 2, 3])
big = lambda r: r.choice([2, 3, 5])
unit = lambda r: r.choice([.25, .5, .75])
real = lambda r: r.choice([-1, -.5, 0, .5, 1])
nz = lambda r: r.choice([-1, -.5, .5, 1])

CONT = {
    'alpha': dict(a=pos), 'anglit': {}, 'arcsine': {}, 'argus': dict(chi=pos), 'beta': dict(a=pos, b=pos),
    'betaprime': dict(a=pos, b=pos), 'bradford': dict(c=pos), 'burr': dict(c=pos, d=pos), 'burr12': dict(c=pos, d=pos),
    'cauchy': {}, 'chi': dict(df=big), 'chi2': dict(df=big), 'cosine': {}, 'crystalball': dict(beta=pos, m=big),
    'dgamma': dict(a=pos), 'dweibull': dict(c=pos), 'erlang': dict(a=lambda r: r.choice([1, 2, 3])), 'expon': {},
    'exponnorm': dict(K=pos), 'exponpow': dict(b=pos), 'exponweib': dict(a=pos, c=pos), 'f': dict(dfn=big, dfd=big),
    'fatiguelife': dict(c=pos), 'fisk': dict(c=pos), 'foldcauchy': dict(c=pos), 'foldnorm': dict(c=pos),
    'gamma': dict(a=pos), 'gausshyper': dict(a=pos, b=pos, c=pos, z=unit), 'genexpon': dict(a=pos, b=pos, c=pos),
    'genextreme': dict(c=nz), 'gengamma': dict(a=pos, c=pos), 'genhalflogistic': dict(c=pos),
    'geninvgauss': dict(p=pos, b=pos), 'genlogistic': dict(c=pos), 'gennorm': dict(beta=pos), 'genpareto': dict(c=nz),
    'gilbrat': {}, 'gompertz': dict(c=pos), 'gumbel_l': {}, 'gumbel_r': {}, 'halfcauchy': {}, 'halfgennorm': dict(beta=pos),
    'halflogistic': {}, 'halfnorm': {}, 'hypsecant': {}, 'invgamma': dict(a=pos), 'invgauss': dict(mu=pos),
    'invweibull': dict(c=pos), 'johnsonsb': dict(a=real, b=pos), 'johnsonsu': dict(a=real, b=pos), 'kappa3': dict(a=pos),
    'kappa4': dict(h=nz, k=nz), 'ksone': dict(n=lambda r: r.choice([3, 5])), 'kstwobign': {}, 'laplace': {}, 'levy': {},
    'levy_l': {}, 'loggamma': dict(c=pos), 'logistic': {}, 'loglaplace': dict(c=pos), 'lognorm': dict(s=unit),
    'loguniform': dict(a=unit, b=big), 'lomax': dict(c=pos), 'maxwell': {}, 'mielke': dict(k=pos, s=pos), 'moyal': {},
    'nakagami': dict(nu=pos), 'ncf': dict(dfn=big, dfd=big, nc=pos), 'nct': dict(df=big, nc=pos), 'ncx2': dict(df=big, nc=pos),
    'norm': {}, 'normal': {}, 'norminvgauss': dict(a=lambda r: r.choice([2, 3]), b=real), 'pareto': dict(b=pos),
    'pearson3': dict(skew=nz), 'powerlaw': dict(a=pos), 'powerlognorm': dict(c=pos, s=unit), 'powernorm': dict(c=pos),
    'rayleigh': {}, 'rdist': dict(c=big), 'recipinvgauss': dict(mu=pos), 'rice': dict(b=pos), 'semicircular': {},
    'skewnorm': dict(a=real), 't': dict(df=big), 'trapz': dict(c=lambda r: r.choice([0, .25]), d=lambda r: r.choice([.5, 1])),
    'triang': dict(c=unit), 'truncexpon': dict(b=pos), 'truncnorm': dict(a=lambda r: r.choice([-2, -1, 0]), b=lambda r: r.choice([.5, 1, 3])),
    'tukeylambda': dict(lam=nz), 'uniform': {}, 'vonmises': dict(kappa=pos), 'vonmises_line': dict(kappa=pos), 'wald': {},
    'weibull_max': dict(c=pos), 'weibull_min': dict(c=pos), 'wrapcauchy': dict(c=unit), 'levy_stable': dict(alpha=lambda r: 1.5, beta=lambda r: 0.),
}
SLOW = {'levy_stable'}
NOLOC = {'vonmises'}


def spell(rng, x):
    """A parameter, as a user may write it."""
    f = F(x)
    r = rng.random()
    if f.denominator == 1 and r < .5:
        return int(f)
    if r < .75:
        return float(x)
    return rng.choice([f, sympy.Rational(f.numerator, f.denominator), numpy.float64(x)])


def parameters(rng, name):
    kw = {k: fn(rng) for k, fn in CONT[name].items()}
    if chance(rng, .6):
        kw['loc'] = rng.choice([-3, -1, -.5, 0, .5, 1, 2, 4])
    if chance(rng, .6):
        kw['scale'] = rng.choice([.25, .5, 1, 2, 3, 5])
    return kw


class Ranks:
    """The quantiles of a law: number of the specification <-> value."""
    def __init__(self, rng, name):
        self.name = name
        self.kw = parameters(rng, name)
        self.law = getattr(scipy.stats, 'norm' if name == 'normal' else name)(**{k: float(x) for k, x in self.kw.items()})
        self.n = rng.choice([2, 3, 4, 5])
        n = self.n
        a, b = map(float, self.law.support())
        if name == 'vonmises':          # the reference has no bounded support
            loc, sc = self.kw.get('loc', 0), self.kw.get('scale', 1)
            a, b = loc - math.pi * sc, loc + math.pi * sc
        self.x = {}
        for k in range(1, 2 * n):
            r = F(k, 2)
            p = float(r / n)
            x = float(self.law.ppf(p))
            if not math.isfinite(x) or abs(float(self.law.cdf(x)) - p) > 1e-9:
                raise Skip('quantile')
            self.x[r] = x
        xs = [self.x[k] for k in sorted(self.x)]
        if any(y - x < 1e-6 * max(1, abs(x)) for x, y in zip(xs, xs[1:])):
            raise Skip('narrow')
        if math.isfinite(a):
            self.x[F(0)], self.x[F(-1)] = a, a - 1
        if math.isfinite(b):
            self.x[F(n)], self.x[F(n + 1)] = b, b + 1
        self.grid = sorted(self.x)

    def value(self, c):
        return self.x[unq(c)]

    def lib(self, rng, cls=D):
        kw = list(self.kw.items())
        rng.shuffle(kw)
        return getattr(cls, self.name)(**{k: spell(rng, x) for k, x in kw})

    def cell(self, y):
        """The cell of the specification that a value lies in."""
        y = float(y)
        g = self.grid
        for r in g:
            if self.x[r] == y:
                return q(r)
        lo = [r for r in g if self.x[r] < y]
        hi = [r for r in g if self.x[r] > y]
        return (q(lo[-1]) if lo else NINF) + (q(hi[0]) if hi else PINF)


def rank_event(rng, x, r, depth=1):
    """A random event of the specification on the quantile scale of x."""
    g = [c for c in r.grid if c.denominator == 1]       # densities are asked in between
    if depth and chance(rng, .35):
        es = [rank_event(rng, x, r, depth - 1) for _ in range(2)]
        return {'k': rng.choice(['and', 'or']), 'xs': es} if chance(rng, .8) else {'k': 'not', 'x': es[0]}
    u = rng.random()
    if u < .1:
        s = fin([rng.choice(g)])
    elif u < .5:
        c = rng.choice(g)
        s = interval(rng, -INF, c, True) if chance(rng, .5) else interval(rng, c, INF, None, True)
    elif u < .9 and len(g) > 1:
        a, b = sorted(rng.sample(g, 2))
        s = interval(rng, a, b)
    else:
        s = interval(rng, -INF, INF, True, True)
    return {'k': 'lit', 't': v(x), 's': s}


def lib_event(e, rs, rng):
    """The same event with the values instead of the numbers of quantiles."""
    k = e['k']
    go = lambda y: lib_event(y, rs, rng)
    if k == 'not':
        return ~go(e['x'])
    if k in ('and', 'or'):
        xs = [go(y) for y in e['xs']]
        r = xs[0]
        for y in xs[1:]:
            r = (r & y) if k == 'and' else (r | y)
        return r
    x, s = e['t']['v'], e['s']
    X, r = T.Id(x), rs[x]
    val = lambda c: r.value(c) if c[1] else (INF if c[0] > 0 else -INF)
    if s['k'] == 'fin':
        return X << [val(c) for c in s['v']]
    a, b = val(s['a']), val(s['b'])
    if b == INF and a != -INF and chance(rng, .7):
        return (X > a) if s['lo'] else (X >= a)
    if a == -INF and b != INF and chance(rng, .7):
        return (X < b) if s['ro'] else (X <= b)
    if a != -INF and b != INF and chance(rng, .6):
        return ((X > a) if s['lo'] else (X >= a)) & ((X < b) if s['ro'] else (X <= b))
    return X << S.Interval(a, b, left_open=s['lo'], right_open=s['ro'])


FRAC = dict(lim=1200, tol=2e-7)


class Catalogue(World):
    def __init__(self, rng):
        super().__init__(rng)
        self.rs = {}

    def ask(self, h, e):
        note = {}
        try:
            r = to_frac(h.spe.prob(lib_event(e, self.rs, self.rng)), **FRAC)
        except Exception as ex:
            r, note = [-2, 1], {'note': err(ex) + str(ex)[:150]}
        self.log('prob', h=h.name, e=e, r=r, **note)

    def given(self, h, e):
        name, note = self.fresh(), {}
        try:
            spe, res = h.spe.condition(lib_event(e, self.rs, self.rng)), 'ok'
        except Exception as ex:
            spe, res, note = None, err(ex), {'note': str(ex)[:150]}
        self.log('cond', h=name, src=h.name, e=e, res=res, **note)
        return None if spe is None else h.like(name, spe)

    def ratio(self, h, xs, at):
        """Density relative to the law, at quantiles."""
        asg = {T.Id(x): self.rs[x].x[c] for x, c in zip(xs, at)}
        note = {}
        try:
            ref = 1.
            for x, c in zip(xs, at):
                ref *= float(self.rs[x].law.pdf(self.rs[x].x[c]))
            if not (1e-12 < ref < 1e12):
                return
            r = to_frac(h.spe.pdf(asg) / ref, **FRAC)
        except Exception as ex:
            r, note = [-2, 1], {'note': err(ex) + str(ex)[:150]}
        self.log('dens', h=h.name, asg=[[x, q(c)] for x, c in zip(xs, at)], r=r, **note)

    def draws(self, h, xs, n):
        note = {}
        try:
            got, res = h.spe.sample(n), 'ok'
            out = [{s.token: self.rs[s.token].cell(y) for s, y in d.items()} for d in got]
        except Exception as ex:
            out, res, note = [], err(ex), {'note': str(ex)[:150]}
        self.log('samp', h=h.name, xs=sorted(xs), n=n, s=out, res=res, **note)

    def law(self, x, name=None):
        rng = self.rng
        for _ in range(20):
            try:
                r = Ranks(rng, name or rng.choice(sorted(set(CONT) - SLOW)))
                break
            except Skip:
                if name:
                    return None
        else:
            raise Skip('no law')
        self.rs[x] = r
        return r

    def known(self, x, r, w=None):
        """The leaf, or a mixture that sums to it."""
        rng = self.rng
        out, hs = None, None
        name = self.fresh()
        note = {'note': '%s %s' % (r.name, sorted(r.kw.items()))}
        try:
            if w is None:
                d = r.lib(rng)
                spe = (T.Id(x) >> d) if chance(rng, .7) else d(T.Id(x))
            else:
                m = None
                for p in w:
                    part = num(p, rng, 'py') * r.lib(rng)
                    m = part if m is None else m | part
                spe = T.Id(x) >> m
            res = 'ok'
        except Exception as ex:
            spe, res, note = None, err(ex), {'note': '%s %s: %s' % (r.name, r.kw, str(ex)[:150])}
        self.log('leaf', h=name, x=x, d=dict(k='quant', p=[[r.n, 1]], loc=0), g=[q(c) for c in r.grid], dens=True,
                 res=res, **note)
        return None if spe is None else H(name, spe, {}, [x])


def interior(rng, r):
    return rng.choice([c for c in r.grid if 0 < c < r.n and c.denominator > 1])


def continuous(w, x, name=None):
    rng = w.rng
    r = w.law(x, name)
    if r is None:
        return None
    h = w.known(x, r, probs(rng, rng.choice([2, 3])) if chance(rng, .25) else None)
    if h is None:
        return None
    # everything, and nothing outside
    w.ask(h, {'k': 'lit', 't': v(x), 's': interval(rng, -INF, INF, True, True)})
    if F(0) in r.x:
        w.ask(h, {'k': 'lit', 't': v(x), 's': interval(rng, F(0), INF, False, True)})
    if F(r.n) in r.x:
        w.ask(h, {'k': 'lit', 't': v(x), 's': interval(rng, -INF, F(r.n), True, False)})
    for _ in range(2):
        w.ask(h, rank_event(rng, x, r))
    w.ratio(h, [x], [interior(rng, r)])
    if F(-1) in r.x and chance(rng, .5) or F(r.n + 1) not in r.x and F(-1) in r.x:
        out_density(w, h, x, r, F(-1))
    elif F(r.n + 1) in r.x:
        out_density(w, h, x, r, F(r.n + 1))
    if chance(rng, .4):
        w.draws(h, [x], 3)
    g = h
    for _ in range(rng.choice([1, 1, 2])):
        g2 = w.given(g, rank_event(rng, x, r))
        if g2 is None:
            continue
        g = g2
        w.ask(g, rank_event(rng, x, r))
        w.ask(g, rank_event(rng, x, r, 0))
        w.ratio(g, [x], [interior(rng, r)])
        if chance(rng, .5):
            w.draws(g, [x], 3)
    return h


def out_density(w, h, x, r, c):
    note = {}
    try:
        y = to_frac(h.spe.pdf({T.Id(x): r.x[c]}))
    except Exception as ex:
        y, note = [-2, 1], {'note': err(ex) + str(ex)[:150]}
    w.log('dens', h=h.name, asg=[[x, q(c)]], r=y, **note)


# ---------------------------------------------------------------- discrete
def exact(x):
    return F(x).limit_denominator(64)


DISC = {
    # name -> (parameters, the points where the specification knows the law)
    'poisson': lambda r: (dict(mu=r.choice([.5, 1, 2, 3])), 'poisson', ['mu'], range(0, 6)),
    'logser': lambda r: (dict(p=r.choice([.25, .5, .75])), 'logser', ['p'], range(1, 6)),
    'zipf': lambda r: (dict(a=r.choice([2, 3])), 'zipf', ['a'], range(1, 6)),
    'yulesimon': lambda r: (dict(alpha=r.choice([1, 2, 3])), 'yulesimon', ['alpha'], range(1, 6)),
    'planck': lambda r: (dict(lambda_=math.log(r.choice([2, 3]))), 'geo', None, range(0, 6)),
    'boltzmann': lambda r: (dict(lambda_=math.log(r.choice([2, 3])), N=r.choice([3, 4, 6])), 'geo', None, range(0, 8)),
    'dlaplace': lambda r: (dict(a=math.log(r.choice([2, 3]))), 'dgeo', None, range(-3, 4)),
    'geom': lambda r: (dict(p=r.choice([.25, .5, .75])), 'geom', ['p'], range(1, 6)),
    'nbinom': lambda r: (dict(n=r.choice([1, 2, 3]), p=r.choice([.25, .5, .75])), 'nbinom', ['n', 'p'], range(0, 6)),
    'binom': lambda r: (dict(n=r.choice([2, 3, 5]), p=r.choice([.25, .5, .75])), 'binom', ['n', 'p'], range(-1, 7)),
    'betabinom': lambda r: (dict(n=r.choice([2, 3, 4]), a=r.choice([1, 2]), b=r.choice([1, 2, 3])), 'betabinom', ['n', 'a', 'b'], range(-1, 6)),
    'hypergeom': lambda r: (dict(M=6, n=r.choice([2, 3]), N=r.choice([2, 4])), 'hypergeom', ['M', 'n', 'N'], range(-1, 5)),
    'bernoulli': lambda r: (dict(p=r.choice([.25, .5, .75])), 'bernoulli', ['p'], range(-1, 3)),
    'randint': lambda r: (dict(low=r.choice([-2, 0, 1]), high=r.choice([2, 3, 5])), 'randint', ['low', 'high'], range(-3, 7)),
    'skellam': lambda r: (dict(mu1=r.choice([1, 2, 3]), mu2=r.choice([1, 2, 3])), 'skellam', ['mu1', 'mu2'], range(-2, 3)),
}


def discrete(w, x, name=None):
    """A discrete law restricted to some points of its support and around."""
    rng = w.rng
    name = name or rng.choice(sorted(DISC))
    kw, law, ps, pts = DISC[name](rng)
    loc = rng.choice([-2, 0, 0, 1, 3]) if chance(rng, .4) else 0
    full = dict(kw, loc=loc) if loc or chance(rng, .2) else kw
    if law == 'geo' or law == 'dgeo':
        par = [q(exact(round(math.exp(kw.get('lambda_', kw.get('a'))))))]
    else:
        par = [q(exact(kw[p])) for p in ps]
    pts = sorted(rng.sample(list(pts), rng.choice([2, 3, 3, 4])))
    if name == 'skellam':
        k = rng.choice([1, 2])
        pts = [-k, k]
    ref = getattr(scipy.stats, name)(**{k: (float(y) if not isinstance(y, int) else y) for k, y in full.items()})
    note = '%s %s' % (name, sorted(full.items()))
    lib = {k: (spell(rng, y) if k not in ('lambda_',) and not (name == 'dlaplace' and k == 'a') else y) for k, y in full.items()}
    try:
        d = getattr(D, name)(**lib)
        spe = (T.Id(x) >> d) if chance(rng, .7) else d(T.Id(x))
    except Exception as ex:
        w.log('flag', r=False, f='distribution:rejected', note='%s: %s' % (note, err(ex) + str(ex)[:150]))
        return
    # the whole law, against the reference implementation
    for k in rng.sample(range(-4, 8), 4):
        try:
            y = k + loc
            a, b, c = spe.prob(T.Id(x) << {y}), spe.prob(T.Id(x) <= y), spe.prob(T.Id(x) > y)
            z = spe.prob((T.Id(x) > y) & (T.Id(x) < y + 1))
            l = spe.pdf({T.Id(x): y})
            r = abs(a - ref.pmf(y)) < 1e-8 and abs(b - ref.cdf(y)) < 1e-8 and abs(c - ref.sf(y)) < 1e-8 and z == 0 \
                and abs(l - ref.pmf(y)) < 1e-8
        except Exception as ex:
            r, note = False, note + err(ex)
        w.log('flag', r=bool(r), f='distribution:not the named law', note='%s at %d' % (note, y))
    # restricted to the points
    h = w.fresh()
    try:
        g, res = spe.condition(T.Id(x) << [p + loc for p in pts]), 'ok'
    except Exception as ex:
        g, res = None, err(ex)
    grid = [F(p + loc) for p in pts]
    w.log('leaf', h=h, x=x, d=dict(k='law', law=law, p=par, top=[kw.get('N', 0), 1] if name == 'boltzmann' else [0, 1], loc=loc,
                                   xs=[[p, 1] for p in pts]), g=[q(p) for p in grid], dens=False, res=res, note=note)
    if g is None:
        return
    f = Integer(rng)
    f.grid = grid
    w.fams[x] = f
    hh = H(h, g, {x: f}, [x])
    for _ in range(3):
        e = w.gen_event(hh, rng.choice([1, 2]))
        w.prob(hh, e)
    g2 = w.cond(hh, w.gen_event(hh, 1))
    if g2 is not None:
        w.prob(g2, w.gen_event(g2, 1))
    from prof_spe import samples
    if chance(rng, .5):
        samples(w, hh, [x], 4, lambda: hh.spe.sample(4))


def tabled(w, x):
    """Distributions given by their table."""
    rng = w.rng
    n = rng.choice([1, 2, 3, 4])
    xs = sorted(rng.sample(range(-3, 7), n))
    ps = probs(rng, n)
    name = rng.choice(['rv_discrete', 'uniformd', 'discrete', 'atomic'])
    order = list(zip(xs, ps))
    rng.shuffle(order)
    if name == 'uniformd':
        ps = [F(1, n)] * n
        make = lambda: D.uniformd(values=rng.choice([list, tuple])([a for a, _ in order]))
    elif name == 'discrete':
        make = lambda: D.discrete({a: float(p) for a, p in order})
    elif name == 'atomic':
        xs, ps = xs[:1], [F(1)]
        make = lambda: D.atomic(loc=spell(rng, xs[0]))
    else:
        make = lambda: D.rv_discrete(values=(tuple(a for a, _ in order), tuple(float(p) for _, p in order)))
    h, note = w.fresh(), {'note': '%s %s' % (name, order)}
    try:
        spe, res = T.Id(x) >> make(), 'ok'
    except Exception as ex:
        spe, res, note = None, err(ex), {'note': '%s %s %s' % (name, order, str(ex)[:150])}
    w.log('leaf', h=h, x=x, d=dict(k='table', p=[[a, 1] for a in xs], q=[q(p) for p in ps], loc=0), g=[[a, 1] for a in xs], dens=False,
          res=res, **note)
    if spe is None:
        return
    f = Integer(rng)
    f.grid = [F(a) for a in xs]
    w.fams[x] = f
    hh = H(h, spe, {x: f}, [x])
    for _ in range(3):
        w.prob(hh, w.gen_event(hh, rng.choice([1, 2])))
    g2 = w.cond(hh, w.gen_event(hh, 1))
    if g2 is not None:
        w.prob(g2, w.gen_event(g2, 1))
    from prof_spe import samples
    if chance(rng, .5):
        samples(w, hh, [x], 4, lambda: hh.spe.sample(4))


def C18(rng, name=None):
    w = Catalogue(rng)
    names = iter(['X', 'Y', 'Z', 'W', 'V', 'U', 'T1', 'T2'])
    hs = []
    for _ in range(1 if name else 2):
        x = next(names)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            h = continuous(w, x, name)
        if h is not None:
            hs.append(h)
    # two of them together
    if len(hs) == 2 and chance(rng, .7):
        p = w.prod(hs)
        xs = [h.order[0] for h in hs]
        ev = lambda: {'k': rng.choice(['and', 'or', 'or']), 'xs': [rank_event(rng, x, w.rs[x], 0) for x in xs]}
        w.ask(p, ev())
        g = w.given(p, ev())
        if g is not None:
            w.ask(g, ev())
            w.ratio(g, xs, [interior(rng, w.rs[x]) for x in xs])
            w.draws(g, xs, 2)
    for _ in range(1 if not name else 0):
        discrete(w, next(names))
        tabled(w, next(names))
    return w.ev


# every distribution of the catalogue once, before the random ones
EACH = [lambda rng, n=n: C18(rng, n) for n in sorted(CONT)] + \
    [lambda rng, n=n: only(rng, n) for n in sorted(DISC)]


def only(rng, n):
    w = Catalogue(rng)
    discrete(w, 'X', n)
    discrete(w, 'Y', n)
    return w.ev
