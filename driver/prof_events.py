"""C02 transforms and solving, C03 polynomials, C04 Boolean events."""
import os
import signal
import time

import sympy

from gen import *   # noqa
from gen import chance
from core import mk_term, mk_event, mk_set, Enc, S, T, err, num, unq, enc_event, F
from prof_sets import strs, points


def grid_of(d, extra, enc):
    pts = {F(p[0], p[1]) for p in points(d)} if d else set()
    return enc.grid(extra=set(extra) | pts)


def solve(w, ev_desc, x, build, extra=()):
    """Record one solve; build() makes the library event."""
    note = {}
    enc = Enc()
    r = {'k': 'empty'}
    try:
        s = build().solve()
        res = 'ok'
    except Exception as ex:
        res, note = err(ex), {'note': str(ex)[:200]}
    else:
        try:
            r = enc.set(s)
        except TypeError as ex:
            res = 'err:NotASet'
    g, skip = enc.grid(extra=extra)
    w.log('solve', x=x, e=ev_desc, r=r, g=g, skip=skip, ns=sorted(strs(r) | {'zz'}), res=res, **note)


def cell(y):
    """A number as a cell: a point, or a bracket when irrational."""
    e = Enc()
    c = e.number(y)
    if e.skip:
        lo, hi = e.skip[0]
        return q(lo) + q(hi)
    return c


def term_at(w, rng, t, build, at):
    """at: var -> rational."""
    note = {}
    try:
        y = build().evaluate({T.Id(x): num(c, rng, 'raw') for x, c in at.items()})
        res = 'ok'
        r = cell(y)
    except Skip:
        return
    except Exception as ex:
        r, res, note = [0, 1], err(ex), {'note': str(ex)[:200]}
    w.log('term', t=t, at={x: q(c) for x, c in at.items()}, r=r, res=res, **note)


def exact_floats(t, x):
    """Floating-point evaluation of t at x involves no rounding."""
    if x is None:
        return True
    if x.denominator & (x.denominator - 1):
        return False
    if t['k'] == 'var':
        return True
    y = ieval(t, x)
    if y is None or y.denominator & (y.denominator - 1):
        return False
    if t['k'] == 'pw':
        return all(exact_floats(p['t'], x) and exact_event(p['e'], {None: x}) for p in t['p'])
    return all(exact_floats(t[f], x) for f in ('a', 'a2') if f in t)


def exact_event(e, at):
    if e['k'] == 'lit':
        vs = tvars(e['t'])
        if e['t']['k'] == 'var':
            return True
        x = at[None] if None in at else at[list(vs)[0]]
        return isinstance(x, str) or exact_floats(e['t'], x)
    return all(exact_event(y, at) for y in e.get('xs', []) + [e[f] for f in ('x', 'x2') if f in e])


def event_at(w, rng, e, build, at):
    if not exact_event(e, at):
        return
    note, undef = {}, False
    try:
        r = build().evaluate({T.Id(x): (c if isinstance(c, str) else num(c, rng, 'raw')) for x, c in at.items()})
        res, r = 'ok', bool(r)
    except Exception as ex:
        r, res, note = False, err(ex), {'note': str(ex)[:200]}
        undef = not isinstance(ex, TypeError)
    w.log('eval', e=e, at={x: ([c] if isinstance(c, str) else q(c)) for x, c in at.items()}, r=r, res=res,
          undef=undef, **note)


def some_set(rng, imgs):
    imgs = imgs or [F(0), F(1)]
    mids = [(a + b) / 2 for a, b in zip(sorted(set(imgs)), sorted(set(imgs))[1:])]
    pool = imgs + [m for m in mids if small(m)][:3]
    return gen_real_union(rng, pool) if chance(rng, .12) else gen_real_set(rng, pool)


def C02(rng):
    w = World(rng)
    x = 'X'
    base = sorted(rng.sample([F(i) for i in range(-4, 6)] + [F(1, 2), F(-1, 2), F(3, 2), F(9), F(16), F(1, 4)], rng.choice([4, 5, 6])))
    nat = chance(rng, .15)
    t = gen_pw(rng, v(x), base) if chance(rng, .2) else gen_term(rng, v(x), base, rng.choice([1, 2, 2, 3]), polys=rng.choice([1, 1, 2]), natural=nat)
    imgs = images(t, base)
    for _ in range(4):
        if len(imgs) >= 2:
            break
        t = gen_term(rng, v(x), base, 2, polys=1)
        imgs = images(t, base)
    seed = rng.random()
    build = lambda: mk_term(t, random.Random(seed))
    # values of the term
    for c in rng.sample(base, min(3, len(base))):
        term_at(w, rng, t, build, {x: c})
    # solving and evaluating literals
    for _ in range(3):
        e = {'k': 'lit', 't': t, 's': some_set(rng, imgs)}
        if chance(rng, .25):
            e = {'k': 'not', 'x': e}
        sd = rng.random()
        mk = lambda e=e, sd=sd: mk_event(e, random.Random(sd))
        solve(w, e, x, mk, base)
        for c in rng.sample(base, 2):
            event_at(w, rng, e, mk, {x: c})
    # combinations over the one variable
    a = {'k': 'lit', 't': t, 's': some_set(rng, imgs)}
    b = {'k': 'lit', 't': v(x), 's': some_set(rng, base)} if chance(rng, .6) else {'k': 'lit', 't': t, 's': some_set(rng, imgs)}
    e = {'k': rng.choice(['and', 'or']), 'xs': [a, b]} if chance(rng, .8) else {'k': 'xor', 'x': a, 'x2': b}
    if chance(rng, .3):
        e = {'k': 'not', 'x': e}
    sd = rng.random()
    solve(w, e, x, lambda: mk_event(e, random.Random(sd)), base)
    # composition by substitution
    t2 = gen_term(rng, v('Y'), base, rng.choice([1, 2]), polys=0)
    comp = subst(t, x, t2)
    sd2 = rng.random()
    fn = rng.choice(['substitute', 'subs'])
    mkc = lambda: getattr(build(), fn)({T.Id(x): mk_term(t2, random.Random(sd2))})
    for c in rng.sample(base, 2):
        term_at(w, rng, comp, mkc, {'Y': c})
    ci = [y for y in (ieval(comp, c) for c in base) if small(y)]
    if ci:
        s = some_set(rng, ci)
        ec = {'k': 'lit', 't': comp, 's': s}
        solve(w, ec, 'Y', lambda: mkc() << mk_set(s, random.Random(sd2)), base)
        e0 = {'k': 'lit', 't': t, 's': s}
        solve(w, ec, 'Y', lambda: getattr(mk_event(e0, random.Random(sd)), fn)({T.Id(x): mk_term(t2, random.Random(sd2))}), base)
    return w.ev


# ------------------------------------------------------------------------ C03
def polymul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def peval(c, x):
    return sum(k * x ** i for i, k in enumerate(c))


class Fault:
    """Fire the alarm signal at the n-th symbolic attempt, before or after it."""

    def __init__(self, nth, after):
        self.nth, self.after, self.n = nth, after, 0

    def __enter__(self):
        self.orig = sympy.solveset
        self.old = signal.signal(signal.SIGALRM, lambda *a: None)

        def solveset(*a, **k):
            self.n += 1
            hit = self.nth == 0 or self.n == self.nth
            if hit and not self.after:
                os.kill(os.getpid(), signal.SIGALRM)
                time.sleep(.001)
            r = self.orig(*a, **k)
            if hit and self.after:
                os.kill(os.getpid(), signal.SIGALRM)
                time.sleep(.001)
            return r
        sympy.solveset = solveset
        return self

    def __exit__(self, *a):
        sympy.solveset = self.orig
        self.left = signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def C03(rng):
    import sppl.poly
    sppl.poly.TIMEOUT_SYMBOLIC = 1      # an integer number of seconds
    w = World(rng)
    x = 'X'
    roots_pool = [F(i) for i in range(-4, 5)] + [F(1, 2), F(-3, 2), F(1, 3), F(5, 2)]
    for _ in range(rng.choice([2, 3])):
        kind = rng.random()
        roots = []
        c = [F(rng.choice([1, 1, 1, 2, -1, -2, 3]), rng.choice([1, 1, 1, 2]))]
        if kind < .6:
            for _ in range(rng.choice([1, 2, 2, 3, 3])):
                rt = rng.choice(roots_pool)
                m = rng.choice([1, 1, 1, 2, 3])
                if len(c) + m > 5:
                    m = 1
                for _ in range(m):
                    c = polymul(c, [-rt, F(1)])
                roots.append(rt)
            if len(c) <= 3 and chance(rng, .3):
                c = polymul(c, [F(rng.choice([1, 2, 5])), F(rng.choice([0, 1, -1])), F(1)])
        elif kind < .75:     # no real roots, or constant sign
            c = polymul(c, [F(rng.choice([1, 2, 3])), F(rng.choice([0, 1])), F(1)])
        else:                # generic coefficients
            c = [F(rng.randint(-4, 4)) for _ in range(rng.choice([2, 3, 3, 4]))] + [F(rng.choice([1, -1, 2]))]
        b = rng.choice([F(0), F(0), F(1), F(-2), F(1, 2)]) if chance(rng, .7) else \
            rng.choice([peval(c, r) for r in [F(0), F(1), F(-1), F(2)]])
        c = [c[0] + b] + c[1:]         # c(x) compared with b
        if not all(small(k, 3000) for k in c) or not small(b, 3000):
            continue
        zeros = rng.choice([0, 0, 0, 1, 2])
        cs = c + [F(0)] * zeros
        t = {'k': 'poly', 'a': v(x), 'c': [q(k) for k in cs]}
        deg = len(c) - 1
        extra = set(roots) | {F(k) for k in range(-5, 6)}
        # the vertex of a quadratic, and other rational turning points
        if deg == 2:
            extra.add(-c[1] / (2 * c[2]))
        extra = {p for p in extra if small(p)}
        r = rng.random()
        if r < .4:
            s = interval(rng, -INF, b, True, chance(rng, .5))
        elif r < .7:
            s = interval(rng, b, INF, chance(rng, .5), True)
        elif r < .85:
            s = fin([b])
        elif r < .93:
            s = interval(rng, b, b + rng.choice([1, 2]))
        else:
            s = rng.choice([{'k': 'fin', 'v': [PINF]}, {'k': 'fin', 'v': [NINF]},
                            {'k': 'fin', 'v': [PINF, NINF, q(b)]}, interval(rng, -INF, INF)])
        e = {'k': 'lit', 't': t, 's': s}
        sd = rng.random()

        def mk(sd=sd, e=e, t=t, s=s):
            r2 = random.Random(sd)
            if r2.random() < .3:
                return mk_event(e, r2)
            # spelled with powers and sums of the variable
            X = T.Id(x)
            p = None
            for i, k in enumerate(t['c']):
                k = num(unq(k), r2, 'py' if i else 'raw')
                if i == 0:
                    continue
                m = X if i == 1 else X ** i
                if k == 0:
                    continue
                m = k * m if k != 1 else m
                p = m if p is None else p + m
            if unq(t['c'][0]) != 0 or p is None:
                p = (p if p is not None else X) + num(unq(t['c'][0]), r2, 'raw')
            return mk_event({'k': 'lit', 't': v('P'), 's': s}, r2, {'P': p})
        solve(w, e, x, mk, extra)
        os.environ['SPPL_NO_SYMBOLIC'] = '1'
        try:
            solve(w, e, x, mk, extra)
        finally:
            del os.environ['SPPL_NO_SYMBOLIC']
        with Fault(rng.choice([0, 0, 1, 2]), chance(rng, .3)) as f:
            solve(w, e, x, mk, extra)
        if f.n:
            w.log('flag', r=(f.left == 0), f='poly:alarm left pending')
        # and again, unhurt by the interruption
        if chance(rng, .3):
            solve(w, e, x, mk, extra)
            w.log('flag', r=(signal.alarm(0) == 0), f='poly:alarm left pending')
    if not w.ev:
        raise Skip('empty')
    return w.ev


# ------------------------------------------------------------------------ C04
def gen_bool(rng, lits, mk_lit, nomixed=True):
    if lits == 1:
        e = mk_lit()
        return {'k': 'not', 'x': e} if chance(rng, .25) else e
    k = rng.randint(1, lits - 1)
    a, b = gen_bool(rng, k, mk_lit), gen_bool(rng, lits - k, mk_lit)
    r = rng.random()
    if r < .42:
        e = {'k': 'and', 'xs': [a, b]}
    elif r < .84 or lits > 3:
        e = {'k': 'or', 'xs': [a, b]}
    else:
        e = {'k': 'xor', 'x': a, 'x2': b}
    return {'k': 'not', 'x': e} if chance(rng, .15) else e


def theme_term(rng, t, pts):
    k = rng.choice(['addc', 'mulc', 'rsubc', 'powi', 'root', 'exp', 'exp', 'log', 'poly'])
    if k in ('addc', 'mulc', 'rsubc'):
        return {'k': k, 'a': t, 'q': q(rng.choice([F(2), F(-1), F(3)]))}
    if k in ('powi', 'root'):
        return {'k': k, 'a': t, 'n': rng.choice([2, 3])}
    if k == 'poly':
        return {'k': k, 'a': t, 'c': [q(rng.choice([F(0), F(1)])), q(rng.choice([F(1), F(-2)])), q(F(1))]}
    return {'k': k, 'a': t, 'b': q(rng.choice([F(2), F(3), F(1, 2)] if k == 'exp' else [F(2), F(4)]))}


def C04(rng):
    from sppl.dnf import dnf_normalize, dnf_to_disjoint_union
    w = World(rng)
    nv = rng.choice([1, 2, 2, 3])
    kinds, terms, theme = {}, {}, [.3]
    for x in ['X', 'Y', 'Z'][:nv]:
        if chance(rng, .35):
            kinds[x] = rng.sample(STR, rng.choice([2, 3]))
        else:
            kinds[x] = sorted(rng.sample([F(i) for i in range(-2, 4)] + [F(1, 2)] * chance(rng, .5), rng.choice([2, 3, 3])))

    def lit():
        x = rng.choice(sorted(kinds))
        if isinstance(kinds[x][0], str):
            r = rng.random()
            return {'k': 'lit', 't': v(x), 's': gen_nom_set(rng, kinds[x])}
        t, pts = v(x), kinds[x]
        if chance(rng, theme[0]):
            old = terms.setdefault(x, [])
            if old and chance(rng, .8):
                t2 = rng.choice(old)
                t2 = near_term(rng, t2) if chance(rng, .6) else t2
            else:
                t2 = theme_term(rng, t, pts) if theme[0] > .5 else \
                    gen_term(rng, t, pts, 1, polys=1 if chance(rng, .3) else 0)
                old.append(t2)
            if images(t2, pts):
                t, pts = t2, images(t2, pts)
        s = gen_real_union(rng, pts) if (t['k'] == 'var' and chance(rng, .15)) else gen_real_set(rng, pts)
        return {'k': 'lit', 't': t, 's': s}
    def twins():
        '''Literals about nearly the same transform, side by side.'''
        x = rng.choice([x for x in sorted(kinds) if not isinstance(kinds[x][0], str)])
        t = theme_term(rng, v(x), kinds[x])
        out = []
        for _ in range(40):
            t2 = t if not out or chance(rng, .3) else near_term(rng, t)
            im = images(t2, kinds[x])
            if im:
                out.append({'k': 'lit', 't': t2, 's': gen_real_set(rng, im)})
            if len(out) == 2 + (len(im or []) % 2):
                break
        e = {'k': rng.choice(['and', 'or']), 'xs': out}
        if not out:
            return lit()
        return {'k': rng.choice(['and', 'or']), 'xs': [e, lit()]} if chance(rng, .3) else e

    numeric = any(not isinstance(k[0], str) for k in kinds.values())
    for n in range(3):
        # sometimes most literals are about nearly the same transform
        theme[0] = rng.choice([.15, .3, .85])
        if theme[0] > .5:
            terms.clear()
        if n == 2 and numeric and chance(rng, .8):
            e = twins()
        else:
            e = gen_bool(rng, rng.choice([2, 3, 3, 4, 5]) if nv > 1 else rng.choice([2, 3, 4]), lit)
        sd = rng.random()
        mk = lambda: mk_event(e, random.Random(sd))
        used = sorted(evars(e))
        note = {}
        try:
            ev = mk()
        except Exception as ex:
            w.log('equiv', f='event', e=e, r=e, gs=[], res=err(ex), note=str(ex)[:200])
            continue
        for _k in range(3):
            at = {x: (rng.choice(kinds[x] + ['zz']) if isinstance(kinds[x][0], str)
                      else rng.choice(kinds[x] + [kinds[x][-1] + F(1, 2), kinds[x][0] - F(1, 3)])) for x in used}
            event_at(w, rng, e, mk, at)

        def gs(enc):
            r = []
            for x in used:
                if isinstance(kinds[x][0], str):
                    r.append({'x': x, 'g': [], 'ns': sorted(kinds[x]) + ['zz']})
                else:
                    pts = set(kinds[x])
                    if len(used) == 1:
                        pts |= enc.pts
                    r.append({'x': x, 'g': [q(p) for p in sorted(pts)], 'ns': []})
            return r
        for f, op in (('event', 'equiv'), ('to_dnf', 'dnf'), ('dnf_normalize', 'dnf'), ('disjoint', 'disj')):
            try:
                if f == 'event':
                    r = ev
                elif f == 'to_dnf':
                    r = ev.to_dnf()
                else:
                    r = dnf_normalize(ev)
                    if r is not None and f == 'disjoint':
                        r = dnf_to_disjoint_union(r)
                res = 'ok'
            except Exception as ex:
                w.log(op, f=f, e=e, r=e, gs=gs(Enc()), res=err(ex), note=str(ex)[:200])
                continue
            enc = Enc()
            try:
                d = {'k': 'or', 'xs': []} if r is None else enc_event(r, enc)
            except Skip:
                continue
            if enc.skip and len(used) > 1:
                continue
            if len(repr(d)) > 20000:
                continue
            if f in ('dnf_normalize', 'disjoint') and not solved_form(d):
                w.log('flag', r=False, f=f + ':a literal is not over a base variable')
            w.log(op, f=f, e=e, r=d, gs=gs(enc), res='ok')
        if repr(ev) != repr(mk()):
            w.log('flag', r=False, f='an event was changed by rewriting it')
    if not w.ev:
        raise Skip('empty')
    return w.ev


def solved_form(d):
    if d['k'] == 'lit':
        return d['t']['k'] == 'var'
    return all(solved_form(x) for x in d['xs'])
