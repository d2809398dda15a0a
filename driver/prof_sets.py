"""C01: outcome sets."""
from gen import *   # noqa
from gen import chance
from core import mk_set, Enc, S, err, num, unq
from fractions import Fraction as F

POOL = [F(0), F(1), F(2), F(-1), F(1, 2), F(3), F(-5, 2), F(1, 3), F(7)]


def gen_set(rng, depth=2):
    r = rng.random()
    pts = rng.sample(POOL, rng.choice([2, 3, 4]))
    if r < .04:
        return {'k': 'empty'}
    if r < .24:
        if chance(rng, .1):
            return nom([], b=True)
        return nom(rng.sample(STR, rng.randint(1, 3)), b=chance(rng, .4))
    if r < .42:
        vals = [q(x) for x in rng.sample(pts, rng.randint(1, len(pts)))]
        if chance(rng, .12):
            vals.append(rng.choice([PINF, NINF]))
        return {'k': 'fin', 'v': vals}
    if r < .70 or depth == 0:
        a, b = sorted(rng.sample(pts, 2))
        a = -INF if chance(rng, .2) else a
        b = INF if chance(rng, .2) else b
        return interval(rng, a, b)
    return {'k': 'uni', 's': [gen_set(rng, 0) for _ in range(rng.choice([2, 2, 3, 4]))]}


def spelled(rng, s):
    """Build the library object, sometimes through other routes."""
    return mk_set(s, rng)


def trace(w, rng, items):
    """items: list of (descriptor as observed, library object)."""
    def enc_pair(a, b=None, r=None):
        e = Enc()
        da, db = e.set(a), (e.set(b) if b is not None else None)
        dr = e.set(r) if r is not None else {'k': 'empty'}
        g, skip = e.grid(cap=30)
        ns = sorted({x for d in (da, db, dr) if d for x in strs(d)} | {'zz'})
        return da, db, dr, g, skip, ns
    for _ in range(rng.randint(5, 9)):
        f = rng.choice(['and', 'or', 'not', 'and', 'or', 'not', 'in', 'eq'])
        a, b = rng.choice(items), rng.choice(items)
        note = {}
        if f == 'in':
            x = rng.choice([q(rng.choice(POOL)), PINF, NINF, [rng.choice(STR)], q(rng.choice(POOL) + F(1, 4))])
            py = x[0] if len(x) == 1 else num(unq(x), rng, 'raw')
            try:
                r, res = bool(py in a), 'ok'
            except Exception as ex:
                r, res = False, err(ex)
            try:
                da = Enc().set(a)
            except Skip:
                continue
            w.log('setin', a=da, x=x, r=r, res=res)
            continue
        if f == 'eq':
            try:
                r, h, res = bool(a == b), hash(a) == hash(b), 'ok'
                if r != bool(b == a):
                    w.log('flag', r=False, f='set equality is not symmetric')
            except Exception as ex:
                r, h, res = False, False, err(ex)
            da, db, _, g, skip, ns = enc_pair(a, b)
            w.log('seteq', a=da, b=db, r=r, hash=h, canon=False, g=g, skip=skip, ns=ns, res=res)
            continue
        before = (repr(a), repr(b))
        try:
            r = (a & b) if f == 'and' else (a | b) if f == 'or' else ~a
            res = 'ok'
            if not isinstance(r, S.Set):
                raise TypeError('not a set: %r' % (r,))
        except Exception as ex:
            r, res, note = None, err(ex), {'note': str(ex)[:200]}
        if (repr(a), repr(b)) != before:
            w.log('flag', r=False, f='a set operation changed its operand')
        da, db, dr, g, skip, ns = enc_pair(a, b if f != 'not' else None, r)
        w.log('setop', f=f, a=da, b=db or {'k': 'empty'}, r=dr, g=g, skip=skip, ns=ns, res=res, **note)
        if r is not None:
            items.append(r)


def strs(d):
    if d['k'] == 'nom':
        return set(d['v'])
    if d['k'] == 'uni':
        return set().union(*[strs(x) for x in d['s']])
    return set()


def C01(rng):
    w = World(rng)
    items = []
    for _ in range(rng.randint(2, 4)):
        d = gen_set(rng)
        try:
            s = mk_set(d, rng)
        except Exception as ex:
            # building a union of valid sets is itself a set operation
            w.log('flag', r=False, f='set construction raised ' + err(ex))
            continue
        e = Enc()
        try:
            do = e.set(s)
        except TypeError as ex:
            w.log('flag', r=False, f='set construction returned no set')
            continue
        g, skip = e.grid()
        pts = set(map(tuple, g)) | {tuple(p) for p in points(d)}
        g = [list(p) for p in sorted(pts, key=lambda c: F(c[0], c[1]))]
        # the object denotes what was written (construction through unions)
        w.log('setop', f='or', a=d, b=d, r=do, g=g, skip=skip, ns=sorted(strs(d) | {'zz'}), res='ok')
        # the same construction gives an equal set with an equal hash
        s2 = mk_set(d, random.Random(0))
        items.append(s)
        if chance(rng, .3):
            items.append(s2)
    if items:
        trace(w, rng, items)
    if not w.ev:
        raise Skip('empty')
    return w.ev


def points(d):
    if d['k'] == 'fin':
        return [p for p in d['v'] if p[1]]
    if d['k'] == 'int':
        return [p for p in (d['a'], d['b']) if p[1]]
    if d['k'] == 'uni':
        return [p for x in d['s'] for p in points(x)]
    return []
