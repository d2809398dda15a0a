"""C08, C10, C20: programs, their translation, and notebook sessions."""
import itertools
import re

from gen import *   # noqa
from gen import chance
from core import *  # noqa
from core import num, q, unq, v, to_frac, err, spec_dist, E, S, T, D, F, Skip, mk_event, mk_term

from sppl.compilers import ast_to_spe as A
from sppl.compilers.sppl_to_python import SPPL_Compiler

TRU = {'k': 'tru'}


# ------------------------------------------------------------ program trees
# A program tree is the specification's command syntax with three additions:
# templates (names with an index expression in brackets, instantiated by loops
# and switches), distributions with their library spelling, and tables of
# distributions indexed by a loop variable.
def inst_name(x, env):
    return re.sub(r'\[(.+?)\]', lambda m: '[%d]' % eval(m.group(1), {}, dict(env)), x) if '[' in x else x


def inst_term(t, env):
    if t['k'] == 'var':
        return v(inst_name(t['v'], env))
    r = dict(t)
    if t['k'] == 'pw':
        return {'k': 'pw', 'p': [{'t': inst_term(p['t'], env), 'e': inst_event(p['e'], env)} for p in t['p']]}
    for f in ('a', 'a2'):
        if f in r:
            r[f] = inst_term(r[f], env)
    return r


def inst_event(e, env):
    r = dict(e)
    if e['k'] == 'lit':
        r['t'] = inst_term(e['t'], env)
    for f in ('x', 'x2'):
        if f in r:
            r[f] = inst_event(r[f], env)
    if 'xs' in r:
        r['xs'] = [inst_event(y, env) for y in r['xs']]
    return r


def the_dist(c, env):
    return c['tab'][env[c['key']]] if 'tab' in c else c['d']


def spec_cmd(w, c, env=None):
    env = env or {}
    k = c['k']
    if k == 'sample':
        x = inst_name(c['x'], env)
        s = w.sdist(c['x'], the_dist(c, env))
        return dict(s, k='sample', x=x)
    if k == 'mixsample':
        return dict(k='mixsample', x=inst_name(c['x'], env), ds=[spec_dist(d) for d in c['ds']], qs=[q(p) for p in c['qs']],
                    g=[q(p) for p in w.fam(c['x']).grid], dens=w.dens)
    if k == 'transform':
        return {'k': k, 'x': inst_name(c['x'], env), 't': inst_term(c['t'], env)}
    if k == 'condition':
        return {'k': k, 'e': inst_event(c['e'], env)}
    if k == 'constrain':
        return {'k': k, 'asg': [[inst_name(x, env), y] for x, y in c['asg']]}
    if k == 'seq':
        return {'k': k, 'cs': [spec_cmd(w, x, env) for x in c['cs']]}
    if k == 'ifelse':
        return {'k': k, 'bs': [{'e': inst_event(b['e'], env), 'c': spec_cmd(w, b['c'], env)} for b in c['bs']]}
    if k == 'for':
        return {'k': k, 'n0': c['n0'], 'n1': c['n1'],
                'bs': [{'i': i, 'c': spec_cmd(w, c['c'], dict(env, **{c['i']: i}))} for i in range(c['n0'], c['n1'])]}
    if k == 'switch':
        return {'k': k, 'x': inst_name(c['x'], env), 'vals': c['vals'],
                'cs': [spec_cmd(w, c['c'], dict(env, **{c['i']: i})) for i in range(len(c['vals']))]}
    if k == 'skip':
        return c
    raise AssertionError(k)


def lib_dist(d):
    name, kw = d['lib']
    return getattr(D, name)(kw) if name in ('choice', 'discrete') else getattr(D, name)(**kw)


def lib_cmd(w, c, env=None):
    rng, env, k = w.rng, env or {}, c['k']
    Id = lambda x: T.Id(inst_name(x, env))
    go = lambda x: lib_cmd(w, x, env)
    if k == 'skip':
        return A.Skip()
    if k == 'sample':
        return A.Sample(Id(c['x']), DistMaker.make(the_dist(c, env)))
    if k == 'mixsample':
        return A.Sample(Id(c['x']), mix_dist(c['ds'], c['qs'], rng))
    if k == 'transform':
        return A.Transform(Id(c['x']), mk_term(inst_term(c['t'], env), rng))
    if k == 'condition':
        return A.Condition(mk_event(inst_event(c['e'], env), rng))
    if k == 'constrain':
        return A.Constrain({Id(x): (y[0] if len(y) == 1 else num(unq(y), rng, 'raw')) for x, y in c['asg']})
    if k == 'seq':
        return A.Sequence(*[go(x) for x in c['cs']])
    if k == 'ifelse':
        args = []
        for b in c['bs']:
            e = (A.Otherwise if chance(rng, .5) else True) if b['e']['k'] == 'tru' else mk_event(inst_event(b['e'], env), rng)
            args += [e, go(b['c'])]
        return A.IfElse(*args)
    if k == 'for':
        return A.For(c['n0'], c['n1'], lambda i: lib_cmd(w, c['c'], dict(env, **{c['i']: i})))
    if k == 'switch':
        keys = [lib_value(s, rng) for s in c['vals']]
        pos = iter(())
        if c.get('enum'):
            return A.Switch(Id(c['x']), enumerate(keys), lambda i, y: lib_cmd(w, c['c'], dict(env, **{c['i']: i})))
        count = itertools.count()
        n = len(keys)
        coll = rng.choice([list, tuple, list, iter_once]) if len(keys) == len(set(map(str, keys))) else list
        # the value the body is given determines which body it is
        def body(y):
            hits = [i for i in range(n) if keys[i] is y or (type(keys[i]) is type(y) and keys[i] == y)]
            return lib_cmd(w, c['c'], dict(env, **{c['i']: hits[0]}))
        return A.Switch(Id(c['x']), coll(keys), body)
    raise AssertionError(k)


def iter_once(xs):
    return (x for x in xs)


def lib_value(s, rng):
    """A case of a switch: a value or a set."""
    if s['k'] == 'nom' and len(s['v']) == 1 and not s['b'] and chance(rng, .8):
        return s['v'][0]
    if s['k'] == 'fin' and len(s['v']) == 1 and chance(rng, .8):
        return num(unq(s['v'][0]), rng, 'raw')
    return mk_set(s, rng)


def mix_dist(ds, qs, rng):
    r = None
    for d, p in zip(ds, qs):
        x = lib_dist(d)
        part = num(p, rng, 'py') * x
        r = part if r is None else r | part
    return r


def sample_cmd(w, x, d):
    return {'k': 'sample', 'x': x, 'd': d}


def names_of(c, env=None):
    """Variables the command defines, instantiated, with their templates."""
    env, k = env or {}, c['k']
    if k in ('sample', 'mixsample', 'transform'):
        return {inst_name(c['x'], env): c['x']}
    r = {}
    if k == 'seq':
        for x in c['cs']:
            r.update(names_of(x, env))
    if k == 'ifelse':
        for b in c['bs']:
            r.update(names_of(b['c'], env))
    if k == 'for':
        for i in range(c['n0'], c['n1']):
            r.update(names_of(c['c'], dict(env, **{c['i']: i})))
    if k == 'switch':
        for i in range(len(c['vals'])):
            r.update(names_of(c['c'], dict(env, **{c['i']: i})))
    return r


def run_cmd(w, h, c, build=None, hints=None):
    """Run a command on a handle (None for the empty state)."""
    name, note = w.fresh(), {}
    spe0 = None if h is None else h.spe
    try:
        cmd = (build or lib_cmd)(w, c)
        spe = cmd.interpret(spe0) if spe0 is not None else cmd.interpret()
        res = 'ok'
        if spe is not None and not isinstance(spe, E.SPE):
            spe, res = None, 'err:NotAnExpression'
    except Skip:
        raise
    except Exception as ex:
        spe, res, note = None, err(ex), {'note': str(ex)[:150]}
    if res == 'ok' and spe is None:
        return None
    w.log('run', h=name, src=h.name if h else '', c=spec_cmd(w, c), res=res, **note)
    if spe is None:
        return None
    if h is not None:
        return h.like(name, spe)
    return H(name, spe, {}, [])


# --------------------------------------------------------------- generation
class Ctx(H):
    """Static knowledge about the variables in scope."""
    def __init__(self, fams=None, order=(), derived=None):
        super().__init__(None, None, fams or {}, order, derived)

    def copy(self):
        return Ctx(self.fams, self.order, self.derived)


SMALL_W = dict(bounded=4, tail=1, sym=1, cauchy=.5, integer=4, nominal=4, atoms=.7)


class Prog:
    def __init__(self, w, text=False):
        self.w, self.rng, self.text = w, w.rng, text
        self.count = 0
        self.arrays = {}          # name -> length
        self.names = iter(['X', 'Y', 'Z', 'W', 'V', 'U', 'T1', 'T2', 'XX', 'Y_1', 'Q', 'R', 'S1', 'S2'])
        self.anames = iter(['A', 'B', 'AA'])
        self.left = w.rng.choice([3, 4, 4, 5])     # sampled variables still wanted

    def new_dist(self, x):
        for _ in range(30):
            d = self.w.new_dist(x)
            if d['lib'] is not None:
                return d
        raise Skip('no dist')

    def like_dists(self, x, n):
        """n distributions written alike."""
        d = self.new_dist(x)
        out = [d]
        for _ in range(40):
            if len(out) == n:
                break
            d2 = self.new_dist(x)
            a, b = d['lib'], d2['lib']
            if a[0] == b[0] and (a[0] in ('choice', 'discrete') or set(a[1]) == set(b[1])):
                out.append(d2)
        while len(out) < n:
            out.append(self.rng.choice(out))
        return out

    def define(self, ctx, x, loop=None):
        """A command that defines x; loop = (index variable, number of values)."""
        rng, w = self.rng, self.w
        w.fam(x)
        f = w.fams[x]
        numeric = [y for y in ctx.vars() if ctx.fams[ctx.root(y)].kind in 'ci' and ctx.pts(y)]
        r = rng.random()
        ctx.fams[x] = f
        if x not in ctx.order:
            ctx.order.append(x)
        self.left -= 1
        if r < .15:
            ds = [self.new_dist(x) for _ in range(rng.choice([2, 2, 3]))]
            return {'k': 'mixsample', 'x': x, 'ds': ds, 'qs': probs(rng, len(ds))}
        if loop and r < .6:
            ds = self.like_dists(x, loop[1])
            return {'k': 'sample', 'x': x, 'tab': ds, 'key': loop[0]}
        return {'k': 'sample', 'x': x, 'd': self.new_dist(x)}

    def derive(self, ctx, x, src=None):
        rng, w = self.rng, self.w
        numeric = [y for y in ctx.vars() if ctx.fams[ctx.root(y)].kind in 'ci' and ctx.pts(y)]
        if not numeric:
            return None
        src = src or rng.choice(numeric)
        for _ in range(6):
            t = w.some_term(ctx, src, rng.choice([1, 2]))
            pts = ctx.pts(src)
            if pts and all(ieval(t, p) is not None for p in pts):
                break
        ctx.derived[x] = (src, t)
        return {'k': 'transform', 'x': x, 't': t}

    def event(self, ctx, lits=None, total=True):
        for _ in range(12):
            e = self.w.gen_event(ctx, lits or self.rng.choice([1, 1, 2, 2, 3]))
            if self.w.no_mixed(e, ctx):
                return e
        raise Skip('no event')

    def constrain(self, ctx):
        xs = [x for x in ctx.order if ctx.fams[x].kind in 'in']
        if not xs:
            return None
        x = self.rng.choice(xs)
        f = ctx.fams[x]
        c = [self.rng.choice(f.strs)] if f.kind == 'n' else q(self.rng.choice(f.grid))
        return {'k': 'constrain', 'asg': [[x, c]]}

    def must(self, ctx, names, depth, loop=None):
        """Commands that define all the names in ctx (kinds: s sampled, d derived)."""
        rng = self.rng
        out = []
        todo = list(names)
        rng.shuffle(todo)
        while todo:
            x, kind = todo.pop()
            if depth > 0 and ctx.order and chance(rng, .5 if todo and not out else .3):
                group = [(x, kind)] + ([todo.pop()] if todo and chance(rng, .2) else [])
                out.append(self.branch(ctx, group, depth - 1, loop))
                continue
            c = self.derive(ctx, x) if kind == 'd' else None
            out.append(c or self.define(ctx, x, loop))
            if kind == 'd' and c is None:
                pass
        if chance(rng, .12):
            out.append({'k': 'condition', 'e': self.event(ctx, rng.choice([1, 1, 2]))})
        if chance(rng, .05):
            c = self.constrain(ctx)
            if c:
                out.append(c)
        if chance(rng, .1) and not self.text:
            out.insert(rng.randrange(len(out) + 1), {'k': 'skip'})
        return out[0] if len(out) == 1 else {'k': 'seq', 'cs': out}

    def branch(self, ctx, names, depth, loop=None):
        """if/elif/else or switch defining the names."""
        rng = self.rng
        kinds = 'switch' if chance(rng, .35) else 'if'
        before = ctx.copy()
        if kinds == 'switch':
            xs = [x for x in ctx.order if ctx.fams[x].kind in 'inc' and '[' not in x] + \
                 [x for x in ctx.order if '[' in x and chance(rng, .5)]
            xs = [x for x in xs if ctx.fams[x].kind != 'x']
            if xs:
                x = rng.choice(xs)
                vals = self.cases(ctx.fams[x])
                i = 'k%d' % self.count
                self.count += 1
                body = self.must(ctx, names, depth, (i, len(vals)))
                return {'k': 'switch', 'x': x, 'vals': vals, 'i': i, 'enum': chance(rng, .4), 'c': body}
        n = rng.choice([2, 2, 2, 3, 4, 5])
        bs = []
        guards = self.overlapping(before, n) if n > 2 and chance(rng, .6) else None
        guards = guards or self.guards(before, n)
        for j, g in enumerate(guards):
            c = before.copy()
            bs.append({'e': g, 'c': self.must(c, names, depth, loop)})
            if j == 0:
                first = c
        ctx.fams.update(first.fams)
        ctx.order = first.order
        ctx.derived = first.derived
        return {'k': 'ifelse', 'bs': bs}

    def guards(self, ctx, n):
        rng = self.rng
        es = [self.event(ctx, rng.choice([1, 1, 2])) for _ in range(n - 1)]
        r = rng.random()
        if r < .75:
            return es + [TRU]
        last = {'k': 'not', 'x': es[0] if len(es) == 1 else {'k': 'or', 'xs': es}}
        return es + [last]

    def overlapping(self, ctx, n):
        """Guards on one variable, each a union of cells, so that any two of
        them may overlap whatever lies between."""
        rng = self.rng
        xs = [x for x in ctx.vars() if ctx.fams[ctx.root(x)].kind in 'inc']
        if not xs:
            return None
        x = rng.choice(xs)
        f = ctx.fams[ctx.root(x)]
        if f.kind == 'n':
            parts = [nom([s]) for s in f.strs]
        else:
            g = sorted(set(ctx.pts(x)))
            if f.kind == 'i' and x in ctx.fams:
                parts = [fin([p]) for p in g]
            else:
                parts = [{'k': 'int', 'a': q(a), 'b': q(b), 'lo': False, 'ro': True} for a, b in zip(g, g[1:])] + \
                    [{'k': 'int', 'a': q(g[-1]), 'b': PINF, 'lo': False, 'ro': True},
                     {'k': 'int', 'a': NINF, 'b': q(g[0]), 'lo': True, 'ro': True}] if g else []
        if len(parts) < 2:
            return None
        lit = lambda s: {'k': 'lit', 't': v(x), 's': s}
        es = []
        for _ in range(n - 1):
            ps = rng.sample(parts, rng.choice([1, 1, 2]))
            es.append(lit(ps[0]) if len(ps) == 1 else {'k': 'or', 'xs': [lit(p) for p in ps]})
        # a guard far up is met again
        if len(es) > 2 and chance(rng, .5):
            es[-1] = {'k': 'or', 'xs': [es[0], es[-1]]} if chance(rng, .5) else es[0]
        return es + [TRU]

    def cases(self, f):
        """Case sets of a switch that cover the family."""
        rng = self.rng
        if f.kind == 'n':
            vs = list(f.strs)
            rng.shuffle(vs)
            if chance(rng, .2) and len(vs) > 2:
                return [nom(vs[:2])] + [nom([x]) for x in vs[2:]]
            if chance(rng, .15):
                return [nom([vs[0]]), nom([vs[0]], True)]
            return [nom([x]) for x in vs]
        if f.kind == 'i' and chance(rng, .7):
            lo, hi = int(f.grid[0]), int(f.grid[-1])
            vs = list(range(lo - (chance(rng, .1)), hi + 2))
            return [fin([x]) for x in vs]
        g = sorted(rng.sample(list(f.grid), min(len(f.grid), rng.choice([1, 2]))))
        out, prev, closed = [], -INF, True
        for c in g:
            ro = chance(rng, .5)
            out.append({'k': 'int', 'a': q(prev), 'b': q(c), 'lo': not closed if prev != -INF else True, 'ro': ro})
            prev, closed = c, ro
        out.append({'k': 'int', 'a': q(prev), 'b': PINF, 'lo': not closed, 'ro': True})
        if chance(rng, .3):     # overlapping: the first case wins
            out = [out[0]] + [{'k': 'int', 'a': NINF, 'b': PINF, 'lo': True, 'ro': True}]
        return out

    def loop(self, ctx):
        rng, w = self.rng, self.w
        a = next(self.anames)
        fam = rng.choice([lambda: Integer(rng, hi=2), lambda: Nominal(rng), lambda: Bounded(rng, 2)])()
        if fam.kind == 'n':
            fam.strs = fam.strs[:2]
        n = rng.choice([1, 2, 2, 3])
        i = rng.choice(['i', 'j', 'idx'])
        out = []
        start = 0
        if chance(rng, .6):
            x0 = a + '[0]'
            w.fams[x0] = fam
            out.append(self.define(ctx, x0))
            start = 1
        tmpl, prev = '%s[%s]' % (a, i), '%s[%s-1]' % (a, i)
        for x in [tmpl, prev] + ['%s[%d]' % (a, k) for k in range(start + n)]:
            w.fams[x] = fam
        c = ctx.copy()
        if start:
            c.fams[prev] = fam
            c.order.append(prev)
        else:
            c.fams.pop(prev, None)
        if chance(rng, .4) and start and fam.kind in 'ci':
            src = prev
            t = {'k': rng.choice(['addc', 'subc', 'rsubc']), 'a': v(prev), 'q': q(rng.choice([1, 0, 2]))} if chance(rng, .7) else \
                {'k': 'neg', 'a': v(prev)}
            body = {'k': 'transform', 'x': tmpl, 't': t}
            kind = 'd'
        else:
            body = self.must(c, [(tmpl, 's')], rng.choice([0, 1, 1]), None)
            kind = 's'
        if not start and 'd' not in kind and chance(rng, .3):
            n = n
        loop = {'k': 'for', 'i': i, 'n0': start, 'n1': start + n, 'c': body}
        self.arrays[a] = start + n
        self.left -= n
        out.append(loop)
        for k in range(start, start + n):
            x = '%s[%d]' % (a, k)
            if kind == 's':
                ctx.fams[x] = fam
                ctx.order.append(x)
            else:
                ctx.derived[x] = (inst_name(prev, {i: k}), inst_term(body['t'], {i: k}))
        return out

    def program(self, ctx=None):
        rng, w = self.rng, self.w
        ctx = ctx or Ctx()
        cmds = []
        if not ctx.order:
            cmds.append(self.define(ctx, next(self.names)))
        while self.left > 0 and len(cmds) < 7:
            r = rng.random()
            if r < .3:
                cmds.append(self.define(ctx, next(self.names)))
            elif r < .45:
                c = self.derive(ctx, next(self.names))
                if c:
                    cmds.append(c)
            elif r < .75:
                k = rng.choice([1, 1, 2, 2])
                names = [(next(self.names), 'd' if chance(rng, .25) else 's') for _ in range(k)]
                if any(kd == 'd' for _x, kd in names) and not any(ctx.fams[ctx.root(y)].kind in 'ci' for y in ctx.vars()):
                    names = [(x, 's') for x, _k in names]
                cmds.append(self.branch(ctx, names, rng.choice([0, 0, 1] if k == 1 else [0, 1, 1])))
            elif r < .87:
                cmds += self.loop(ctx)
            elif r < .95:
                cmds.append({'k': 'condition', 'e': self.event(ctx)})
            else:
                c = self.constrain(ctx)
                if c:
                    cmds.append(c)
        if chance(rng, .3):
            cmds.append({'k': 'condition', 'e': self.event(ctx)})
        return {'k': 'seq', 'cs': cmds}, ctx


def walk(c, path=()):
    """All positions in a program tree."""
    yield path, c
    for i, x in enumerate(c.get('cs', [])):
        yield from walk(x, path + (('cs', i),))
    for i, b in enumerate(c.get('bs', [])):
        yield from walk(b['c'], path + (('bs', i),))
    if c['k'] in ('for', 'switch'):
        yield from walk(c['c'], path + (('c', None),))


def put(c, path, new):
    if not path:
        return new
    (f, i), rest = path[0], path[1:]
    r = dict(c)
    if f == 'c':
        r['c'] = put(c['c'], rest, new)
    elif f == 'cs':
        r['cs'] = list(c['cs'])
        r['cs'][i] = put(c['cs'][i], rest, new)
    else:
        r['bs'] = [dict(b) for b in c['bs']]
        r['bs'][i]['c'] = put(c['bs'][i]['c'], rest, new)
    return r


def broken(w, c, ctx):
    """A variant of the program that may have to be rejected."""
    rng = w.rng
    nodes = list(walk(c))
    kind = rng.choice(['dropelse', 'again', 'unknown', 'dropdef', 'null', 'rename', 'dropcase', 'rederive'])
    if kind == 'dropelse':
        xs = [(p, n) for p, n in nodes if n['k'] == 'ifelse' and len(n['bs']) > 1]
        if not xs:
            return None
        p, n = rng.choice(xs)
        return put(c, p, dict(n, bs=n['bs'][:-1]))
    if kind == 'dropcase':
        xs = [(p, n) for p, n in nodes if n['k'] == 'switch' and len(n['vals']) > 1 and 'tab' not in str(n['c'])]
        if not xs:
            return None
        p, n = rng.choice(xs)
        return put(c, p, dict(n, vals=n['vals'][:-1]))
    if kind in ('again', 'rederive'):
        top = [n for p, n in nodes if n['k'] in ('sample', 'transform')]
        n = rng.choice(top)
        if '[' in n['x'] or 'tab' in n:
            return None
        if kind == 'rederive':
            src = [y for y in ctx.order if ctx.fams[y].kind in 'ci' and '[' not in y]
            if not src:
                return None
            n = {'k': 'transform', 'x': n['x'], 't': {'k': 'addc', 'a': v(rng.choice(src)), 'q': q(1)}}
        return dict(c, cs=c['cs'] + [n])
    if kind == 'unknown':
        bad = rng.choice([{'k': 'condition', 'e': {'k': 'lit', 't': v('UNKNOWN'), 's': interval(rng, F(0), INF)}},
                          {'k': 'transform', 'x': 'NEW', 't': {'k': 'addc', 'a': v('UNKNOWN'), 'q': q(1)}}])
        k = rng.randint(1, len(c['cs']))
        return dict(c, cs=c['cs'][:k] + [bad] + c['cs'][k:])
    if kind in ('dropdef', 'rename'):
        xs = [(p, n) for p, n in nodes if n['k'] in ('sample', 'transform') and any(f in ('bs', 'c') for f, _i in p)]
        if not xs:
            return None
        p, n = rng.choice(xs)
        if kind == 'rename':
            if '[' in n['x'] or 'tab' in n:
                return None
            w.fams['OTHER'] = w.fam(n['x'])
            return put(c, p, dict(n, x='OTHER'))
        return put(c, p, {'k': 'skip'})
    # an impossible condition somewhere
    xs = [x for x in ctx.order if '[' not in x]
    if not xs:
        return None
    x = xs[0]
    f = ctx.fams[x]
    e = {'k': 'lit', 't': v(x), 's': nom(['zz'])} if f.kind == 'n' else \
        {'k': 'and', 'xs': [{'k': 'lit', 't': v(x), 's': interval(rng, -INF, f.grid[0], True, True)},
                            {'k': 'lit', 't': v(x), 's': interval(rng, f.grid[0], INF, True, True)}]}
    at = rng.randint(1, len(c['cs']))
    return dict(c, cs=c['cs'][:at] + [{'k': 'condition', 'e': e}] + c['cs'][at:])


def settle(w, h, ctx):
    """What the generator knows about the variables of a program's result."""
    syms = {s.token for s in h.spe.get_symbols()}
    h.fams = dict(ctx.fams)
    if 'OTHER' in syms:
        h.fams['OTHER'] = w.fams['OTHER']
    h.order = [x for x in ctx.order if x in syms]
    h.derived = {x: y for x, y in ctx.derived.items() if x in syms}
    return h


def ask(w, h, k=3, tree=True):
    from prof_spe import queries, tree as dotree
    if tree and all(str(x) in h.fams or str(x) in h.derived for x in h.spe.get_symbols()):
        dotree(w, h)
    queries(w, h, k, negs=.1)


def C08(rng):
    w = World(rng, weights=SMALL_W, heavy=1)
    p = Prog(w)
    h0, ctx = None, None
    if chance(rng, .25):
        h0 = w.build(['X0', 'Y0'][:rng.choice([1, 2])], depth=1)
        ctx = Ctx(h0.fams, h0.order, h0.derived)
    c, ctx = p.program(ctx)
    h = run_cmd(w, h0, c)
    if h is not None:
        settle(w, h, ctx)
        ask(w, h, rng.choice([2, 3, 4]))
        if chance(rng, .3):
            from prof_spe import samples
            xs = h.vars()
            samples(w, h, xs, 4, lambda: h.spe.sample(4))
        if chance(rng, .3):
            h2 = w.cond(h, w.gen_event(h, rng.choice([1, 2])))
            if h2 is not None:
                ask(w, h2, 1, tree=False)
    # the same program tree, interpreted twice
    if chance(rng, .3) and h is not None:
        cmd = lib_cmd(w, c)
        try:
            cmd.interpret(*([h0.spe] if h0 else []))
        except Exception:
            pass
        h2 = run_cmd(w, h0, c, build=lambda _w, _c: cmd)
        if h2 is not None:
            ask(w, settle(w, h2, ctx), 1)
    # a program and its continuation
    if chance(rng, .3) and h is not None and len(c['cs']) > 1:
        k = rng.randrange(1, len(c['cs']))
        first = run_cmd(w, h0, dict(c, cs=c['cs'][:k]))
        if first is not None:
            second = run_cmd(w, first, dict(c, cs=c['cs'][k:]))
            if second is not None:
                ask(w, settle(w, second, ctx), 1)
    for _ in range(rng.choice([1, 2, 2])):
        b = broken(w, c, ctx)
        if b is not None:
            h2 = run_cmd(w, h0, b)
            if h2 is not None:
                ask(w, settle(w, h2, ctx), 1)
    return w.ev


