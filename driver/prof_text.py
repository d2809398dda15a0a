"""C10: program text.

A command tree is laid out as surface statements, the statements are written
as text in a random spelling, and the text is compiled and executed.  The
specification judges the statements by the scope rules (Scope.tla) and the
command tree by its meaning (Program.tla)."""
from prof_prog import *   # noqa
from core import num, unq, Fixed, F, E, T, INF, PINF, NINF, E_BASE, err, Skip
from gen import chance


# ------------------------------------------------------- surface statements
def surface(c):
    k = c['k']
    if k in ('sample', 'mixsample', 'transform'):
        return [{'k': 'def', 'cmd': c}]
    if k in ('condition', 'constrain'):
        return [{'k': 'use', 'cmd': c}]
    if k == 'seq':
        return [s for x in c['cs'] for s in surface(x)]
    if k == 'ifelse':
        return [{'k': 'if', 'es': [b['e'] for b in c['bs']], 'bs': [surface(b['c']) for b in c['bs']]}]
    if k == 'for':
        return [{'k': 'for', 'i': c['i'], 'n0': c['n0'], 'n1': c['n1'], 'b': surface(c['c'])}]
    if k == 'switch':
        return [{'k': 'switch', 'sw': c, 'b': surface(c['c'])}]
    raise AssertionError(k)


def tree_of(ss):
    """The command tree that statements describe."""
    out = []
    for s in ss:
        k = s['k']
        if k in ('def', 'use'):
            out.append(s['cmd'])
        elif k == 'if':
            out.append({'k': 'ifelse', 'bs': [{'e': e, 'c': tree_of(b)} for e, b in zip(s['es'], s['bs'])]})
        elif k == 'for':
            out.append({'k': 'for', 'i': s['i'], 'n0': s['n0'], 'n1': s['n1'], 'c': tree_of(s['b'])})
        elif k == 'switch':
            out.append(dict(s['sw'], c=tree_of(s['b'])))
    return {'k': 'seq', 'cs': out}


def base(x):
    return x.split('[')[0]


def scope_of(ss):
    """What the scope rules see."""
    out = []
    for s in ss:
        k = s['k']
        if k == 'def':
            x = s['cmd']['x']
            out.append({'k': 'def', 'x': base(x), 'sub': '[' in x, 'dist': s['cmd']['k'] != 'transform'})
        elif k == 'if':
            out.append({'k': 'if', 'bs': [scope_of(b) for b in s['bs']]})
        elif k in ('for', 'switch'):
            out.append({'k': k, 'b': scope_of(s['b'])})
        elif k == 'array':
            out.append({'k': 'array', 'x': s['x']})
        else:
            out.append({'k': k})
    return out


# ------------------------------------------------------------------ writing
class Text:
    def __init__(self, w, arrays):
        self.w, self.rng = w, w.rng
        self.arrays = arrays
        self.consts = []         # (name, text) in order
        self.cvals = {}          # text of a number -> constant
        self.tabs = {}
        self.imports = set()
        self.decor = chance(self.rng, .5)       # comments, blank lines, odd indentation
        self.named = chance(self.rng, .4)
        self.fixed = 0
        self.modules = chance(self.rng, .2)     # import whole modules

    # ---- words -----------------------------------------------------------
    def use(self, module, name):
        if self.modules and module != 'sympy':
            self.imports.add('import %s as %s_' % (module, module.split('.')[-1]))
            return module.split('.')[-1] + '_.' + name
        self.imports.add('from %s import %s' % (module, name))
        return name

    def S(self, name):
        return self.use('sppl.sets', name)

    def T(self, name):
        return self.use('sppl.transforms', name)

    def number(self, x, kinds='raw', rng=None):
        rng = rng or self.rng
        if isinstance(x, float) and x in (INF, -INF):
            return ('' if x > 0 else '-') + self.use('sympy', 'oo')
        o = num(x, rng, kinds or 'raw')
        if isinstance(o, F):
            s = '%s(%d, %d)' % (self.use('fractions', 'Fraction'), o.numerator, o.denominator)
        elif isinstance(o, (int, float)):
            s = repr(o)
        else:
            s = '%s(%d, %d)' % (self.use('sympy', 'Rational'), o.p, o.q) if o.q != 1 else str(int(o.p))
        if self.named and not self.fixed and isinstance(o, (int, float)) and chance(self.rng, .3):
            return self.const(s)
        return s

    def const(self, s, kind='c'):
        if s in self.cvals:
            return self.cvals[s]
        name = '%s_%d' % (kind, len(self.cvals))
        self.cvals[s] = name
        if kind == 'c' and chance(self.rng, .2):       # the last assignment counts
            for other in self.rng.choice([['7'], [s, '7'], ['7', '8']]):
                self.consts.append((name, other))
        self.consts.append((name, s))
        return name

    def weight(self, p):
        p = F(p)
        if p.denominator in (1, 2, 4, 5, 8, 10) and chance(self.rng, .7):
            return repr(float(p)).lstrip('0') if chance(self.rng, .3) else repr(float(p))
        if chance(self.rng, .3):
            return '%s(%d, %d)' % (self.use('fractions', 'Fraction'), p.numerator, p.denominator)
        return '%d/%d' % (p.numerator, p.denominator)

    def value(self, x):
        """A parameter of a distribution, as the generator built it."""
        if isinstance(x, F):
            return '%s(%d, %d)' % (self.use('fractions', 'Fraction'), x.numerator, x.denominator)
        if isinstance(x, (int, float)):
            s = repr(x)
            return self.const(s) if self.named and chance(self.rng, .2) else s
        if hasattr(x, 'p'):
            return '%s(%d, %d)' % (self.use('sympy', 'Rational'), x.p, x.q)
        return repr(x)

    def paren(self, s, p=.3):
        return '(%s)' % s if chance(self.rng, p) else s

    # ---- distributions ---------------------------------------------------
    def table(self, d):
        items = list(d.items())
        sp = self.rng.choice(['', ' '])
        sep = ',\n      ' if chance(self.rng, .1) and not self.fixed else ', '
        return '{%s}' % sep.join('%r:%s%s' % (k, sp, self.value(x)) for k, x in items)

    def dist(self, d):
        name, kw = d['lib']
        if name in ('choice', 'discrete'):
            return '%s(%s)' % (name, self.table(kw))
        items = list(kw.items())
        self.rng.shuffle(items)
        return '%s(%s)' % (name, self.rng.choice([', ', ',']).join('%s=%s' % (k, self.value(x)) for k, x in items))

    def keys(self, key, loops):
        """How entries of a table over a loop variable are addressed."""
        return loops[key]

    def any_dist(self, c, loops):
        if c['k'] == 'mixsample':
            parts = ['%s%s%s' % (self.weight(p), self.rng.choice(['*', ' * ']), self.dist(d)) for d, p in zip(c['ds'], c['qs'])]
            parts = [self.paren(p, .15) if i else p for i, p in enumerate(parts)]
            return ' | '.join(parts)
        if 'tab' not in c:
            return self.dist(c['d'])
        name, _ = c['tab'][0]['lib']
        keys = loops[c['key']]                       # texts of the keys, or None for 0..n-1
        def tab(entries):
            body = '[%s]' % ', '.join(entries) if keys is None else \
                '{%s}' % ', '.join('%s: %s' % (k, e) for k, e in zip(keys, entries))
            return self.const(body, 'tab') + '[%s]' % c['key']
        ds = [d['lib'] for d in c['tab']]
        if name in ('choice', 'discrete'):
            self.fixed += 1
            r = '%s(%s)' % (name, tab([self.table(kw) for _n, kw in ds]))
            self.fixed -= 1
            return r
        ks = list(ds[0][1])
        if chance(self.rng, .2) or not ks:
            return '%s(**%s)' % (name, tab(['{%s}' % ', '.join('%r: %s' % (k, self.value(kw[k])) for k in ks) for _n, kw in ds]))
        return '%s(%s)' % (name, ', '.join('%s=%s' % (k, tab([self.value(kw[k]) for _n, kw in ds])) for k in ks))

    # ---- terms -----------------------------------------------------------
    def term(self, t, rng=None, memo=None):
        memo = {} if memo is None else memo
        key = repr(t)
        if key not in memo:
            memo[key] = self.term_(t, rng or self.rng, memo)
        return memo[key]

    def term_(self, t, rng, memo):
        k = t['k']
        n = lambda c, kinds='raw': self.number(unq(c), kinds, rng)
        def go(u, top=False):
            s = self.term(u, rng, memo)
            return s if u['k'] == 'var' or top else '(%s)' % s
        if k == 'var':
            return t['v']
        if k == 'pw':
            rng = Fixed(rng)
            self.fixed += 1
            if chance(rng, .25):
                r = '%s([%s], [%s])' % (self.T('Piecewise'), ', '.join(self.term(p['t'], rng, memo) for p in t['p']),
                                        ', '.join(self.event(p['e'], rng) for p in t['p']))
            else:
                parts = []
                for p in t['p']:
                    ab = ['(%s)' % self.term(p['t'], rng, memo), '(%s)' % self.event(p['e'], rng)]
                    if chance(rng, .4):
                        ab.reverse()
                    parts.append('%s*%s' % tuple(ab))
                r = ' + '.join(parts)
            self.fixed -= 1
            return r
        a, flip = go(t['a']), rng.random() < .5
        inner = self.term(t['a'], rng, memo)
        if k == 'addc':
            return '%s + %s' % (n(t['q'], 'py'), a) if flip else '%s + %s' % (a, n(t['q']))
        if k == 'subc':
            return '%s - %s' % (a, n(t['q']))
        if k == 'rsubc':
            return '%s - %s' % (n(t['q'], 'py'), a)
        if k == 'mulc':
            return '%s*%s' % (n(t['q'], 'py'), a) if flip else '%s * %s' % (a, n(t['q']))
        if k == 'divc':
            return '%s/%s' % (a, n(t['q']))
        if k == 'neg':
            return '-%s' % a
        if k in ('add', 'sub', 'mul'):
            return '%s %s %s' % (a, {'add': '+', 'sub': '-', 'mul': '*'}[k], go(t['a2']))
        if k == 'powi':
            return '%s**%d' % (a, t['n']) if not flip else '%s(%s, %d)' % (self.T('Pow'), inner, t['n'])
        if k == 'poly':
            return '%s(%s, [%s])' % (self.T('Poly'), inner, ', '.join(n(c) for c in t['c']))
        if k == 'recip':
            return '%s**-1' % a if t['a']['k'] == 'var' and flip else '1/%s' % a
        if k == 'abs':
            return 'abs(%s)' % inner
        if k == 'root':
            if t['n'] == 2 and flip:
                return '%s(%s)' % (self.T('Sqrt'), inner)
            return '%s**(1, %d)' % (a, t['n']) if not flip else '%s**%s(1, %d)' % (a, self.use('sympy', 'Rational'), t['n'])
        if k == 'exp':
            return '%s(%s)' % (self.T('Exp'), inner) if t['b'] == E_BASE else '%s**%s' % (n(t['b'], 'py'), a)
        if k == 'log':
            return '%s(%s)' % (self.T('Log'), inner) if t['b'] == E_BASE else '%s(%s, %s)' % (self.T('Logarithm'), inner, n(t['b']))
        raise AssertionError(k)

    # ---- sets and events ---------------------------------------------------
    def set(self, s, rng):
        k = s['k']
        n = lambda c: self.number(unq(c), 'raw', rng)
        if k == 'nom':
            return '%s(%s%s)' % (self.S('FiniteNominal'), ', '.join(repr(x) for x in s['v']),
                                 (', ' if s['v'] else '') + 'b=True' if s['b'] else '')
        if k == 'fin':
            return '%s(%s)' % (self.S('FiniteReal'), ', '.join(n(c) for c in s['v']))
        if k == 'int':
            I, ab = self.S('Interval'), '%s, %s' % (n(s['a']), n(s['b']))
            short = {(True, True): '.open', (False, False): '', (True, False): '.Lopen', (False, True): '.Ropen'}[s['lo'], s['ro']]
            if short != '.open' and s['a'] != NINF and s['b'] != PINF and rng.random() < .5:
                return '%s%s(%s)' % (I, short, ab)
            if short == '.open' and rng.random() < .5:
                return '%s.open(%s)' % (I, ab)
            return '%s(%s, left_open=%r, right_open=%r)' % (I, ab, s['lo'], s['ro'])
        if k == 'uni':
            return ' | '.join('(%s)' % self.set(x, rng) for x in s['s'])
        if k == 'empty':
            return self.S('EmptySet')
        raise AssertionError(k)

    def lit(self, e, rng):
        t, s = self.term(e['t'], rng), e['s']
        tk = e['t']['k']
        t1 = t if tk == 'var' else '(%s)' % t
        n = lambda c, kinds='raw': self.number(unq(c), kinds, rng)
        isin = rng.choice([' in ', ' in ', ' << '])
        if s['k'] == 'int' and rng.random() < .8:
            a, b = s['a'], s['b']
            less, lesq = ('<', '<=')
            if a == NINF and b != PINF:
                o = '<' if s['ro'] else '<='
                return '%s %s %s' % (t1, o, n(b)) if rng.random() < .6 else '%s %s %s' % (n(b, 'py'), o.replace('<', '>'), t1)
            if b == PINF and a != NINF:
                o = '>' if s['lo'] else '>='
                return '%s %s %s' % (t1, o, n(a)) if rng.random() < .6 else '%s %s %s' % (n(a, 'py'), o.replace('>', '<'), t1)
            if a != NINF and b != PINF:
                lo, ro = '<' if s['lo'] else '<=', '<' if s['ro'] else '<='
                r = rng.random()
                if r < .4:
                    return '%s %s %s %s %s' % (n(a, 'py'), lo, t1, ro, n(b))
                if r < .55:
                    return '%s %s %s %s %s' % (n(b, 'py'), ro.replace('<', '>'), t1, lo.replace('<', '>'), n(a))
                if r < .7:
                    return '(%s %s %s) %s %s' % (n(a, 'py'), lo, t1, ro, n(b))
                return '(%s %s %s) & (%s %s %s)' % (n(a, 'py'), lo, t1, t1, ro, n(b))
        if s['k'] in ('nom', 'fin') and not s.get('b'):
            vals = [repr(x) for x in s['v']] if s['k'] == 'nom' else [n(c) for c in s['v']]
            if len(vals) == 1 and rng.random() < .7:
                return '%s == %s' % (t1, vals[0])
            if vals and rng.random() < .8:
                o, c = rng.choice([('{', '}'), ('[', ']'), ('(', ')')])
                if o == '(' and len(vals) == 1:
                    c = ',)'
                return t1 + isin + o + ', '.join(vals) + c
        if s['k'] == 'nom' and s['b'] and s['v'] and rng.random() < .6:
            if len(s['v']) == 1 and rng.random() < .6:
                return '%s != %r' % (t1, s['v'][0])
            return '%s not in {%s}' % (t1, ', '.join(map(repr, s['v'])))
        return t1 + isin + '(%s)' % self.set(s, rng)

    def event(self, e, rng=None, memo=None):
        # an event occurring twice is written alike, so that equal
        # transforms stay equal
        rng = rng or self.rng
        k = e['k']
        sub = lambda x: '(%s)' % self.event(x, rng)
        if k == 'lit':
            return self.lit(e, rng)
        if k == 'not':
            x = e['x']
            if x['k'] == 'lit' and x['s']['k'] in ('nom', 'fin') and not x['s'].get('b') and x['s']['v'] and rng.random() < .6:
                t1 = self.term(x['t'], rng)
                t1 = t1 if x['t']['k'] == 'var' else '(%s)' % t1
                vals = [repr(y) for y in x['s']['v']] if x['s']['k'] == 'nom' else [self.number(unq(c), 'raw', rng) for c in x['s']['v']]
                if len(vals) == 1 and rng.random() < .6:
                    return '%s != %s' % (t1, vals[0])
                return '%s not in %s%s%s' % ((t1,) + rng.choice([('{', ', '.join(vals), '}'), ('[', ', '.join(vals), ']')]))
            return '~%s' % sub(x)
        if k == 'xor':
            return '%s ^ %s' % (sub(e['x']), sub(e['x2']))
        if k in ('and', 'or'):
            return (' & ' if k == 'and' else ' | ').join(sub(x) for x in e['xs'])
        raise AssertionError(k)

    # ---- statements ----------------------------------------------------------
    def rhs(self, c, loops):
        return self.term(c['t']) if c['k'] == 'transform' else self.any_dist(c, loops)

    def inline(self, s, loops):
        """(variable, right hand side) of a statement that is one assignment."""
        if s['k'] == 'def':
            return s['cmd']['x'], self.rhs(s['cmd'], loops)
        if s['k'] != 'if' or s['es'][-1] != TRU or len(s['es']) < 2 or any(len(b) != 1 for b in s['bs']):
            return None
        if {b[0]['k'] for b in s['bs']} - {'def', 'if'}:
            return None
        parts = [self.inline(b[0], loops) for b in s['bs']]
        if None in parts or len({p[0] for p in parts}) != 1:
            return None
        r = parts[-1][1]
        if s['bs'][-1][0]['k'] == 'if':
            r = '(%s)' % r
        for (x, p), e, b in reversed(list(zip(parts, s['es'], s['bs']))[:-1]):
            # the chain extends to the right; anything else needs its own parentheses
            p = '(%s)' % p if b[0]['k'] == 'if' else self.paren(p, .3)
            g = self.event(e)
            r = '%s if %s else %s' % (p, self.paren('%s' % g, .5), r)
        return parts[0][0], r

    def simple(self, s, loops):
        """Text of a statement on one line, None if it is compound."""
        rng = self.rng
        eq = rng.choice([' ~= ', ' ~= ', ' = ', '=', '~='])
        if s['k'] == 'def':
            return s['cmd']['x'] + eq + self.rhs(s['cmd'], loops)
        if s['k'] == 'if' and chance(rng, .6):
            r = self.inline(s, loops)
            return None if r is None else r[0] + eq + (self.paren(r[1], .2))
        if s['k'] == 'use':
            c = s['cmd']
            if c['k'] == 'condition':
                return 'condition(%s)' % self.event(c['e'])
            return 'constrain({%s})' % ', '.join('%s: %s' % (x, repr(y[0]) if len(y) == 1 else self.number(unq(y)))
                                                 for x, y in c['asg'])
        if s['k'] == 'array':
            return s['x'] + eq + 'array(%s)' % (self.const(str(s['n'])) if self.named and chance(rng, .4) else s['n'])
        if s['k'] == 'const':
            return s['s']
        return None

    def lines(self, ss, ind, loops):
        rng = self.rng
        out = []
        step = rng.choice([1, 2, 3, 4, 4, 8]) if self.decor else 4
        pad = ' ' * ind
        for s in ss:
            if self.decor and chance(rng, .15):
                out.append(rng.choice(['', '   ', pad + '# a note: X = 1, if', '# Y ~= norm()']))
            one = self.simple(s, loops)
            if one is not None:
                if self.decor and out and chance(rng, .1) and out[-1].startswith(pad) and not out[-1].rstrip().endswith(':') \
                        and out[-1].strip() and '#' not in out[-1] and ':' not in out[-1].split('{')[0] and out[-1][ind] != ' ':
                    out[-1] += '; ' + one
                else:
                    out.append(pad + one + ('  # then' if self.decor and chance(rng, .1) else ''))
                continue
            body = lambda b, lp: self.lines(b, ind + step, lp)
            def block(head, b, lp):
                if self.decor and len(b) == 1 and chance(rng, .2):
                    x = self.simple(b[0], lp)
                    if x is not None:
                        out.append(pad + head + ' ' + x)
                        return
                out.append(pad + head)
                out.extend(body(b, lp))
            if s['k'] == 'if':
                n = len(s['es'])
                for i, (e, b) in enumerate(zip(s['es'], s['bs'])):
                    if e == TRU and i == n - 1 and i > 0:
                        block('else:', b, loops)
                        continue
                    g = self.event(e)
                    block('%s %s:' % ('elif' if i else 'if', '(%s)' % g if chance(rng, .5) else g), b, loops)
            elif s['k'] == 'for':
                n0, n1 = str(s['n0']), str(s['n1'])
                if self.named and chance(rng, .4):
                    n1 = self.const(n1)
                args = n1 if s['n0'] == 0 and chance(rng, .7) else n0 + rng.choice([', ', ',']) + n1
                block('for %s in range(%s):' % (s['i'], args), s['b'], dict(loops, **{s['i']: None}))
            elif s['k'] == 'switch':
                sw = s['sw']
                vals, enum = [], sw.get('enum')
                plain = True
                for x in sw['vals']:
                    if x['k'] == 'nom' and len(x['v']) == 1 and not x['b'] and chance(rng, .85):
                        vals.append(repr(x['v'][0]))
                    elif x['k'] == 'fin' and len(x['v']) == 1 and chance(rng, .85):
                        vals.append(repr(int(unq(x['v'][0]))) if unq(x['v'][0]).denominator == 1 else self.number(unq(x['v'][0])))
                    else:
                        vals.append(self.set(x, rng))
                        plain = False
                if not plain or len(set(vals)) < len(vals):
                    enum = enum or ('"key": "%s"' % sw['i']) in str(s['b']).replace("'", '"')
                ints = [x for x in vals if x.lstrip('-').isdigit()]
                if len(ints) == len(vals) and [int(x) for x in ints] == list(range(int(ints[0]), int(ints[0]) + len(ints))) and chance(rng, .5):
                    text = 'range(%s, %d)' % (ints[0], int(ints[-1]) + 1)
                else:
                    text = rng.choice(['[%s]', '[%s]', '(%s,)']) % ', '.join(vals)
                    if self.named and chance(rng, .4):
                        text = self.const(text, 'cases')
                tgt = sw['i']
                if enum:
                    text, tgt = 'enumerate(%s)' % text, rng.choice(['%s, %s_v', '(%s, %s_v)', '%s,%s_v']) % (tgt, tgt)
                lp = dict(loops, **{sw['i']: None if enum else vals})
                r = rng.random()
                head = 'for %s in switch(%s, %s):' % (tgt, sw['x'], text) if r < .3 else \
                    rng.choice(['switch(%s) cases(%s in %s):', 'switch (%s) cases (%s in %s):', 'switch  (%s)  cases  (%s in %s) :']) % (
                        sw['x'], tgt, text)
                block(head, s['b'], lp)
        return out

    def program(self, ss):
        """The text of the program; adds constants to the statements."""
        body = self.lines(ss, 0, {})
        head = sorted(self.imports)
        self.rng.shuffle(head)
        consts = ['%s%s%s' % (n, self.rng.choice([' = ', '=']), x) for n, x in self.consts]
        return '\n'.join(head + consts + body) + self.rng.choice(['', '\n', '\n\n'])


# ----------------------------------------------------------- broken variants
def spots(ss, path=()):
    """All (path, list, depth) of statement lists."""
    yield path, ss
    for i, s in enumerate(ss):
        if s['k'] == 'if':
            for j, b in enumerate(s['bs']):
                yield from spots(b, path + ((i, j),))
        elif s['k'] in ('for', 'switch'):
            yield from spots(s['b'], path + ((i, None),))


def copy_of(ss):
    out = []
    for s in ss:
        s = dict(s)
        if s['k'] == 'if':
            s['bs'] = [copy_of(b) for b in s['bs']]
            s['es'] = list(s['es'])
        elif s['k'] in ('for', 'switch'):
            s['b'] = copy_of(s['b'])
        out.append(s)
    return out


def defined(ss):
    return {x['cmd']['x'] for _p, l in spots(ss) for x in l if x['k'] == 'def'}


def mutant(w, p, ss):
    """A variant of the program, most often one that breaks a rule."""
    rng = w.rng
    ss = copy_of(ss)
    places = list(spots(ss))
    inner = [(pt, l) for pt, l in places if pt]
    def sample(x):
        if x not in w.fams:
            w.fams[x] = w.fam('NEWFAM')
        return {'k': 'def', 'cmd': {'k': 'sample', 'x': x, 'd': p.new_dist(x)}}
    scalars = sorted(x for x in defined(ss) if '[' not in x)
    kind = rng.choice(['redef', 'redef', 'later', 'later', 'first', 'dropelse', 'droplast', 'lateconst', 'inconst', 'infor',
                       'inarray', 'array2', 'array3', 'array4', 'noarray', 'unknown', 'early', 'shadow', 'onlyarray'])
    ifs = [(l, i) for _pt, l in places for i, s in enumerate(l) if s['k'] == 'if']
    at = lambda l: rng.randint(0, len(l))
    if kind == 'redef':
        x = rng.choice(scalars)
        ss.insert(rng.choice([len(ss), at(ss)]), sample(x))
    elif kind == 'later' and ifs:
        l, i = rng.choice(ifs)
        j = rng.randint(1, len(l[i]['bs']) - 1) if len(l[i]['bs']) > 1 else 0
        l[i]['bs'][j].insert(at(l[i]['bs'][j]), sample('NEW'))
    elif kind == 'first' and ifs:
        l, i = rng.choice(ifs)
        l[i]['bs'][0].insert(at(l[i]['bs'][0]), sample('NEW'))
        for b in l[i]['bs'][1:]:
            if chance(rng, .5):
                b.append(sample('NEW'))
    elif kind == 'dropelse' and ifs:
        l, i = rng.choice(ifs)
        l[i]['bs'], l[i]['es'] = l[i]['bs'][:1], l[i]['es'][:1]
    elif kind == 'droplast' and ifs:
        l, i = rng.choice(ifs)
        if len(l[i]['bs']) > 1:
            l[i]['bs'].pop(); l[i]['es'].pop()
    elif kind == 'lateconst':
        ss.insert(at(ss), {'k': 'const', 's': 'late_1 = 3'})
    elif kind == 'inconst' and inner:
        l = rng.choice(inner)[1]
        l.insert(at(l), {'k': 'const', 's': 'late_1 = 3'})
    elif kind == 'infor':
        ls = [(l, i) for _pt, l in places for i, s in enumerate(l) if s['k'] == 'for']
        if not ls:
            return None
        l, i = rng.choice(ls)
        b = rng.choice([x for _pt, x in spots(l[i]['b'])])
        b.insert(at(b), sample('NEW'))
        l[i]['n1'] = max(l[i]['n0'] + 1, l[i]['n1'])
    elif kind == 'inarray' and inner:
        l = rng.choice(inner)[1]
        l.insert(at(l), {'k': 'array', 'x': 'NA', 'n': 2})
    elif kind == 'array2':
        a = [s for s in ss if s['k'] == 'array']
        if not a:
            return None
        ss.insert(at(ss), dict(a[0]))
    elif kind == 'array3':
        ss.insert(at(ss), {'k': 'array', 'x': rng.choice(scalars), 'n': 2})
    elif kind == 'array4':
        ss.insert(at(ss), {'k': 'array', 'x': 'NA', 'n': rng.choice([1, 2])})     # allowed
    elif kind == 'noarray':
        ss = [s for s in ss if s['k'] != 'array'] if chance(rng, .5) else ss + [sample('NB[0]')]
    elif kind == 'shadow':
        a = [s for s in ss if s['k'] == 'array']
        if not a:
            return None
        ss.insert(at(ss), sample(a[0]['x']))
    elif kind == 'onlyarray':
        x = rng.choice(scalars)
        ss.append(sample('%s[0]' % x))
    elif kind == 'unknown':
        f = w.fam('NEWFAM')
        e = {'k': 'lit', 't': v('UNKNOWN'), 's': nom(['a']) if f.kind == 'n' else interval(rng, F(0), INF, True, True)}
        ss.insert(rng.randint(1, len(ss)), {'k': 'use', 'cmd': {'k': 'condition', 'e': e}})
    elif kind == 'early':
        us = [i for i, s in enumerate(ss) if s['k'] in ('use', 'if') and i > 0]
        if not us:
            return None
        i = rng.choice(us)
        s = ss.pop(i)
        ss.insert(rng.randint(0, i), s)
    else:
        return None
    return ss


# --------------------------------------------------------------- the check
def flat(ss):
    """An else holding nothing but an if is an elif: Python reads both alike."""
    out = []
    for s in ss:
        s = dict(s)
        if s['k'] == 'if':
            es, bs = list(s['es']), [flat(b) for b in s['bs']]
            while len(es) > 1 and es[-1] == TRU and len(bs[-1]) == 1 and bs[-1][0]['k'] == 'if':
                inner = bs[-1][0]
                es, bs = es[:-1] + inner['es'], bs[:-1] + inner['bs']
            s['es'], s['bs'] = es, bs
        elif s['k'] in ('for', 'switch'):
            s['b'] = flat(s['b'])
        out.append(s)
    return out


def compile_text(w, ss, source, modelname=None, via='execute'):
    name, note, spe, ns = w.fresh(), {}, None, None
    try:
        comp = SPPL_Compiler(source, **({'modelname': modelname} if modelname else {}))
        if via == 'execute':
            ns = comp.execute_module()
            spe = getattr(ns, modelname or 'model')
        else:
            space = {}
            exec(comp.render_module(), space)
            spe = space[modelname or 'model']
        res = 'ok'
        if not isinstance(spe, E.SPE):
            spe, res = None, 'err:NotAnExpression'
    except Skip:
        raise
    except Exception as ex:
        spe, res, note = None, err(ex), {'note': (str(ex)[:100] + ' || ' + source)[:2500]}
    note.setdefault('note', source[:2500])
    w.log('text', h=name, p=scope_of(flat(ss)), c=spec_cmd(w, tree_of(flat(ss))), res=res, **note)
    return (None, None) if spe is None else (H(name, spe, {}, []), ns)


def names_right(w, ns, ss):
    for x in sorted(defined(ss)):
        if '[' not in x:
            w.log('flag', r=bool(getattr(ns, x, None) == T.Id(x)), f='text:variable is not bound to its symbol', note=x)
    for s in ss:
        if s['k'] == 'array':
            got = getattr(ns, s['x'], None)
            w.log('flag', r=bool(got == [T.Id('%s[%d]' % (s['x'], i)) for i in range(int(s['n']))]),
                  f='text:array is not bound to its symbols', note=s['x'])


def place_arrays(p, ss):
    """Declarations of the arrays, each somewhere before its first use."""
    rng = p.rng
    for a, n in p.arrays.items():
        first = min([i for i, s in enumerate(ss) if a + '[' in str(s)] or [0])
        ss.insert(rng.choice([0, first, rng.randint(0, first)]), {'k': 'array', 'x': a, 'n': n})
    return ss


def write(w, p, ss):
    ss = copy_of(ss)
    t = Text(w, p.arrays)
    src = t.program(ss)
    return [{'k': 'const', 's': ''} for _ in t.consts] + ss, src


def C10(rng):
    w = World(rng, weights=SMALL_W, heavy=1)
    p = Prog(w, text=True)
    c, ctx = p.program()
    ss = place_arrays(p, surface(c))
    full, src = write(w, p, ss)
    model = rng.choice([None, None, 'm', 'model_2'])
    h, ns = compile_text(w, full, src, model)
    if h is not None:
        settle(w, h, ctx)
        ask(w, h, rng.choice([2, 3]))
        names_right(w, ns, ss)
        if chance(rng, .5):
            h2, _ = compile_text(w, full, src, model, via='render')
            if h2 is not None:
                ask(w, settle(w, h2, ctx), 1)
    if chance(rng, .3):
        full, src = write(w, p, ss)
        h2, _ = compile_text(w, full, src)
        if h2 is not None:
            ask(w, settle(w, h2, ctx), 1)
    for _ in range(rng.choice([1, 2, 3])):
        m = mutant(w, p, ss)
        if m is None:
            continue
        full, src = write(w, p, m)
        h2, _ = compile_text(w, full, src)
        if h2 is not None:
            ask(w, settle(w, h2, ctx), 1, tree=False)
    return w.ev
