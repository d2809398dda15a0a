"""C20: notebook sessions.

Cells are run in a real IPython shell with the extension's commands.  Behaviours
of spec/SessionMC.tla, or random histories, decide which commands run; texts,
model names and notebook variables are filled in here."""
import contextlib
import io
import json
import os
import tempfile

from prof_text import *    # noqa
from prof_text import place_arrays, surface, write, mutant, scope_of, flat, tree_of, spec_cmd, names_right
from prof_prog import Prog, SMALL_W, settle, ask
from prof_spe import expression, read_graph, snapshot
from gen import World, H, chance
from core import Skip, E, T, err

SHELL = []


def shell():
    """One interactive shell for the process, with its files below the working directory."""
    if not SHELL:
        here = os.getcwd()
        os.environ['IPYTHONDIR'] = os.path.join(here, 'ipython')
        tempfile.tempdir = here
        from traitlets.config import Config
        from IPython.core.interactiveshell import InteractiveShell
        c = Config()
        c.HistoryManager.enabled = False
        sh = InteractiveShell(config=c)
        sh.showtraceback = lambda *a, **k: None
        sh.showsyntaxerror = lambda *a, **k: None
        SHELL.append(sh)
    return SHELL[0]


class Drawn:
    """In place of graphviz, which is not installed: keeps the graphs."""
    def __enter__(self):
        import graphviz
        import networkx as nx
        self.graphs = []
        self.old = nx.nx_agraph.write_dot, graphviz.Source

        def write_dot(G, path):
            self.graphs.append(G)
            with open(str(path), 'w') as f:
                f.write('digraph {}')

        class Source:
            def __init__(self, source='', *a, **k):
                self.source, self.format = source, k.get('format')

            @classmethod
            def from_file(cls, filename, *a, **k):
                return cls(open(filename).read(), **k)

            def render(self, filename=None, *a, **k):
                for p in (str(filename), '%s.%s' % (filename, self.format)):
                    with open(p, 'w') as f:
                        f.write(self.source)
                return filename
        nx.nx_agraph.write_dot, graphviz.Source = write_dot, Source
        return self

    def __exit__(self, *a):
        import graphviz
        import networkx as nx
        nx.nx_agraph.write_dot, graphviz.Source = self.old


class Book:
    """A notebook with its own table of models."""
    def __init__(self, w):
        from sppl.magics.magics import SPPL_Magics
        self.w, self.rng = w, w.rng
        self.sh = shell()
        self.sh.user_ns.pop('NB', None)
        for k in [k for k in self.sh.user_ns if k[0] == 'h' and k[1:].isdigit() or k in NAMES + ['got', 'Model']]:
            del self.sh.user_ns[k]
        self.sh.register_magics(SPPL_Magics(self.sh))
        self.texts = {}        # name -> (statements, ctx) of the latest cell
        self.held = []

    def run(self, code):
        """'ok' and what was printed, or the error."""
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            r = self.sh.run_cell(code, store_history=False)
        ex = r.error_before_exec or r.error_in_exec
        if ex is not None and not isinstance(ex, Exception):
            raise ex
        return ('ok' if ex is None else err(ex)), out.getvalue(), ('' if ex is None else str(ex)[:150])

    # ---- cells ----------------------------------------------------------
    def text(self, kind):
        """(statements, context, source, broken)"""
        w, rng = self.w, self.rng
        p = Prog(w, text=True)
        p.left = rng.choice([1, 2, 2, 3])
        c, ctx = p.program()
        ss = place_arrays(p, surface(c))
        broken = False
        if kind == 'bad':
            m = None
            for _ in range(6):
                m = mutant(w, p, ss)
                if m is not None:
                    break
            ss = m or ss
        full, src = write(w, p, ss)
        if kind == 'junk' or (kind == 'bad' and chance(rng, .3)):
            broken = True
            src = rng.choice([src + '\nX9 ~= uniform(\n', 'if:\n' + src, 'import no_such_module_9\n' + src,
                              src + '\ncondition(NOSUCH_9 > 0)\n', src + '\nZ9 ~= no_such_dist(1)\n'])
        ctx.at = dict(w.fams)       # a later text may cut the same array differently
        return full, ctx, src, broken

    def cell(self, m, kind, again=None):
        w, rng = self.w, self.rng
        t = again or self.text(kind)
        full, ctx, src, broken = t
        w.fams.update(ctx.at)
        res, _out, why = self.run('%%%%sppl %s\n%s' % (m, src))
        w.log('cell', h='%' + m if m else '', m=m, p=scope_of(flat(full)), c=spec_cmd(w, tree_of(flat(full))), broken=broken,
              res=res, note=(why + ' || ' + src)[:2000])
        if m:
            self.texts[m] = t

    # ---- requests -------------------------------------------------------
    def look(self, f, m, ask_it=True):
        w, rng = self.w, self.rng
        name, spe, ns = w.fresh(), None, None
        if f in ('spe', 'namespace', 'python') and chance(rng, .2):
            name = m                    # a variable with the name of the model
            self.held = [(h, s) for h, s in self.held if h.name != m]
        if f == 'spe':
            res, _o, why = self.run('%s = %%sppl_get_spe %s' % (name, m))
            spe = self.sh.user_ns.get(name)
        elif f == 'namespace':
            res, _o, why = self.run('got = %%sppl_get_namespace %s' % m)
            if res == 'ok':
                ns = self.sh.user_ns.get('got')
                spe = getattr(ns, m, None)
                self.sh.user_ns[name] = spe
        elif f == 'python':
            res, out, why = self.run('%%sppl_to_python %s' % m)
            if res == 'ok':
                space = {}
                try:
                    exec(out, space)
                    spe = space[m]
                    self.sh.user_ns[name] = spe
                except Exception as ex:
                    res, why = err(ex), str(ex)[:150]
        elif f == 'graph':
            with Drawn() as d:
                path = rng.choice(['', '', ' drawing_%s' % name])
                res, _o, why = self.run('got = %%sppl_to_graph %s%s' % (m, path))
            w.log('look', f=f, m=m, h=name, res=res, **({'note': why} if why else {}))
            if res == 'ok':
                w.log('flag', r=len(d.graphs) == 1, f='graph:not one drawing')
                # the expression that the name stands for now
                cur = self.sh.user_ns.get(m)
                if m in self.texts:
                    r2, _o, _w = self.run('got = %%sppl_get_spe %s' % m)
                    if r2 == 'ok':
                        cur = self.sh.user_ns['got']
                if isinstance(cur, E.SPE) and d.graphs:
                    ex = expression(cur)
                    if len(repr(ex)) < 60000:
                        w.log('draw', h=name, f='graph', e=ex, r=read_graph(d.graphs[0]), res='ok')
            return None
        if res == 'ok' and not isinstance(spe, E.SPE):
            spe, res = None, 'err:NotAnExpression'
        w.log('look', f=f, m=m, h=name, res=res, **({'note': why} if why else {}))
        if res != 'ok':
            return None
        if name != m:
            self.held = [(h, s) for h, s in self.held if h.name != name]
        full, ctx, _src, _b = self.texts.get(m, ([], None, '', False))
        h = H(name, spe, {}, [])
        if ctx is not None:
            try:
                settle(w, h, ctx)
            except Exception:
                return None
            if h.vars():
                if ns is not None:
                    names_right(w, ns, full)
                if ask_it:
                    ask(w, h, 1)
                self.held.append((h, snapshot(spe)))
        return h

    def recheck(self):
        """Distributions already obtained are what they were."""
        if self.held:
            h, s = self.rng.choice(self.held)
            self.w.log('flag', r=snapshot(h.spe) == s, f='session:a distribution already obtained was changed')
            ask(self.w, h, 1, tree=False)


NAMES = ['m', 'model', 'M2', 'a_1', 'q9']


def behaviour(rng):
    path = os.environ.get('VERIF_BEHAVIOURS')
    if not path or not os.path.exists(path):
        return None
    ls = [l for l in open(path) if l.strip()]
    return json.loads(rng.choice(ls)) if ls else None


def C20(rng):
    w = World(rng, weights=SMALL_W, heavy=0)
    b = Book(w)
    names = rng.sample(NAMES, 3)
    if chance(rng, .1):
        names[2] = 'h%d' % rng.choice([1, 2, 3, 4])      # also a notebook variable's name
    acts = behaviour(rng) if chance(rng, .6) else None
    if acts:
        names = dict(zip(('m1', 'm2', 'm3'), names))
        texts = {}
        for a in acts:
            m = names.get(a['m'], '')
            if a['a'] == 'cell':
                # the same abstract text is the same concrete text
                if a['t'] not in texts:
                    texts[a['t']] = b.text({'g': 'good', 'b': 'bad', 'j': 'junk'}[a['t'][0]])
                b.cell(m, None, texts[a['t']])
            elif a['a'] == 'recheck':
                b.recheck()
            else:
                b.look(a['a'], m)
    else:
        for _ in range(rng.randint(5, 9)):
            m = rng.choice(names)
            r = rng.random()
            if r < .45:
                old = [x for x in b.texts if x != m]
                if old and chance(rng, .15):
                    b.cell(m, None, b.texts[rng.choice(old)])
                else:
                    b.cell('' if chance(rng, .06) else m, rng.choice(['good', 'good', 'good', 'bad', 'junk']))
                if chance(rng, .5):
                    b.look(rng.choice(['spe', 'python', 'namespace', 'graph']), m)
                if chance(rng, .3):
                    b.look('spe', rng.choice(names))
            elif r < .9:
                f = rng.choice(['spe', 'spe', 'python', 'namespace', 'graph'])
                if f == 'graph' and b.held and chance(rng, .4):
                    m = rng.choice(b.held)[0].name
                b.look(f, m)
            else:
                b.recheck()
    for m in (names.values() if isinstance(names, dict) else names):
        b.look(rng.choice(['spe', 'python', 'namespace', 'graph']), m)
    b.recheck()
    return w.ev
