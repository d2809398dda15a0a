"""Worker: record traces of the library under test.

main.py PROP SEED START COUNT STEP OUT TIER [k=v ...]
Writes one JSON trace per line to OUT and progress marks to OUT.prog."""
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class TooLong(BaseException):
    """The trace has used up its time; not an Exception, so that nothing catches it."""


def too_long(*_):
    raise TooLong


def main():
    prop, seed, start, count, step, out, tier = sys.argv[1:8]
    start, count, step = int(start), int(count), int(step)
    budget = float(os.environ.get('VERIF_BUDGET', '1e9'))
    import speed  # noqa: before the library
    import numpy
    numpy.seterr(all='ignore')
    import profiles
    from core import Skip
    fn = profiles.PROFILES[prop]
    fixed = profiles.FIXED.get(prop, [])
    from gen import World
    cpu = float(os.environ.get('VERIF_TRACE_CPU', 12 if tier == 'quick' else 60))
    signal.signal(signal.SIGVTALRM, too_long)
    t0 = time.time()
    made = 0
    with open(out, 'w') as f, open(out + '.prog', 'w') as prog:
        for i in range(start, start + count * step, step):
            if time.time() - t0 > budget:
                break
            prog.write('%d\n' % i)
            prog.flush()
            rng = random.Random('%s:%s:%d' % (seed, prop, i))
            numpy.random.seed(rng.randrange(2 ** 31))
            t1 = time.time()
            World.last = None
            try:
                try:
                    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
                    ev = fixed[i](rng) if i < len(fixed) else fn(rng)
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            except TooLong:
                prog.write('LONG %d\n' % i)
                if World.last is None or not World.last.ev:
                    continue
                ev = World.last.ev
            except Skip:
                continue
            except Exception:
                # a failure of the driver itself, outside every recorded call
                traceback.print_exc()
                f.flush()
                prog.write('CRASH %d\n' % i)
                sys.exit(3)
            f.write(json.dumps({'id': '%s:%s:%d' % (prop, seed, i), 'ev': ev}) + '\n')
            made += 1
            if os.environ.get('VERIF_TIMES'):
                sys.stderr.write('%d %.2f %d\n' % (i, time.time() - t1, len(ev)))
        prog.write('END %d\n' % made)


main()
