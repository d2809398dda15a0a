"""Caches in front of pure, slow sympy functions (same arguments, same answer).

Imported before the library, so that whatever the library calls goes through
the caches; the library itself is untouched."""
import functools
import importlib
import os

import sympy
util = importlib.import_module("sympy.calculus.util")



def cached(f):
    memo = {}

    @functools.wraps(f)
    def g(*args, **kw):
        try:
            key = (args, tuple(map(type, args)), tuple(sorted(kw.items())))
            hash(key)
        except TypeError:
            return f(*args, **kw)
        if key not in memo:
            memo[key] = f(*args, **kw)
        return memo[key]
    return g


def install():
    if os.environ.get('VERIF_NOCACHE'):
        return
    sympy.solveset = cached(sympy.solveset)
    util.function_range = cached(util.function_range)
    util.limit = sympy.limit = cached(util.limit)


install()
