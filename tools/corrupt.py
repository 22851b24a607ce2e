"""Corruption survey (development tool; no check uses it): how much of what is recorded is decided.

  corrupt.py ID [SEED]     (environment as set by ./check)
Runs the quick check of ID on /repo, but alters one recorded leaf (a number by 1e-3 of itself, an integer
or date by one, a flag, a dropped row) of every recorded case before TLC reads it, and prints per kind of leaf
in how many of the altered cases the specification reports the case. A kind of leaf which is never
reported is either a request the outcome does not depend on or an observation nothing is said about.
"""
import collections
import copy
import importlib
import json
import random
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor

from harness import vlib
from harness.registry import REGISTRY

pid, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
rng = random.Random(seed)
hit, tot = collections.Counter(), collections.Counter()


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in ('tags', 'raw'):
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x and isinstance(x[0], (dict, list)):
            yield path + ('drop',)
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif not isinstance(x, str) or number(x):
        yield path


def number(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def alter(x, path):
    for p in path[:-1]:
        x = x[p]
    p = path[-1]
    if p == 'drop':
        x.pop()
        return
    v = x[p]
    if isinstance(v, bool):
        x[p] = not v
    elif isinstance(v, int):
        x[p] = v + 1
    elif isinstance(v, float):
        x[p] = v * 1.001 + (1e-6 if v == 0 else 0)
    elif isinstance(v, str):
        f = float(v)
        x[p] = repr(f * 1.001 + (1e-6 if f == 0 else 0))


def pattern(path):
    return '.'.join('*' if isinstance(p, int) else str(p) for p in path)


real = vlib.Check.validate


def decide(part, module, a, kw):
    """Verdicts of altered cases; a record which cannot be evaluated at all is noticed as well."""
    chk = vlib.Check(pid, 'quick')
    try:
        real(chk, module, [c for c, _ in part], *a, **kw)
        found = {id(c) for c, _, _ in chk.fails}
        return [(k, id(c) in found) for c, k in part]
    except vlib.MachineryError:
        if len(part) == 1:
            return [(part[0][1], True)]
    finally:
        shutil.rmtree(chk.scratch, ignore_errors=True)
    h = len(part) // 2
    return decide(part[:h], module, a, kw) + decide(part[h:], module, a, kw)


def validate(self, module, cases, *a, **kw):
    part = []
    for c in rng.sample(cases, min(len(cases), 320)):
        c = copy.deepcopy({k: v for k, v in c.items() if k != 'raw'})
        by = collections.defaultdict(list)
        for l in leaves(c):
            if 'inp' not in l and 'ev' not in l:
                by[pattern(l)].append(l)
        if by:
            k = rng.choice(sorted(by))
            alter(c, rng.choice(by[k]))
            part.append((c, (module, k)))
    kw['workers'] = 1
    n = max(1, min(40, len(part) // 8))
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(lambda p: decide(p, module, a, kw), [part[i:i + n] for i in range(0, len(part), n)]):
            for k, ok in res:
                tot[k] += 1
                hit[k] += ok


vlib.Check.validate = validate
chk = vlib.Check(pid, 'quick')
mod, fn = REGISTRY[pid]
getattr(importlib.import_module('harness.' + mod), fn)(chk)
T, H = sum(tot.values()), sum(hit.values())
print(f'{pid}: {H} of {T} altered cases reported')
for k in sorted(tot):
    print(f'   {"      " if hit[k] else "NEVER "} {hit[k]:5d}/{tot[k]:<5d} {k[0]} {k[1]}')
