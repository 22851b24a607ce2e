"""Shared machinery: run TLC, record the implementation, collect verdicts, write evidence."""
import collections
import datetime
import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
CP_TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NODATE = -9999999


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- TLC
def _classes(scratch):
    d = os.path.join(VERIF, 'build', 'classes')
    if os.path.exists(os.path.join(d, 'Real64.class')) and \
            os.path.getmtime(os.path.join(d, 'Real64.class')) >= os.path.getmtime(os.path.join(VERIF, 'java', 'Real64.java')):
        return d
    d = os.path.join(scratch, 'classes')
    if not os.path.exists(os.path.join(d, 'Real64.class')):
        os.makedirs(d, exist_ok=True)
        subprocess.run(['javac', '-cp', CP_TLA, '-d', d, os.path.join(VERIF, 'java', 'Real64.java')], check=True)
    return d


def run_tlc(scratch, module, cfg_text, env=None, workers=8, timeout=800, extra=(), heap='6g'):
    """Run TLC on spec/<module>.tla with the given configuration text. Returns (stdout, stats)."""
    work = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    cfg = os.path.join(work, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write(cfg_text)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC,
           '-Djava.io.tmpdir=' + work,
           '-cp', _classes(scratch) + ':' + CP_TLA, 'tlc2.TLC', '-noGenerateSpecTE', '-nowarning', '-deadlock',
           '-metadir', os.path.join(work, 'meta'), '-workers', str(workers), '-config', cfg, *extra,
           os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    out = p.stdout
    shutil.rmtree(work, ignore_errors=True)
    m = re.findall(r'(\d+) states generated(?: \(.*?\))?, (\d+) distinct states found', out)
    m2 = re.findall(r'The number of states generated: (\d+)', out)
    if p.returncode != 0 or (not m and not m2):
        tail = '\n'.join(l for l in out.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting', 'Loading')))[-4000:]
        raise MachineryError(f'TLC failed on {module} (exit {p.returncode}):\n{tail}')
    if m:
        gen, dist = int(m[-1][0]), int(m[-1][1])
    else:
        gen = dist = int(m2[-1])
    return out, dict(generated=gen, distinct=dist, wall=round(time.time() - t0, 2))


def tlc_lines(out, tag):
    """Payloads of the lines PrintT("<tag> " \\o ToJson(x)) printed."""
    res = []
    pre = '"' + tag + ' '
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            body = line[len(pre):-1].replace('\\"', '"').replace('\\\\', '\\')
            res.append(json.loads(body))
    return res


# ---------------------------------------------------------------- abstraction of recorded values
def num(x):
    """A number as a real for the specification (string holding its decimal literal)."""
    try:
        if x is None:
            return 'none'
        f = float(x)
    except Exception:
        return 'nan'
    if math.isnan(f):
        return 'nan'
    if math.isinf(f):
        return 'inf' if f > 0 else '-inf'
    return repr(f)


def nums(xs):
    try:
        return [num(x) for x in list(xs)]
    except Exception:
        return ['nan']


_EPOCH = datetime.date(1970, 1, 1)


def day(x):
    """A date as a day number; NODATE for anything which is not a midnight date."""
    import numpy as np
    import pandas as pd
    try:
        if x is None:
            return NODATE
        t = pd.Timestamp(x)
        if t is pd.NaT:
            return NODATE
        v = np.datetime64(t, 'ns').astype('int64')
        if v % 86400000000000 != 0:
            return NODATE - 1
        return int(v // 86400000000000)
    except Exception:
        return NODATE - 2


def ts(n):
    import pandas as pd
    return pd.Timestamp('1970-01-01') + pd.Timedelta(days=int(n))


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


_TIMEOUTS = mp.Value('i', 0)       # calls of the code which ran out of time, over all workers: what is left gets less


def guarded(fn, seconds=20):
    """Call fn(); returns ('ok', value) or ('err', exception name)."""
    late = _TIMEOUTS.value
    seconds = seconds if late < 4 else min(seconds, 3 if late < 16 else 1 if late < 100 else .3)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return 'ok', fn()
    except CaseTimeout:
        with _TIMEOUTS.get_lock():
            _TIMEOUTS.value += 1
        return 'err', 'Timeout'
    except MachineryError:
        raise
    except Exception as ex:                                    # an outcome of the code, not of the check
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        return 'err', type(ex).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_FN = None


def _call(args):
    import warnings
    warnings.simplefilter('ignore')
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return _FN(args)


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))   # a call which allocates without end fails instead of ending the sandbox


def pmap(fn, items, procs=8, chunk=None):
    """fn over items in forked workers, keeping order."""
    global _FN
    _FN = fn
    items = list(items)
    if len(items) < 16 or procs == 1:
        return [_call(i) for i in items]
    with mp.get_context('fork').Pool(procs, _limit) as pool:
        return pool.map(_call, items, chunksize=chunk or max(1, len(items) // (procs * 8)))


# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, pid, tier, level='model_checking'):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf_' + pid + '_')
        self.states = self.transitions = self.traces = 0
        self.samples, self.runs = [], []
        self.tags = collections.Counter()
        self.fails = []           # (case, clause)
        self.assumptions = []
        self.notes = {}
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            self.known = [k for k in json.load(f)['findings'] if k['property'] == pid]

    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    def design(self, module, cfg, label=None, **kw):
        """Exhaustive TLC run of the specification itself (its invariants must hold)."""
        out, st = run_tlc(self.scratch, module, cfg, **kw)
        self.states += st['distinct']
        self.transitions += st['generated']
        self.runs.append(dict(kind='design', module=module, label=label or module, **st))
        return out

    def validate(self, module, cases, cfg='SPECIFICATION TraceSpec\n', label=None, chunk=None, env=None, **kw):
        """Check recorded cases against the specification: every FAIL line is a (case, clause)."""
        label = label or module
        for c in cases:
            for t in c.get('tags', ()):
                self.tags[t] += 1
        chunk = chunk or 20000
        for i in range(0, len(cases), chunk):
            part = cases[i:i + chunk]
            path = os.path.join(self.scratch, 'trace.json')
            with open(path, 'w') as f:
                json.dump([{k: v for k, v in c.items() if k not in ('tags', 'raw')} for c in part], f)
            e = dict(env or {})
            e['TRACE'] = path
            out, st = run_tlc(self.scratch, module, cfg, env=e, **kw)
            done = tlc_lines(out, 'DONE')
            seen = {d[0] for d in done}
            if len(seen) != len(part):
                raise MachineryError(f'{module}: {len(seen)} of {len(part)} cases reached a verdict\n' + out[-3000:])
            self.states += st['distinct']
            self.transitions += st['generated']
            self.traces += len(part)
            self.runs.append(dict(kind='conformance', module=module, label=label, cases=len(part), **st))
            for c, clause in tlc_lines(out, 'FAIL'):
                self.fails.append((part[c - 1], clause, label))
        if cases and len(self.samples) < 12:
            self.samples.append({'label': label, **self._short(self.rng.choice(cases))})

    @staticmethod
    def _short(case):
        s = json.dumps({k: v for k, v in case.items()}, default=str)
        return {'case': s[:1500]}

    def generate(self, module, cfg, tag='CASE', label=None, **kw):
        """Behaviours generated from the specification by TLC (JSON payloads)."""
        out, st = run_tlc(self.scratch, module, cfg, **kw)
        self.states += st['distinct']
        self.transitions += st['generated']
        cases = tlc_lines(out, tag)
        self.runs.append(dict(kind='generate', module=module, label=label or module, cases=len(cases), **st))
        return cases

    def compare(self, case, clause_ok, clause, label):
        """Replay verdict decided outside TLC (specification behaviour stepped through the code)."""
        if not clause_ok:
            self.fails.append((case, clause, label))

    def finish(self):
        outdir = os.path.join(VERIF, 'out', 'replay')
        os.makedirs(outdir, exist_ok=True)
        new, known_hits = [], collections.Counter()
        for case, clause, label in self.fails:
            hit = None
            for k in self.known:
                if k.get('label', label) == label and k.get('clause', clause) == clause and k.get('class') in case.get('tags', []):
                    hit = k
                    break
            if hit:
                known_hits[hit['id']] += 1
            else:
                new.append((case, clause, label))
        for k in self.known:
            if known_hits[k['id']]:
                print(f"KNOWN-FINDING: property={self.pid} {k['id']}: {k['what']} ({known_hits[k['id']]} cases)")
        by = collections.OrderedDict()
        for case, clause, label in new:
            by.setdefault((label, clause), []).append(case)
        k = 0
        for (label, clause), cs in list(by.items())[:12]:
            k += 1
            path = os.path.join(outdir, f'{self.pid}-{self.tier}-{k}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, label=label, clause=clause, count=len(cs), cases=cs[:5]), f, indent=1, default=str)
            print(f'VIOLATION property={self.pid} replay={path}')
            print(f'  clause "{clause}" of {label} fails in {len(cs)} case(s); first: {json.dumps(cs[0], default=str)[:600]}')
        if not self.traces:
            raise MachineryError('no trace was validated against the implementation')
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples,
                                runs=self.runs, case_classes=dict(self.tags), **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f'{self.pid} {self.tier}: {self.traces} implementation cases, {self.states} distinct states, '
              f'{len(new)} violation(s), {round(time.time() - self.t0, 1)} s')
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if new else 0
