"""Swap index fixings and swap curves."""
import numpy as np
import pandas as pd

from harness import curves, sched
from harness.vlib import guarded, num, nums, pmap, ts

METHODS = ['daily_compounded', 'weighted_average', 'simple_average']
SIMPLE_BASES = ['act/360', 'act/365', 'act/366', '30/360', '30e/360']


def fix_frame(inp):
    df = pd.DataFrame({'date': [ts(f['d']) for f in inp['fx']], 'fixing': [float(f['r']) for f in inp['fx']]})
    if inp.get('colswap'):
        df = df[['fixing', 'date']]
    if inp.get('reindex'):
        df.index = range(7, 7 + len(df))
    return df


def idx(days, kind):
    d = pd.DatetimeIndex([ts(x) for x in days])
    return d if kind == 'index' else pd.Series(d, index=range(5, 5 + len(d))) if kind == 'series_idx' else pd.Series(d)


def record(case):
    inp = case['inp']
    from frm.enums import DayCountBasis, RFRFixingCalcMethod, TermRate
    from frm.term_structures.historical_swap_index_fixings import RFRFixings, TermFixings
    from frm.term_structures.swap_curve import RFRSwapCurve, TermSwapCurve
    df = fix_frame(inp)
    before = df.copy(deep=True)

    def go():
        basis = DayCountBasis(inp.get('fixbasis') or inp['basis'])
        cls = RFRFixings if inp['op'].startswith('rfr') or inp['op'] == 'df' else TermFixings
        fx = cls(fixings=df, day_count_basis=basis)
        s, e = idx(inp['s'], inp['kind']), idx(inp['e'], inp['kind'])
        n = inp.get('times', 1)
        for _ in range(n):
            if inp['op'] == 'rfr':
                r = fx.get_coupon_rates(s, e, RFRFixingCalcMethod(inp['method']))
            elif inp['op'] == 'term':
                r = fx.index_historical_fixings(s)
            else:
                z, _ = curves.build(case['req'])
                if inp['op'] == 'rfrcurve':
                    r = RFRSwapCurve(z, fx).get_fixings(s, e, RFRFixingCalcMethod(inp['method']))
                elif inp['op'] == 'df':
                    r = RFRSwapCurve(z, fx).get_discount_factors(s)
                else:
                    r = TermSwapCurve(z, fx).get_fixings(s, e, None, TermRate(inp['method']))
        return dict(ok=True, out=nums(r), untouched=bool(before.equals(df)))
    st, v = guarded(go)
    out = v if st == 'ok' else dict(ok=False, err=v, out=[], untouched=True)
    req = case['req'] and {**case['req'], 'pillars': [{k: w for k, w in p.items() if k != 'text'} for p in case['req']['pillars']]}
    return dict(inp=inp, req=req or 0, out=out, tags=case['tags'], raw=case['req'])


def rand_fixings(rng, lo, hi, gaps=True):
    """Fixings on most business days of lo..hi (both ends fixed)."""
    out, lvl = [], rng.choice([0.0005, .03, .053, -.004])
    hole = range(0)
    if gaps and hi - lo > 60 and rng.random() < .4:      # a stretch without publications
        a = rng.randrange(lo + 1, hi - 25)
        hole = range(a, a + rng.choice([5, 8, 14, 24]))
    for d in range(lo, hi + 1):
        wd = (d + 3) % 7
        if d in (lo, hi) or (wd < 5 and d not in hole and not (gaps and rng.random() < .04)):
            if rng.random() < .3:
                lvl += rng.choice([.0025, -.0025, .0001])
            out.append(dict(d=d, r=num(round(lvl + rng.uniform(-.0002, .0002), 6))))
    if rng.random() < .4:
        rng.shuffle(out)
    return out


def f01_cases(chk, count):
    rng, out = chk.rng, []
    while len(out) < count:
        lo = sched.rand_start(rng)
        long = rng.random() < .06
        hi = lo + (rng.randrange(500, 1600) if long else rng.randrange(5, 420))
        fx = rand_fixings(rng, lo, hi)
        m = rng.choice([1, 2] if long else [1, 1, 2, 5, 8] * 12 + [40])
        s = [rng.randrange(lo, lo + 200 if long else hi) for _ in range(m)]
        e = [min(hi + 1, a + rng.choice([366, 367, 730, 731, rng.randrange(300, 1500)] if long else [1, 2, 3, 7, 30, 91, rng.randrange(1, 200)])) for a in s]
        short = rng.random() < .08
        if short:
            k = rng.randrange(m)
            if rng.random() < .5:
                e[k] = hi + 2 + rng.choice([0, 0, 1, 2, 8, 20])
            else:
                s[k] = lo - 1 - rng.choice([0, 0, 1, 2, 8, 20])
        inp = dict(op='rfr', basis=rng.choice(SIMPLE_BASES), method=rng.choice(METHODS), fx=fx, s=s, e=e, kind=rng.choice(['index', 'series', 'series_idx']),
                   colswap=rng.random() < .3, reindex=rng.random() < .3, times=rng.choice([1, 1, 2]))
        out.append(dict(inp=inp, req=None, tags=[inp['method'], inp['basis']] + (['beyond the fixings'] if short else []) + (['over a year'] if long else [])))
    return out


def f02_cases(chk, count):
    rng, out = chk.rng, []
    while len(out) < count:
        lo = sched.rand_start(rng)
        hi = lo + rng.randrange(5, 300)
        fx = rand_fixings(rng, lo, hi)
        m = rng.choice([1, 2, 5, 9] * 8 + [150])
        s = [rng.choice([rng.randrange(lo, hi + 1), rng.randrange(lo - 10, hi + 10), hi, lo]) for _ in range(m)]
        inp = dict(op='term', basis='act/365', method='', fx=fx, s=s, e=s, kind=rng.choice(['index', 'series', 'series_idx']),
                   colswap=rng.random() < .3, reindex=rng.random() < .3, times=rng.choice([1, 1, 2]))
        out.append(dict(inp=inp, req=None, tags=['term', inp['kind']]))
    return out


def f03_cases(chk, count):
    rng, out = chk.rng, []
    while len(out) < count:
        req, last, span = curves.rand_curve(rng, bases=SIMPLE_BASES, xs=('date', 'days'))
        cd = req['cd']
        if last - cd < 40:
            continue
        op = rng.choice(['rfrcurve', 'rfrcurve', 'termcurve', 'termcurve', 'df'])
        lo = cd - rng.randrange(100, 300)
        fx = rand_fixings(rng, lo, cd - 1 if op != 'termcurve' else rng.choice([cd - 1, cd, cd + 3]))
        method = rng.choice(METHODS) if op == 'rfrcurve' else rng.choice(['simple', 'continuous', 'annual'])
        m = rng.choice([1, 2, 4, 7])
        s, e = [], []
        mix = rng.choice(['past', 'future', 'cross', 'all', 'all', 'all'])
        gap = 5 if req['basis'].startswith('30') else 1
        for _ in range(m):
            k = rng.choice(['past', 'future', 'cross', 'edge_in', 'edge_out']) if mix == 'all' else mix
            L = gap + rng.choice([0, 2, 6, 25, 60, 85])
            if k == 'past':
                a = rng.randrange(lo, cd - L) if cd - L > lo else lo
                b = min(cd, a + L)
            elif k == 'edge_in':
                a, b = cd - L, cd
            elif k == 'edge_out':
                a, b = cd, min(last, cd + L)
            elif k == 'future':
                a = cd + rng.randrange(0, last - cd - gap)
                b = min(last, a + L)
            else:
                a, b = cd - rng.randrange(gap, 80), cd + rng.randrange(gap, min(80, last - cd))
                if op == 'rfrcurve' and method != 'daily_compounded':
                    b = cd if rng.random() < .5 else b
                    a = a if b == cd else cd
            s.append(a)
            e.append(b)
        if any(b - a < gap for a, b in zip(s, e)):
            continue
        if method == 'simple_average':
            if any(a < cd and not any(a <= f['d'] < min(b, cd) for f in fx) for a, b in zip(s, e)):
                continue
            bd = sched.busdaycal(req['cal'])
            if any(a >= cd and np.busday_count(np.datetime64(a, 'D'), np.datetime64(b, 'D'), busdaycal=bd) == 0 for a, b in zip(s, e)):
                continue
        if op == 'df':
            s = [a for a in s if a >= cd] or [cd]
            e = s
        fb = rng.choice([b for b in SIMPLE_BASES if b != req['basis']]) if rng.random() < .05 else req['basis']
        inp = dict(op=op, basis=req['basis'], fixbasis=fb, method=method, fx=fx, s=s, e=e, kind=rng.choice(['index', 'index', 'series']),
                   colswap=False, reindex=rng.random() < .3, times=rng.choice([1, 2]))
        out.append(dict(inp=inp, req=req, tags=[op, method, mix] + (['conventions differ'] if fb != req['basis'] else [])))
    return out


DESIGN = ('SPECIFICATION Spec\nCONSTANTS Start = 18262\n Len0 = %d\n Rts = {"0.05", "-0.01"}\n Holidays = {18265, 18266}\nINVARIANTS Bounded Chained NoLookAhead\n')


def f01(chk):
    chk.design('FixingsMC', DESIGN % chk.n(8, 11))
    chk.validate('FixingsTrace', pmap(record, f01_cases(chk, chk.n(450, 9000))), chunk=3000)
    chk.validate('FixingsTrace', pmap(record, f02_cases(chk, chk.n(300, 6000))), chunk=3000, label='FixingsTrace term')


def f02(chk):
    chk.design('FixingsMC', DESIGN % chk.n(8, 11))
    chk.validate('FixingsTrace', pmap(record, f03_cases(chk, chk.n(450, 9000))), chunk=3000)
