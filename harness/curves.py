"""Zero curves, compounding conventions."""
import datetime as dt
import math

import numpy as np
import pandas as pd

from harness import sched
from harness.tenors import rand_tenor
from harness.vlib import NODATE, day, guarded, num, nums, pmap, ts

INTERP = ['linear_on_ln_discount', 'cubic_spline_on_ln_discount', 'cubic_spline_on_cczr']
FREQS = ['simple', 'continuous', 'daily', 'weekly', 'monthly', 'quarterly', 'semiannual', 'annual']
BASES = ['act/360', 'act/365', 'act/366', 'act/act', '30/360', '30e/360', '30e/360_isda']
NOCAL = dict(mask=[1, 1, 1, 1, 1, 0, 0], hols=[])


def vec(xs, kind, single):
    """A vector (or single value) of timestamps/numbers in one of its accepted containers."""
    if single:
        x = xs[0]
        if isinstance(x, pd.Timestamp):
            return {'ts': x, 'np': np.datetime64(x, 'D'), 'dt': x.to_pydatetime(), 'date': x.date()}[kind]
        return x
    if kind == 'series':
        return pd.Series(xs)
    if kind == 'series_idx':
        return pd.Series(xs, index=range(10, 10 + len(xs)))
    if kind == 'index':
        return pd.DatetimeIndex(xs) if isinstance(xs[0], pd.Timestamp) else np.array(xs)
    return list(xs)


def build(req):
    from frm.term_structures.zero_curve import ZeroCurve
    from frm.enums import DayCountBasis, CompoundingFreq, ZeroCurveInterpMethod, ZeroCurveExtrapMethod
    P = req['pillars']
    x = req['x']
    col = {'date': lambda p: ts(p['d']), 'days': lambda p: p['n'], 'tenor': lambda p: p['text'], 'years': lambda p: float(p['yrs'])}[x]
    df = pd.DataFrame({x: [col(p) for p in P], {'df': 'discount_factor', 'zero': 'zero_rate'}[req['y']]: [float(p['q']) for p in P]})
    if req.get('colswap'):
        df = df[df.columns[::-1]]
    keep = df.copy(deep=True)
    kw = {}
    if req['y'] == 'zero':
        kw['compounding_freq'] = CompoundingFreq(req['freq'])
    z = ZeroCurve(curve_date=ts(req['cd']), pillar_df=df, day_count_basis=DayCountBasis(req['basis']), cal=sched.busdaycal(req['cal']),
                  interp_method=ZeroCurveInterpMethod(req['interp']), extrap_method=ZeroCurveExtrapMethod(req['extrap']), **kw)
    return z, keep.equals(df) and list(keep.columns) == list(df.columns)


def query(z, ev):
    from frm.enums import CompoundingFreq, TermRate, RFRFixingCalcMethod
    op = ev['op']
    if op in ('df', 'zero'):
        if ev['by'] == 'days':
            kw = dict(days=vec([d - day(z.curve_date) for d in ev['dates']], ev['kind'], ev['single']))
        else:
            kw = dict(dates=vec([ts(d) for d in ev['dates']], ev['kind'], ev['single']))
    if op in ('dfy', 'zeroy'):
        kw = dict(years=vec([float(y) for y in ev['years']], ev['kind'], ev['single']))
    if op in ('df', 'dfy'):
        r = z.get_discount_factors(**kw)
    elif op in ('zero', 'zeroy'):
        r = z.get_zero_rates(CompoundingFreq(ev['freq']), **kw)
    elif op == 'inst':
        r = z.get_instantaneous_forward_rate(vec([float(y) for y in ev['years']], ev['kind'], ev['single']))
    elif op in ('fwd', 'avg'):
        kind = TermRate(ev['kind']) if ev['kind'] in ('simple', 'continuous', 'annual') else RFRFixingCalcMethod(ev['kind'])
        r = z.get_forward_rates(vec([ts(d) for d in ev['s']], ev['cont'], ev['single']), vec([ts(d) for d in ev['e']], ev['cont'], ev['single']), kind)
    return dict(ok=True, scalar=np.ndim(r) == 0, out=nums(np.atleast_1d(r)))


def record(case):
    st, v = guarded(lambda: build(case['req']))
    built = dict(ok=st == 'ok', untouched=bool(v[1]) if st == 'ok' else True)
    evs = []
    if st == 'ok':
        z = v[0]
        for ev in case['events']:
            if ev['op'] == 'shift':
                s2, z2 = guarded(lambda: z.flat_shift(float(ev['bp'])))
                evs.append({**ev, 'ok': s2 == 'ok'})
                if s2 != 'ok':
                    break
                z = z2
                continue
            s2, o = guarded(lambda: query(z, ev))
            evs.append({**ev, **(o if s2 == 'ok' else dict(ok=False, err=o, scalar=False, out=[]))})
    req = {**case['req'], 'pillars': [{k: w for k, w in p.items() if k != 'text'} for p in case['req']['pillars']]}
    return dict(req=req, built=built, events=evs, tags=case['tags'], raw=case)


def rand_curve(rng, bases=BASES, xs=('date', 'days', 'tenor', 'years'), interps=INTERP):
    from frm.utils.tenor import clean_tenor, tenor_to_date_offset
    cd = sched.rand_start(rng)
    basis = rng.choice(bases)
    interp = rng.choice(interps)
    x = rng.choice(list(xs))
    cal = sched.rand_cal(rng, cd, cd + 2000) if rng.random() < .5 else NOCAL
    cal = dict(mask=cal['mask'], hols=sorted(set(cal['hols'])))
    bd = sched.busdaycal(cal)
    nmin = {'linear_on_ln_discount': 1, 'cubic_spline_on_ln_discount': 3, 'cubic_spline_on_cczr': 4}[interp]
    n = rng.randrange(nmin, nmin + 6)
    y = rng.choice(['df', 'zero'])
    freq = rng.choice(FREQS)
    pillars, n0 = [], 0
    if x == 'tenor':
        seen = set()
        while len(pillars) < n:
            t, text = rand_tenor(rng)
            try:
                d = day(ts(cd) + tenor_to_date_offset(clean_tenor(text)))
            except Exception:
                continue
            d2 = int(np.busday_offset(np.datetime64(d, 'D'), 0, roll='following', busdaycal=bd).astype(int))
            if d2 - cd < (4 if basis.startswith('30') else 1) or d2 - cd > 3000 or any(abs(d2 - s) < 8 for s in seen):
                continue
            seen.add(d2)
            pillars.append(dict(t=t, text=text, off=d2 - cd))
    else:
        offs = set()
        while len(offs) < n:
            o = rng.choice([rng.randrange(4, 60), rng.randrange(20, 800), rng.randrange(300, 3000)])
            if rng.random() < .06 and not basis.startswith('30'):
                o = rng.choice([1, 2, 3])
            if rng.random() < .3:
                o = day(ts(cd) + pd.DateOffset(months=rng.randrange(1, 60))) - cd
            if all(abs(o - p) >= 8 for p in offs):
                offs.add(o)
        for o in offs:
            pillars.append(dict(off=o))
        if rng.random() < .12 and not (interp == 'cubic_spline_on_cczr' and y == 'df') and all(p['off'] >= 8 for p in pillars):
            pillars.append(dict(off=0))
    pillars.sort(key=lambda p: p['off'])
    level, slope = rng.choice([.001, .03, .06, -.005]), rng.choice([0, .002, -.001])
    out = []
    for p in pillars:
        r = level + slope * p['off'] / 365 + rng.uniform(-.004, .004)
        q = {}
        if x == 'date':
            q['d'] = cd + p['off']
        elif x == 'days':
            q['n'] = p['off']
        elif x == 'tenor':
            q['t'], q['text'] = p['t'], p['text']
        else:
            q['yrs'] = num(round(p['off'] / 365.25, 6) + .0005 if p['off'] else 0.0)
        q['q'] = num(r if y == 'zero' else round(math.exp(-r * p['off'] / 365.25), 12))
        out.append(q)
    if x != 'years' and basis != '30e/360_isda' or x == 'years':
        if rng.random() < .35:
            rng.shuffle(out)
    span = max(p['off'] for p in pillars)
    last = cd + span if x != 'years' else cd + int(359 * span / 365.25) - 3
    req = dict(cd=cd, basis=basis, cal=cal, interp=interp, extrap=rng.choice(['none', 'flat']), x=x, y=y, freq=freq, pillars=out,
               colswap=rng.random() < .3)
    return req, last, span


def rand_events(rng, req, last, span, ops, n):
    cd, evs = req['cd'], []
    isy = req['x'] == 'years'

    def one(oob):
        k = rng.random()
        if k < .3 and not isy and req['x'] in ('date', 'days'):
            p = rng.choice(req['pillars'])
            return p['d'] if req['x'] == 'date' else cd + p['n']
        if oob and k < .5:
            return rng.choice([cd - rng.randrange(1, 400), cd + span + rng.randrange(1, 900) + (30 if isy else 0)])
        if k < .55 and oob:
            return cd
        return cd + rng.randrange(1, max(2, last - cd + 1)) if last > cd else cd
    for _ in range(n):
        op = rng.choice(ops)
        m = rng.choice([1, 1, 2, 5, 9] * 12 + [60, 150])
        single = m == 1 and rng.random() < .7
        kind = rng.choice(['ts', 'np', 'dt', 'date']) if single else rng.choice(['series', 'index', 'list', 'series_idx'])
        ev = dict(op=op, kind=kind, single=single)
        if op in ('df', 'zero'):
            ds = [one(op == 'df') for _ in range(m)]
            if op == 'zero':
                ds = [d for d in ds if d > cd + 3]
                if req['extrap'] == 'flat' or rng.random() < .5:
                    ds = ds + [cd + span + 400] if not single else ds
                if not ds:
                    continue
            if single and len(ds) != 1:
                continue
            ev.update(dates=ds, by=rng.choice(['dates', 'dates', 'days']))
            if op == 'zero':
                ev['freq'] = rng.choice(FREQS)
        elif op in ('dfy', 'zeroy', 'inst'):
            if op == 'inst' and req['interp'] == 'linear_on_ln_discount':
                continue
            top = (last - cd) / 366
            ys = [num(round(rng.uniform(.001, max(.002, top)), 5)) for _ in range(m)]
            if kind == 'list':
                ev['kind'] = 'index'
            ev.update(years=ys)
            if op == 'zeroy':
                ev['freq'] = rng.choice(FREQS)
        elif op in ('fwd', 'avg'):
            if last - cd < 4:
                continue
            s = [cd + rng.randrange(0, last - cd - 1) for _ in range(m)]
            mx = 40 if op == 'avg' else 400
            e = [min(last, a + rng.choice([1, 2, 7, 30, 31, rng.randrange(1, mx)])) for a in s]
            if op == 'avg' and req['basis'] == '30e/360_isda':
                e = [min(b, last - 2) for b in e]
                if any(b <= a for a, b in zip(s, e)):
                    continue
            if op == 'fwd' and req['basis'].startswith('30'):
                e = [max(b, min(last, a + 4)) for a, b in zip(s, e)]
                if any(b - a < 4 for a, b in zip(s, e)):
                    continue
            k2 = rng.choice(['simple', 'continuous', 'annual', 'daily_compounded']) if op == 'fwd' else rng.choice(['weighted_average', 'simple_average'])
            if k2 == 'simple_average':
                bd = sched.busdaycal(req['cal'])
                if any(np.busday_count(np.datetime64(a, 'D'), np.datetime64(b, 'D'), busdaycal=bd) == 0 for a, b in zip(s, e)):
                    continue
            ev.update(s=s, e=e, kind=k2, cont=kind if kind != 'list' else 'index')
        elif op == 'shift':
            bp = rng.choice([1, 10, -25, 100, 0, 2.5])
            ev.update(bp=num(bp), b=num(bp / 10000))
        evs.append(ev)
    return evs


def curve_cases(chk, count, ops, nops, bases=BASES, xs=('date', 'days', 'tenor', 'years'), interps=INTERP):
    rng, out = chk.rng, []
    while len(out) < count:
        req, last, span = rand_curve(rng, bases, xs, interps)
        n = rng.randrange(1, nops + 1)
        evs = rand_events(rng, req, last, span, ops, n)
        if not evs:
            continue
        out.append(dict(req=req, events=evs, tags=[req['interp'], req['x'], req['y'], req['basis'], 'extrap ' + req['extrap']] + sorted({'op ' + e['op'] for e in evs})))
    return out


def run(chk, count, ops, nops, **kw):
    chk.validate('CurveTrace', pmap(record, curve_cases(chk, count, ops, nops, **kw)), chunk=4000)


def design(chk, invs, shifts=0):
    chk.design('CurveMC', 'SPECIFICATION Spec\nCONSTANTS Rates1 = {"0.03", "-0.005"%s}\n Offs = {30, 91, 183, 365, 731}\n'
               ' Interps = {"linear_on_ln_discount", "cubic_spline_on_ln_discount", "cubic_spline_on_cczr"}\n'
               ' BasesC = {"act/365", "act/act"%s}\n MaxShift = %d\nINVARIANTS %s\n'
               % (chk.n('', ', "0.06"'), chk.n('', ', "30/360"'), shifts, invs))


def c01(chk):
    design(chk, 'Reprices StartsAtOne Derivative')
    run(chk, chk.n(900, 9000), ['df', 'zero', 'dfy', 'zeroy', 'inst'], 4)


def c02(chk):
    design(chk, 'OutOfRange StartsAtOne')
    run(chk, chk.n(900, 9000), ['df', 'df', 'zero', 'dfy', 'zeroy'], 8, xs=('date', 'days'))


def c03(chk):
    design(chk, 'QuoteForms PillarOrder')
    run(chk, chk.n(900, 9000), ['df', 'zero'], 2)


def c04(chk):
    design(chk, 'Chain')
    run(chk, chk.n(900, 8000), ['fwd', 'fwd', 'fwd', 'avg', 'avg', 'df', 'shift'], 5)


def c05(chk):
    design(chk, 'Reprices StartsAtOne', chk.n(1, 2))
    run(chk, chk.n(700, 7000), ['shift', 'shift', 'zero', 'df', 'zeroy', 'avg', 'fwd', 'inst'], 6)


# ------------------------------------------------------------------ vocabularies and compounding
def decorate(s, decor):
    return {'plain': s, 'upper': s.upper(), 'title': s.title(), 'padded': '  ' + s + ' ', 'underscored': s.replace(' ', '_')}[decor]


def e01(chk):
    gen = chk.generate('EnumsMC', 'SPECIFICATION Spec\nCONSTANTS Decors = {"plain", "upper", "title", "padded", "underscored"}\nINVARIANTS Unambiguous DefaultIsMember Emitted\n')
    import frm.enums as en
    from frm.enums import utils as eu
    bad = []

    def val(v):
        return int(v) if v.isdigit() and len(v) < 3 else v

    def one(g):
        cls = getattr(eu, g['c'])
        out = []
        want = lambda v: cls(val(v))
        if g['kind'] == 'missing':
            for miss in (None, float('nan'), np.nan):
                st, r = guarded(lambda: cls.from_value(miss))
                if g['dflt']:
                    if st != 'ok' or r is not want(g['dflt']):
                        out.append(('a missing value takes the default', repr(miss), str(r)))
                elif st == 'ok':
                    out.append(('a missing value without default is refused', repr(miss), str(r)))
            return out
        text = decorate(g['text'], g['decor'])
        st, r = guarded(lambda: cls.from_value(text))
        if g['kind'] == 'means':
            if st != 'ok' or r is not want(g['v']):
                out.append(('text means its member', text, str(r)))
            if g['text'] == g['v']:
                st, ok = guarded(lambda: cls.is_valid(text))
                if st != 'ok' or ok is not True and ok != True:
                    out.append(('a member value is valid', text, str(ok)))
                if g['v'].isdigit():
                    st, r = guarded(lambda: cls.from_value(int(g['v'])))
                    if st != 'ok' or r is not want(g['v']):
                        out.append(('number means its member', g['v'], str(r)))
            m = want(g['v'])
            n = {'PayRcv': lambda: m.multiplier, 'BuySell': lambda: m.multiplier, 'DayCountBasis': lambda: m.days_per_year,
                 'CompoundingFreq': lambda: m.periods_per_year}.get(g['c'])
            if n:
                x = n()
                x = -1 if x is None or x != x else x
                if x != g['number']:
                    out.append(('number attached to the member', g['v'], str(x)))
        else:
            if st == 'ok' or r != 'ValueError':
                out.append(('foreign text is refused', text, str(r)))
            st, ok = guarded(lambda: cls.is_valid(text))
            if st != 'ok' or ok:
                out.append(('foreign text is not valid', text, str(ok)))
        return out
    res = pmap(one, gen)
    for g, bad in zip(gen, res):
        chk.traces += 1
        chk.tags[g['c']] += 1
        chk.tags[g['kind']] += 1
        for clause, what, got in bad:
            chk.compare({**g, 'input': what, 'got': got, 'tags': [g['c']]}, False, clause, 'EnumsMC')
    chk.samples.append(gen[len(gen) // 2])


def rec_rates(inp):
    from frm.enums import CompoundingFreq
    f, g = CompoundingFreq(inp['freq']), CompoundingFreq(inp['to'])

    def go():
        y = [float(x) for x in inp['years']]
        r = [float(x) for x in inp['rates']]
        mk = {'scalar': lambda v: v[0], 'array': np.array, 'series': pd.Series}[inp['kind']]
        y, r = mk(y), mk(r)
        df = f.calc_discount_factor_from_zero_rate(y, r)
        back = f.calc_zero_rate_from_discount_factor(y, df)
        conv = f.convert_rate_to(r, g)
        dfc = g.calc_discount_factor_from_zero_rate(y, conv)
        a = lambda v: nums(np.atleast_1d(v))
        return dict(ok=True, df=a(df), back=a(back), conv=a(conv), dfconv=a(dfc))
    st, v = guarded(go)
    return dict(inp=inp, out=v if st == 'ok' else dict(ok=False, err=v, df=[], back=[], conv=[], dfconv=[]), tags=[inp['freq'] + ' to ' + inp['to'], inp['kind']])


def r01(chk):
    rng = chk.rng
    cases = []
    for f in FREQS:
        for g in FREQS:
            for kind in ('scalar', 'array', 'series'):
                for _ in range(chk.n(10, 120)):
                    n = 1 if kind == 'scalar' else rng.choice([1, 2, 5])
                    one = 'simple' in (f, g) and f != g
                    ys = [1.0 if one else rng.choice([1.0, .5, 2.0, rng.uniform(.003, 40)]) for _ in range(n)]
                    rs = [rng.choice([0.0, .05, rng.uniform(-.02, .25), rng.uniform(-.001, .001)]) for _ in range(n)]
                    if f == 'simple':
                        ys = [min(y, 10) for y in ys]
                    cases.append(dict(freq=f, to=g, kind=kind, years=nums(ys), rates=nums(rs)))
    chk.validate('RatesTrace', pmap(rec_rates, cases))
