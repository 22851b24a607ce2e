"""FX quotes: column names and strategies, forward curves, volatility surfaces."""
import itertools
import math

import numpy as np
import pandas as pd

from harness import curves, sched
from harness.calendars import markets
from harness.tenors import TXT
from harness.vlib import NODATE, day, guarded, num, nums, pmap, ts

GAPS = ['_', ' ', '']
KIND = {'call': ['call', 'c'], 'put': ['put', 'p'], 'riskreversal': ['risk_reversal', 'risk reversal', 'riskreversal', 'rr'], 'butterfly': ['butterfly', 'bf']}
CONV = ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward']
_MK = []


def cal_of(ccys, lo, hi):
    if not _MK:
        _MK.append(markets())
    ms = [_MK[0][c.upper()] for c in ccys]
    return dict(mask=[0 if any(w in m['wend'] for m in ms) else 1 for w in range(1, 8)], hols=sorted({h for m in ms for h in m['hols'] if lo <= h <= hi}))


# ---------------------------------------------------------------- recording
def frame(inp):
    df = pd.DataFrame([[float(v) if c['k'] != 'other' else v for c, v in zip(inp['cols'], row)] for row in inp['vals']], columns=[c['name'] for c in inp['cols']])
    for c in inp['cols']:
        if c['k'] != 'other':
            df[c['name']] = df[c['name']].astype(float)
    return df


def do_names(inp):
    from frm.term_structures import fx_helpers as h
    df = frame(inp)
    keep = df.copy(deep=True)
    cl = h.clean_vol_quotes_column_names(df)
    cleaned = list(cl.columns)
    cp = h.solve_call_put_quotes_from_strategy_quotes(cl)
    q = h.get_delta_smile_quote_details(cp)
    names = list(q['quotes_column_names'])
    return dict(ok=True, cleaned=cleaned, names=names, cp=[int(x) for x in q['quotes_call_put_flag']], delta=nums(q['quotes_signed_delta']),
                vols=[nums(r) for r in cp[names].to_numpy()], untouched=same(keep, df))


def do_clean(inp):
    from frm.term_structures.fx_helpers import clean_vol_quotes_column_names
    df = frame(inp)
    keep = df.copy(deep=True)
    return dict(ok=True, cleaned=list(clean_vol_quotes_column_names(df).columns), untouched=same(keep, df))


def same(a, b):
    return list(a.columns) == list(b.columns) and a.equals(b)


def do_interp(inp):
    from frm.term_structures.fx_helpers import interp_fx_forward_curve_df
    df = pd.DataFrame({inp['by']: [ts(p['d']) for p in inp['fc']], 'fx_forward_rate': [float(p['f']) for p in inp['fc']]}, index=inp['index'])
    keep = df.copy(deep=True)
    d = [ts(x) for x in inp['dates']]
    d = pd.Series(d, index=range(5, 5 + len(d))) if inp['series'] else pd.DatetimeIndex(d)
    f = interp_fx_forward_curve_df(df, dates=d, date_type=inp['by'], **({} if inp['flat'] and inp['plain'] else dict(flat_extrapolation=inp['flat'])))
    return dict(ok=True, f=nums(f), untouched=same(keep, df))


def do_conv(inp):
    from frm.term_structures.fx_helpers import validate_ccy_pair, check_delta_convention
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        pair, dom, fgn = validate_ccy_pair(inp['text'])
        warned = len(w) > 0
    n = len(inp['convs'])
    df = pd.DataFrame({inp['term']: [f'{i + 1}m' for i in range(n)], 'delta_convention': inp['convs'], 'warnings': [''] * n})
    out = check_delta_convention(df, pair)
    rem = []
    for t in out['warnings']:
        a, b = t.count('the regular delta is the market'), t.count('premium adjusted delta is the market')
        rem.append('none' if (a, b) == (0, 0) and t == '' else 'regular' if (a, b) == (1, 0) else 'premium' if (a, b) == (0, 1) else t)
    return dict(ok=True, **{'for': fgn, 'dom': dom, 'pair': pair, 'warned': warned, 'remarks': rem})


def quote_frame(inp, rows, fixname):
    f = {}
    if any(r['text'] for r in rows) or fixname == 'fixing_date':
        f['tenor'] = [r['text'] for r in rows]
    if any(r['fix'] != NODATE for r in rows):
        f[fixname] = [pd.NaT if r['fix'] == NODATE else ts(r['fix']) for r in rows]
    if any(r['del'] != NODATE for r in rows):
        f['delivery_date'] = [pd.NaT if r['del'] == NODATE else ts(r['del']) for r in rows]
    return pd.DataFrame(f)


def witness(s, d):
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta as solve
    r = s.vol_smile_daily_df.loc[s.vol_smile_daily_df['expiry_date'] == d].iloc[0]
    return nums(solve(S0=s.fx_spot_rate, tau=r['expiry_years'], r_d=r['domestic_zero_rate'], r_f=r['foreign_zero_rate'], vol=r[s.quotes_column_names].values.astype(float),
                      signed_delta=s.quotes_signed_delta, delta_convention=r['delta_convention'], F=r['fx_forward_rate']))


def day_row(s, r):
    return dict(d=day(r['expiry_date']), tau=num(r['expiry_years']), F=num(r['fx_forward_rate']), rd=num(r['domestic_zero_rate']), rf=num(r['foreign_zero_rate']),
                conv=str(r['delta_convention']), vols=nums(r[s.quotes_column_names]), **({'del': day(r['delivery_date'])} if 'delivery_date' in r else {}))


def do_surface(inp):
    from frm.enums import DayCountBasis, FXSmileInterpolationMethod
    from frm.term_structures.fx_volatility_surface import FXVolatilitySurface
    fwd = quote_frame(inp, inp['fwd'], 'fixing_date')
    fwd['fx_forward_rate'] = [float(r['f']) for r in inp['fwd']]
    vq = pd.concat([quote_frame(inp, inp['terms'], 'expiry_date'), pd.DataFrame({'delta_convention': [r['conv'] for r in inp['terms']]}), frame(inp)], axis=1)
    keep = fwd.copy(deep=True), vq.copy(deep=True)
    kw = {}
    for k, v in (('curve_date', inp['cdgiven']), ('spot_date', inp['sdgiven'])):
        if v != NODATE:
            kw[k] = ts(v)
    if inp['off'] >= 0:
        kw['spot_offset'] = inp['off']
    if not inp['nocal']:
        kw['cal'] = sched.busdaycal(inp['cal'])
    if inp['basis'] != 'act/act':
        kw['day_count_basis'] = DayCountBasis(inp['basis'])
    if inp['smile'] != 'univariate':
        kw['smile_interpolation_method'] = FXSmileInterpolationMethod('cubic_spline' if inp['smile'] == 'cubic' else inp['smile'])
    domc, _ = curves.build(inp['domc'])
    forc, _ = curves.build(inp['forc'])
    up = inp['case']
    s = FXVolatilitySurface(domestic_ccy=up(inp['pair']['dom']), foreign_ccy=up(inp['pair']['for']), fx_forward_curve_df=fwd, domestic_zero_curve=domc, foreign_zero_curve=forc, vol_quotes=vq, **kw)
    p, dd = s.vol_smile_pillar_df, s.vol_smile_daily_df
    evs = []
    for ev in inp['events']:
        rows = ev.get('rows')
        st, v = guarded(lambda: simulate(s, ev) if ev['op'] == 'sim' else ask(s, ev, rows))
        evs.append(v if st == 'ok' else dict(ok=False, err=v, vol=[], price=[], mkt=[], wit=[], fit=[]))
    pick = sorted(set(inp['sample']))
    pick = [int(x * (len(dd) - 1)) for x in pick]
    return dict(ok=True, cd=day(s.curve_date), off=int(s.spot_offset), sd=day(s.spot_date), spot=num(s.fx_spot_rate), names=list(map(str, s.quotes_column_names)),
                untouched=same(keep[0], fwd) and same(keep[1], vq), first=day(dd['expiry_date'].iloc[0]), last=day(dd['expiry_date'].iloc[-1]), count=len(dd),
                pillars=[{**day_row(s, p.iloc[i]), 'ks': nums(s.strike_pillar_df.iloc[i][s.quotes_column_names])} for i in range(len(p))],
                days=[day_row(s, dd.iloc[i]) for i in pick], events=evs)


def simulate(s, ev):
    grid = pd.DatetimeIndex([ts(d) for d in ev['order']])
    res = s.simulate_gbm_fx_rate_path(grid, nb_simulations=ev['sims'], **({} if ev['anti'] else dict(apply_antithetic_variates=False)))
    t, x = res['gbm_monte_carlo_market_data_inputs'], np.asarray(res['fx_rate_simulation_paths'], dtype=float)
    d = np.diff(np.log(x[:, 0, :]), axis=0)
    e = d - d.mean(axis=1, keepdims=True)
    v = (e ** 2).mean(axis=1)
    pairs = np.abs(e[:, :e.shape[1] // 2 * 2:2] + e[:, 1::2]).max(axis=1)
    safe = np.where(v > 1e-20, v, 1.0)
    return dict(ok=True, shape=list(x.shape), fix=[day(z) for z in t['fixing_date']], **{'del': [day(z) for z in t['delivery_date']]}, lo=num(x[0].min()), hi=num(x[0].max()),
                mean=nums(d.mean(axis=1)), var=nums(v), pairs=nums(pairs / np.sqrt(np.where(v > 1e-20, v, 1.0))), cross=['0'] + nums((e[1:] * e[:-1]).mean(axis=1) / np.sqrt(safe[1:] * safe[:-1])))


def ask(s, ev, rows):
    ds = pd.DatetimeIndex([ts(r['d']) for r in rows])
    K, cp = np.array([float(r['K']) for r in rows]), np.array([r['cp'] for r in rows])
    if ev['op'] == 'vol':
        df = s.interp_vol_surface(ds, K, cp)
        v, price, m = df['vol'], [], df[['vol', 'domestic_zero_rate', 'foreign_zero_rate', 'fx_forward_rate']]
    else:
        res = s.price_vanilla_european(ds, K, cp)
        m = res['market_data_inputs']
        v, price = m['vol'], res['price']
    return dict(ok=True, vol=nums(v), price=nums(price), mkt=[nums(r) for r in np.asarray(m, dtype=float)[:, 1:]], wit=[witness(s, d) for d in ds], fit=[fit(s, d) for d in ds])


def fit(s, d):
    f = s.vol_smile_daily_func[d]
    if not isinstance(f, dict):
        return {}
    one = lambda x: num(np.squeeze(x))
    return dict(v0=one(f['var0']), vv=one(f['vv']), kappa=one(f['kappa']), theta=one(f['theta']), rho=one(f['rho']), lam=one(f['lambda_']), iv=nums(f['IV']), sse=one(f['SSE']))


def record(case):
    inp = case['inp']
    fn = dict(names=do_names, clean=do_clean, interp=do_interp, conv=do_conv, surface=do_surface)[inp['op']]
    st, v = guarded(lambda: fn(inp), seconds=60)
    out = v if st == 'ok' else dict(ok=False, err=v)
    inp = {k: v for k, v in inp.items() if k not in ('case', 'index')}
    for k in ('domc', 'forc'):
        if k in inp:
            inp[k] = {**inp[k], 'pillars': [{a: b for a, b in p.items() if a != 'text'} for p in inp[k]['pillars']]}
    return dict(inp=inp, out=out, tags=case['tags'])


# ---------------------------------------------------------------- generation
def spell(r, q, plain):
    g = (lambda: '_') if plain else (lambda: r.choice(GAPS))
    word = 'delta' if plain else r.choice(['delta', 'Δ'])
    if q['k'] in KIND:
        return q['txt'] + g() + word + g() + r.choice(KIND[q['k']])
    a = r.choice(['a', 'at']) + g() + r.choice(['t', 'the']) + g() + r.choice(['m', 'money']) + g()
    return a + word + g() + 'neutral' if q['k'] == 'atm' else a + r.choice(['f', 'fwd', 'forward'])


def columns(r, deltas, forms, extra=True):
    """Quote columns for the deltas; forms: per delta 'strategy', 'both' or 'direct' or a mix."""
    cols = [dict(k='atm', d=50, txt='')]
    for d, f in zip(deltas, forms):
        txt = r.choice([str(d), f'0{d}']) if d < 10 else str(d)
        ks = {'strategy': ['riskreversal', 'butterfly'], 'direct': ['call', 'put'], 'one': ['riskreversal', 'butterfly', r.choice(['call', 'put'])], 'call': ['call'], 'put': ['put']}[f]
        cols += [dict(k=k, d=d, txt=txt) for k in ks]
    if extra and r.random() < .2:
        cols.append(dict(k='atmf', d=0, txt=''))
    r.shuffle(cols)
    plain = r.random() < .2
    for c in cols:
        c['name'] = spell(r, c, plain)
    return cols


def smile(r, cols, atm, tilt, wing):
    """Quotes around one smile: call and put volatilities given directly may disagree with the strategies."""
    row = []
    for c in cols:
        w = (50 - c['d']) / 40
        rr, bf = tilt * w * atm, wing * w * w * atm
        v = {'atm': atm, 'atmf': atm * 1.01, 'riskreversal': rr, 'butterfly': bf, 'call': atm + bf + .5 * rr, 'put': atm + bf - .5 * rr}.get(c['k'])
        if c['k'] in ('call', 'put'):
            v *= 1 + .02 * w * r.random()
        row.append(num(round(v, 9)))
    return row


def names_case(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 5])
    deltas = r.sample([5, 1, 10, 15, 20, 25, 30, 35, 40, 45, 49], n)
    cols = columns(r, deltas, [r.choice(['strategy', 'strategy', 'direct', 'one']) for _ in deltas])
    if r.random() < .12:
        bad = r.choice([c for c in cols if c['k'] in ('atm', 'riskreversal', 'butterfly')])
        cols = [c for c in cols if c is not bad]
    for t in r.sample(['tenor', 'delta_convention', 'expiry_date', 'source', 'delta', 'atm', 'call', '50_delta_call', '25_delta_strangle', 'mid_25_delta_call'], r.randint(0, 3)):
        cols.insert(r.randrange(len(cols) + 1), dict(k='other', d=0, txt=t, name=t))
    if not cols:
        return names_case(r)
    q = [c for c in cols if c['k'] != 'other']
    rows = []
    for _ in range(r.choice([1, 2, 4])):
        sm = iter(smile(r, q, r.uniform(.04, .3), r.uniform(-.3, .3), r.uniform(0, .2)))
        rows.append([next(sm) if c['k'] != 'other' else 'x' for c in cols])
    return dict(inp=dict(op='names', cols=cols, vals=rows), tags=['quote columns', f'{n} deltas'])


def every_spelling():
    """Every accepted spelling of every kind of quote."""
    cols = [dict(k=k, d=d, txt=t, name=t + a + w + b + v) for d, t in [(1, '1'), (5, '05'), (9, '9'), (10, '10'), (25, '25'), (49, '49')] for k in KIND for a in GAPS for w in ('delta', 'Δ') for b in GAPS for v in KIND[k]]
    for g in itertools.product(GAPS, repeat=3):
        for a, t, m in itertools.product(['a', 'at'], ['t', 'the'], ['m', 'money']):
            cols += [dict(k='atm', d=50, txt='', name=a + g[0] + t + g[1] + m + g[2] + w + x + 'neutral') for w in ('delta', 'Δ') for x in GAPS]
            cols += [dict(k='atmf', d=0, txt='', name=a + g[0] + t + g[1] + m + g[2] + w) for w in ('f', 'fwd', 'forward')]
    # a frame holds each quote once
    cases = []
    for part in [cols[i::60] for i in range(60)]:
        while part:
            pick, left, have = [], [], set()
            for c in part:
                (left if (c['k'], c['d']) in have else pick).append(c)
                have.add((c['k'], c['d']))
            cases.append(dict(inp=dict(op='clean', cols=pick, vals=[['0.1'] * len(pick)]), tags=['every spelling']))
            part = left
    return cases


def interp_case(r):
    s = sched.rand_start(r)
    n = r.choice([1, 2, 3, 5, 9] * 20 + [40])
    ds = r.sample(range(s, s + r.choice([40, 400, 4000])), n)
    fc = [dict(d=d, f=num(round(r.choice([.66, 1.1, 150.0]) * r.uniform(.95, 1.05), 6))) for d in ds]
    lo, hi = min(ds), max(ds)
    q = [r.choice([r.choice(ds), r.randint(lo, hi), r.randint(lo, hi), lo - r.randint(1, 50), hi + r.randint(1, 500)]) for _ in range(r.choice([1, 1, 2, 5, 12] * 20 + [90, 200]))]
    if r.random() < .3:
        q = q + q[:2]
    ix = list(range(n))
    r.shuffle(ix)
    return dict(inp=dict(op='interp', fc=fc, dates=q, flat=r.random() < .6, plain=r.random() < .5, series=r.random() < .5, by=r.choice(['fixing_date', 'delivery_date']), index=ix),
                tags=['forward curve', f'{n} points'])


CC = ['usd', 'aud', 'eur', 'gbp', 'nzd', 'cad', 'jpy', 'chf', 'try', 'sek', 'php']


def conv_cases(r, pairs, n):
    out = []
    for f, d in pairs:
        for _ in range(n):
            t = r.choice(['{}{}', '{}/{}', ' {}{} ', '{}/{} ']).format(f, d)
            out.append(dict(inp={'op': 'conv', 'pair': {'for': f, 'dom': d}, 'text': r.choice([t, t.upper(), t.title()]), 'convs': [r.choice(CONV) for _ in range(r.choice([1, 2, 5]))],
                                 'term': r.choice(['tenor', 'expiry_date', 'delivery_date', 'tenor'])}, tags=['delta conventions', f + d]))
    return out


def zero_req(r, cd, span):
    xs = r.choice(['date', 'days', 'tenor', 'years'])
    interp = r.choice(curves.INTERP)
    lo = {'linear_on_ln_discount': 1, 'cubic_spline_on_ln_discount': 3, 'cubic_spline_on_cczr': 4}[interp]
    n = r.randint(lo, lo + 3)
    offs = sorted(r.sample(range(30, max(span, 300) + 60, 30), n - 1)) + [max(span, 300) + 120] if n > 1 else [span + 120]
    y, basis = r.choice(['df', 'zero']), r.choice(['act/365', 'act/360', 'act/act'])
    level, slope = r.choice([.001, .02, .05, -.005]), r.choice([0, .003, -.002])
    out = []
    for k, o in enumerate(offs):
        rate = level + slope * o / 365 + r.uniform(-.002, .002)
        p = dict(q=num(rate if y == 'zero' else round(math.exp(-rate * o / 365.25), 12)))
        if xs == 'date':
            p['d'] = cd + o
        elif xs == 'days':
            p['n'] = o
        elif xs == 'tenor':
            p.update(t=dict(k='d', n=o, m=0), text=f'{o}d') if k % 2 or o % 7 else p.update(t=dict(k='w', n=o // 7, m=0), text=f'{o // 7}w')
        else:
            p['yrs'] = num(round(o / 365, 6))
        out.append(p)
    if r.random() < .3 and xs != 'years':
        r.shuffle(out)
    return dict(cd=cd, basis=basis, cal=curves.NOCAL, interp=interp, extrap='none', x=xs, y=y, freq=r.choice(['continuous', 'annual', 'semiannual', 'quarterly']), pillars=out, colswap=r.random() < .3)


TERMS = [('w', 1), ('w', 2), ('w', 3), ('m', 1), ('m', 2), ('m', 3), ('m', 6), ('m', 9), ('y', 1), ('m', 18), ('y', 2), ('y', 3), ('d', 10), ('d', 45)]


def tenor_row(r, k, n):
    return dict(k=k, n=n, m=0), f'{n}{r.choice(TXT[k])}'


def sim_events(r, cd, sd, lag, bc, lo, hi, ex):
    """Deliveries of simulated rates: for expiries and days between, weekends too; now and then one before spot or fixing outside the expiries."""
    off = lambda z, k, roll: int(np.busday_offset(np.datetime64(int(z), 'D'), k, roll=roll, busdaycal=bc).astype(int))
    out = []
    for _ in range(r.choice([1, 1, 2])):
        fix = r.sample(range(lo, hi + 1), min(hi - lo + 1, r.choice([0, 1, 3, 6]))) + r.sample(ex, r.randint(1, len(ex)))
        ds = [off(z, lag, 'preceding') + r.choice([0, 0, 0, 1, 2]) for z in fix] + r.choice([[], [sd], [sd, sd + 1], [sd + 1]])
        at = lambda z: max(cd, off(z, -lag, 'preceding'))
        ds = [z for z in ds if z >= sd and (at(z) == cd or lo <= at(z) <= hi)]
        if r.random() < .15 or set(ds) <= {sd}:
            ds.append(r.choice([sd - 1, off(hi + 1, lag, 'following') + 1, off(hi + 90, lag, 'following'), sd + 1 + (lo - cd) // 2]))
        o = ds + r.choice([[], ds[:2]])
        r.shuffle(o)
        out.append(dict(op='sim', dels=sorted(set(ds)), order=o, sims=2 * r.randint(1500, 3000), anti=r.random() < .75))
    return out


def surface_case(r, sim=False):
    nocal = r.random() < .25
    f, d = r.sample(CC, 2)
    if r.random() < .5:
        f, d = r.choice([('aud', 'usd'), ('eur', 'usd'), ('usd', 'jpy'), ('usd', 'cad'), ('eur', 'gbp')])
    s = sched.rand_start(r)
    cal = cal_of([f, d], s - 30, s + 1500) if nocal else sched.rand_cal(r, s, s + 1200)
    bc = sched.busdaycal(cal)
    bus = lambda z, k=0: int(np.busday_offset(np.datetime64(int(z), 'D'), k, roll='following', busdaycal=bc).astype(int))
    cd = bus(s)
    market_lag = 1 if f + d in ('usdcad', 'cadusd', 'usdtry', 'tryusd', 'usdphp', 'phpusd') else 2
    given = r.choice(['c', 'c', 'c', 's', 'cs', 'co', 'so'])
    lag = r.choice([0, 1, 2, 3]) if 'o' in given or given == 'cs' else market_lag
    sd = bus(cd, lag)
    # terms of the surface
    n = r.choice([1, 2, 2, 3, 4, 6])
    terms = []
    for k, m in sorted(r.sample(TERMS, n), key=lambda t: {'d': 1, 'w': 7, 'm': 30.4, 'y': 365}[t[0]] * t[1]):
        t, text = tenor_row(r, k, m)
        q = {'t': t, 'text': text, 'fix': NODATE, 'del': NODATE, 'conv': r.choice(CONV)}
        terms.append(q)
    if r.random() < .4:
        c = r.choice(CONV)
        for q in terms:
            q['conv'] = c
    # calendar days where the tenors land: the harness keeps expiries apart
    from frm.utils.tenor import clean_tenor, tenor_to_date_offset
    land = lambda q: bus(day(ts(cd) + tenor_to_date_offset(clean_tenor(q['text']))))
    ex, keep = [], []
    dated = r.random() < .3
    for q in terms:
        e = land(q)
        if any(abs(e - x) < 3 for x in ex):
            continue
        ex.append(e)
        if dated or r.random() < .05:
            q['fix'] = e
            if dated and r.random() < .5:
                q['del'] = bus(e, lag) + r.choice([0, 0, 1])
        keep.append(q)
    terms = keep
    if dated and r.random() < .5:
        for q in terms:
            q['text'] = ''
    span = max(ex) - cd
    # forwards
    spot = r.choice([.66, 1.1, 150.0, 7.2]) * r.uniform(.9, 1.1)
    drift = r.uniform(-.03, .03)
    fwd, fx = [{'t': dict(k='sp', n=0, m=0), 'text': r.choice(['SP', 'sp', 'spot', 'Spot']), 'fix': NODATE, 'del': NODATE, 'f': num(round(spot, 6))}], {cd}
    for k, m in r.sample(TERMS, r.randint(0, 7)):
        t, text = tenor_row(r, k, m)
        q = {'t': t, 'text': text, 'fix': NODATE, 'del': NODATE}
        e = land(q)
        if e in fx:
            continue
        fx.add(e)
        q['f'] = num(round(spot * math.exp(drift * (e - cd) / 365) * r.uniform(.998, 1.002), 6))
        if r.random() < .15:
            q['fix'] = e
        fwd.append(q)
    if lag > 0 and r.random() < .15:
        # a rate fixed on an earlier day, delivered before spot
        fwd.append({'t': dict(k='d', n=1, m=0), 'text': '1d', 'fix': cd - r.randint(1, 3), 'del': sd - 1, 'f': num(round(spot * r.uniform(.995, 1.005), 6))})
        r.shuffle(fwd)
    # smiles with rising total variance
    deltas = r.sample([5, 10, 15, 25, 35], r.choice([1, 1, 2, 2, 3]))
    cubic = len(deltas) > 1 and r.random() < .4
    forms = [r.choice(['strategy', 'strategy', 'direct', 'one']) for _ in deltas]
    if len(deltas) > 1 and r.random() < .35:
        # one delta quoted on one side only
        forms[r.randrange(len(forms))] = r.choice(['call', 'put'])
    cols = columns(r, deltas, forms)
    atm, tilt, wing = r.uniform(.05, .22), r.uniform(-.15, .15), r.uniform(.02, .08)
    rows, prev = [], 0.
    for e in ex:
        a = max(atm * r.uniform(.9, 1.1), 1.02 * math.sqrt(prev / (e - cd)))
        prev = a * a * (e - cd) * 1.08
        rows.append(smile(r, cols, a, tilt + r.uniform(-.01, .01), wing))
    order = list(range(len(terms)))
    if r.random() < .4:
        r.shuffle(order)
    terms, rows = [terms[i] for i in order], [rows[i] for i in order]
    # queries
    lo, hi = min(ex), max(ex)
    evs, asked = [], []
    for _ in range(r.randint(1, 5)):
        q = []
        for _ in range(r.choice([1, 1, 2, 4])):
            z = r.choice(ex + asked + [r.randint(lo, hi), r.randint(lo, hi)])
            asked.append(z)
            F = spot * math.exp(drift * (z - cd) / 365)
            w = r.uniform(-.9, .9) * (1 if len(deltas) == 1 else 1.2)
            q.append(dict(d=z, K=num(round(F * math.exp(w * atm * math.sqrt((z - cd) / 365)), 7)), cp=r.choice([1, -1])))
        if r.random() < .1:
            q[r.randrange(len(q))]['d'] = r.choice([lo - 1, hi + 1, hi + 100])
        if r.random() < .3:
            q.append(dict(q[0], cp=-q[0]['cp']))
        evs.append(dict(op=r.choice(['vol', 'price', 'price']), rows=q))
    if r.random() < .1 and hi - lo > 40:
        q = []
        for z in r.sample(range(lo, hi + 1), 25) + r.sample(asked, 1):
            F = spot * math.exp(drift * (z - cd) / 365)
            q.append(dict(d=z, K=num(round(F * math.exp(r.uniform(-.8, .8) * atm * math.sqrt((z - cd) / 365)), 7)), cp=r.choice([1, -1])))
        evs.insert(r.randint(0, len(evs)), dict(op=r.choice(['vol', 'price']), rows=q))
    if sim:
        evs = sim_events(r, cd, sd, lag, bc, lo, hi, ex) + ([] if r.random() < .7 else evs[:1])
    inp = {'op': 'surface', 'pair': {'for': f, 'dom': d}, 'cal': cal, 'nocal': nocal, 'cdgiven': cd if 'c' in given else NODATE, 'sdgiven': sd if 's' in given else NODATE,
           'off': lag if 'o' in given else -1, 'basis': r.choice(['act/act', 'act/act', 'act/365', 'act/360']), 'fwd': fwd, 'terms': terms, 'cols': cols, 'vals': rows,
           'domc': zero_req(r, cd, span), 'forc': zero_req(r, cd, span), 'smile': 'cubic' if cubic else 'univariate', 'events': evs, 'sample': [round(r.random(), 3) for _ in range(3)]}
    inp['case'] = r.choice([str.upper, str.lower, str.title])
    return dict(inp=inp, tags=['surface', f'{len(terms)} expiries', f'{len(deltas)} deltas', 'given ' + given, 'own calendar' if nocal else 'calendar', inp['smile']])


# ---------------------------------------------------------------- checks
def design(chk, inv):
    chk.design('FxSurfaceMC', 'CONSTANTS Vols = {%s}\nMaxAsk = %d\nSPECIFICATION Spec\nINVARIANTS %s\n' % ('"0.09", "0.11"' if chk.quick() else '"0.08", "0.1", "0.115"', chk.n(3, 5), inv))


def x01(chk):
    r = chk.rng
    design(chk, 'Ordered Strategies Through')
    chk.validate('FxSurfaceTrace', pmap(record, every_spelling() + [names_case(r) for _ in range(chk.n(1500, 25000))]), chunk=8000)


def x02(chk):
    r = chk.rng
    design(chk, 'ForwardLine')
    chk.validate('FxSurfaceTrace', pmap(record, [interp_case(r) for _ in range(chk.n(2500, 25000))]), chunk=8000)


def x03(chk):
    r = chk.rng
    design(chk, 'Ordered AtPillars Between OneSmilePerDay')
    cases = pmap(record, [surface_case(r) for _ in range(chk.n(280, 4000))], chunk=4)
    for c in cases:
        c['inp']['events'] = []
    chk.validate('FxSurfaceTrace', cases, chunk=1000)


def x04(chk):
    r = chk.rng
    design(chk, 'AtPillars Between OneSmilePerDay Through')
    cases = pmap(record, [surface_case(r) for _ in range(chk.n(280, 4000))], chunk=4)
    chk.validate('FxSurfaceTrace', cases, chunk=1000)


def x05(chk):
    r = chk.rng
    design(chk, 'Strategies')
    pairs = list(itertools.permutations(CC, 2))
    chk.validate('FxSurfaceTrace', pmap(record, conv_cases(r, pairs, chk.n(12, 120))), chunk=8000)


def x06(chk):
    r = chk.rng
    design(chk, 'SimLaw')
    chk.validate('FxSurfaceTrace', pmap(record, [surface_case(r, True) for _ in range(chk.n(220, 3000))], chunk=4), chunk=1000)
