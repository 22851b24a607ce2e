"""Cap/floor quotes and the optionlet term structures stripped from them."""
import math

import numpy as np
import pandas as pd

from harness import curves, sched
from harness.sabr import hagan
from harness.vlib import NODATE, day, guarded, num, nums, pmap, ts

MONTHS = {'monthly': 1, 'quarterly': 3, 'semiannual': 6, 'annual': 12}
BASES = ['act/360', 'act/365', 'act/365', 'act/act', '30/360', '30e/360', 'act/366']


# ------------------------------------------------------------------ the code
def frame(m):
    cols = {'tenor': [q['text'] for q in m['quotes']]}
    for j in m['colorder']:
        cols[m['names'][j]] = [float(q['vols'][j]) for q in m['quotes']]
    if m['withbeta']:
        cols['beta'] = [None if q['beta'] == 'none' else float(q['beta']) for q in m['quotes']]
        cols['beta'] = pd.array(cols['beta'], dtype='Float64').to_numpy('float64', na_value=np.nan)
    df = pd.DataFrame(cols)
    if m['tenorlast']:
        df = df[[c for c in df.columns if c != 'tenor'] + ['tenor']]
    if m['reindex']:
        df.index = range(4, 4 + len(df))
    return df


def build(m, z):
    from frm.enums import PeriodFreq
    from frm.term_structures.optionlet import Optionlet
    df = frame(m)
    keep = df.copy(deep=True)
    kw = dict(settlement_date=ts(m['settle'])) if m['settle'] != NODATE else dict(settlement_delay=m['delay'])
    o = Optionlet(curve_date=ts(m['cd']), quote_vol_sln=df, ln_shift=float(m['shift']), zero_curve=z, optionlet_freq=PeriodFreq(m['freq']),
                  busdaycal=sched.busdaycal(m['cal']), **kw)
    return o, bool(keep.equals(df) and list(keep.columns) == list(df.columns))


OPT = dict(yf='period_yearfrac', df='discount_factors', ann='annuity_factor', tau='expiry_years', F='F', v='vol_n_atm', vs='vol_sln_atm', alpha='alpha', beta='beta', rho='rho', nu='volvol')


def opts_of(o):
    t = o.term_structure
    return [dict(s=day(r['period_start']), e=day(r['period_end']), pay=day(r['payment_date']), nb=int(r['quote_nb']), **{k: num(r[c]) for k, c in OPT.items()}) for _, r in t.iterrows()]


def caps_of(o, m):
    out, key = [], canonical(m)
    for i in range(len(o.quote_vol_sln)):
        r = o.quote_vol_sln.loc[i]
        g = lambda d: [num(d.loc[i, k]) for k in key]
        out.append(dict(settle=day(r['settlement_date']), eff=day(r['effective_date']), term=day(r['termination_date']), fix=day(r['last_optionlet_expiry_date']),
                        years=num(r['term_years']), fixyears=num(r['last_optionlet_expiry_years']), F=num(r['F']),
                        vols=g(o.quote_vol_sln), ks=g(o.quote_strikes), cps=g(o.quote_cp), px=g(o.quote_pxs), vn=g(o.quote_vol_n)))
    return out


def canonical(m):
    out = []
    for x in m['bps']:
        out.append('atmf' if x == 0 else (str(int(x)) if float(x).is_integer() else str(x)) + 'bps')
    return out


COLS = dict(tau='expiry_years', F='F', v='vol_n_atm', vs='vol_sln_atm', alpha='alpha', beta='beta', rho='rho', nu='volvol')
PCOLS = dict(yf='period_yearfrac', df='discount_factor', ann='annuity_factor', K='K', cp='cp', price='price', fwdprice='forward_price', intrinsic='intrinsic', time='time', delta='delta', vega='vega')


def sched_of(q):
    from frm.enums import PeriodFreq, RollConv
    from frm.utils import BaseSchedule
    s = BaseSchedule(start_date=ts(q['start']), end_date=ts(q['end']), freq=PeriodFreq(q['freq']), roll_conv=RollConv.MODIFIED_FOLLOWING, roll_user_specified_dates=q['roll'], cal=sched.busdaycal(q['cal']))
    s.add_payment_dates(payment_delay=q['paylag'])
    return s


def rows_of(s):
    return [dict(s=day(r['period_start']), e=day(r['period_end']), pay=day(r['payment_date'])) for _, r in s.df.iterrows()]


def arg(v, kind):
    x = [float(k) for k in v]
    return x[0] if kind == 'scalar' else x if kind == 'list' else np.array(x)


def ask(o, q):
    from frm.enums import DayCountBasis
    s = sched_of(q)
    if q['op'] == 'interp':
        keep = s.df.copy(deep=True)
        d = o.interpolate_sabr_term_structure(s.df)
        if not keep.equals(s.df):
            raise ArithmeticError('schedule changed')
        return dict(ok=True, rows=[dict(s=day(r['period_start']), e=day(r['period_end']), pay=day(r['payment_date']), **{k: num(r[c]) for k, c in COLS.items()}) for _, r in d.iterrows()], flat=[])
    K = arg(q['K'], q['kk'])
    cp = arg(q['cp'], q['ck'])
    cp = int(cp) if q['ck'] == 'scalar' and not q.get('floatcp') else cp if not isinstance(cp, list) else [int(x) for x in cp]
    kw = dict(schedule=s, K=K, cp=cp, day_count_basis=DayCountBasis(q['basis']))
    if q['by'] == 'smile':
        d = o.price_optionlets_per_term_structure(solve_equivalent_flat_vol=q['flat'], **kw)
    elif q['by'] == 'ln':
        d = o.price_optionlets_per_flat_vol_sln(vol_sln_override=arg(q['vol'], q['vk']), **kw)
    else:
        d = o.price_optionlets_per_flat_vol_n(vol_n_override=arg(q['vol'], q['vk']), **kw)
    flat = []
    if q['flat']:
        d, a, b = d
        flat = [num(a), num(b)]
    vol = 'vol_n' if q['by'] == 'n' else 'vol_sln'
    return dict(ok=True, flat=flat, rows=[dict(s=day(r['period_start']), e=day(r['period_end']), pay=day(r['payment_date']), vol=num(r[vol]), **{k: num(r[c]) for k, c in {**COLS, **PCOLS}.items()}) for _, r in d.iterrows()])


def do(case):
    inp, m = case['inp'], case['inp']['m']
    z, _ = curves.build(case['req'])
    o, untouched = build(m, z)
    out = dict(ok=True, untouched=untouched, opts=opts_of(o), caps=caps_of(o, m), before=[], answers=[], kept=True)
    if inp['op'] == 'surface' and inp['prefix']:
        order = sorted(range(len(m['quotes'])), key=lambda i: m['quotes'][i]['months'])[:inp['prefix']]
        o2, _ = build({**m, 'quotes': [m['quotes'][i] for i in order]}, z)
        out['before'] = opts_of(o2)
    for q in inp.get('queries', ()):
        s2, a = guarded(lambda: ask(o, q), seconds=30)
        out['answers'].append(a if s2 == 'ok' else dict(ok=False, err=a, rows=[], flat=[]))
    out['kept'] = bool(opts_of(o) == out['opts'] and caps_of(o, m) == out['caps'])
    return out


def record(case):
    st, v = guarded(lambda: do(case), seconds=100)
    out = v if st == 'ok' else dict(ok=False, err=v)
    inp = case['inp']
    if inp['op'] == 'queries':
        inp = {**inp, 'queries': [{**q, 'rows': rows_of(sched_of(q))} for q in inp['queries']]}
    req = {**case['req'], 'pillars': [{k: w for k, w in p.items() if k != 'text'} for p in case['req']['pillars']]}
    return dict(inp=inp, req=req, out=out, tags=case['tags'], raw=case)


# ------------------------------------------------------------------ inputs
def spell(rng, bps):
    if bps == 0:
        return rng.choice(['ATM', 'ATMF', 'atm', 'atmf', 'at the money', 'At-The-Money-Forward', 'ATM-F'])
    if rng.random() < .25:
        x = f'{bps / 100:+.10f}'.rstrip('0').rstrip('.')
        return x + rng.choice(['%', ' %'])
    x = f'{bps:+.6f}'.rstrip('0').rstrip('.')
    return rng.choice(['', '', '', 'ATM', 'ATMF ']) + x + rng.choice(['bps', 'bp', ' bps', ' BPS', 'Bps'])


def market(rng, small=False, day28=False):
    cd = sched.rand_start(rng)
    if rng.random() < .12: # a month that ends on a weekend
        cd = rng.choice([d for d in sched.MONTH_ENDS if (d + 3) % 7 > 4])
    cal = sched.rand_cal(rng, cd, cd + 4500) if rng.random() < .5 else curves.NOCAL
    cal = dict(mask=cal['mask'], hols=sorted(set(cal['hols'])))
    lvl = rng.choice([.004, .02, .045, .08]) * rng.uniform(.8, 1.2)
    zs, r0 = [], lvl
    for y in (91, 183, 366, 731, 1096, 1826, 2557, 4600):
        r0 += rng.uniform(-.05, .05) * lvl
        zs.append(dict(d=cd + y, q=num(round(r0, 6))))
    freq = rng.choice(['quarterly', 'quarterly', 'semiannual', 'monthly', 'annual'])
    k = MONTHS[freq]
    pool = [t for t in ([2, 3, 4, 6, 9, 12, 18, 24] if k == 1 else [6, 9, 12, 15, 18, 24, 36, 48, 60, 84] if k == 3 else [12, 18, 24, 36, 48, 60, 84] if k == 6 else [24, 36, 48, 60, 84])]
    if small:
        pool = [t for t in pool if t <= 12 * k] or pool[:3]
    n = rng.choice([1, 2, 2, 3, 3, 4])
    ten = sorted(rng.sample(pool, min(n, len(pool))))
    shift = rng.choice([0., 0., .01, .02, .03])
    f = lvl + shift
    vol = rng.choice([.15, .25, .4, .55]) if f < .04 else rng.choice([.12, .2, .3])
    width = [1, 2, 4, 5, 10, 25, 50, 75, 100, 12.5]
    bps = [b * s for b in width for s in (-1, 1)]
    top = vol * math.sqrt(ten[0] / 12.) * 1.6
    bps = [b for b in bps if lvl * .75 + b / 1e4 + shift > .25 * f and abs(math.log((f + b / 1e4) / f)) < top and abs(b) > 1e4 * f * .04]
    rng.shuffle(bps)
    bps = [0] + sorted(bps[:rng.choice([2, 3, 4, 5])])
    rho, nu, beta = rng.uniform(-.4, .3), rng.uniform(.15, .5), rng.choice([.3, .5, .8])
    withbeta = rng.random() < .4
    quotes = []
    for t in ten:
        v = vol * rng.uniform(.98, 1.02)
        sm = dict(tau=t / 18., F=lvl, alpha=v * f ** (1 - beta), beta=beta, rho=rho, nu=nu)
        base = hagan(sm, shift, lvl * (1 + 1e-9))
        vols = [num(round(v * hagan(sm, shift, lvl * (1 + 1e-9) + b / 1e4) / base, 6)) for b in bps]
        tt = dict(k='y', n=t // 12, m=0) if t % 12 == 0 and rng.random() < .7 else dict(k='ym', n=t // 12, m=t % 12) if t > 12 and t % 12 and rng.random() < .3 else dict(k='m', n=t, m=0)
        text = f"{tt['n']}y{tt['m']}m" if tt['k'] == 'ym' else f"{tt['n']}{rng.choice([tt['k'], tt['k'].upper()])}"
        quotes.append(dict(t=tt, text=text, months=t, vols=vols, beta=num(rng.choice([0., .25, .5, 1.])) if withbeta and rng.random() < .7 else 'none'))
    if rng.random() < .4:
        rng.shuffle(quotes)
    names = []
    for b in bps:
        names.append(spell(rng, b))
    colorder = list(range(len(bps)))
    if rng.random() < .5:
        rng.shuffle(colorder)
    m = dict(cd=cd, settle=NODATE, delay=rng.choice([0, 1, 2, 2]), cal=cal, freq=freq, k=k, shift=num(shift), bps=bps, rels=[num(round(b / 1e4, 8)) for b in bps], names=names,
             quotes=quotes, colorder=colorder, withbeta=withbeta, tenorlast=rng.random() < .3, reindex=rng.random() < .3)
    if rng.random() < .4:
        m['settle'], m['delay'] = cd + rng.choice([0, 1, 2, 5]), 0
    if day28:
        while int(str(ts(settle_of(m)))[8:10]) > 28:
            m['settle'], m['delay'] = settle_of(m) + 1, 0
    req = dict(cd=cd, basis=rng.choice(BASES), cal=curves.NOCAL, interp=rng.choice(curves.INTERP), extrap='none', x='date', y='zero', freq=rng.choice(['continuous', 'annual', 'semiannual']), pillars=zs, colswap=False)
    return m, req


def settle_of(m):
    if m['settle'] != NODATE:
        return m['settle']
    return int(np.busday_offset(np.datetime64(m['cd'], 'D'), m['delay'], roll='following', busdaycal=sched.busdaycal(m['cal'])).astype(int))


def quote_case(rng):
    m, req = market(rng)
    return dict(inp=dict(op='quotes', m=m, queries=[]), req=req, tags=['quotes', m['freq'], req['basis']])


def surface_case(rng):
    pre = rng.random() < .4
    m, req = market(rng, small=True, day28=pre)
    n = len(m['quotes'])
    return dict(inp=dict(op='surface', m=m, queries=[], prefix=rng.randrange(1, n) if pre and n > 1 else 0, giveup=False), req=req,
                tags=['surface', f'{n} quotes', m['freq']] + (['beta given'] if m['withbeta'] else []))


def query_case(rng):
    m, req = market(rng, small=True)
    st = settle_of(m)
    lo = int(np.busday_offset(np.datetime64(day(ts(st) + pd.DateOffset(months=m['k'])), 'D'), 0, roll='following', busdaycal=sched.busdaycal(m['cal'])).astype(int))
    top = max(q['months'] for q in m['quotes'])
    hi = day(ts(st) + pd.DateOffset(months=top - m['k']))
    lvl = float(req['pillars'][3]['q'])
    qs = []
    for _ in range(rng.choice([2, 3, 4])):
        f = rng.choice(['monthly', 'quarterly', 'semiannual', m['freq']])
        k = MONTHS[f]
        if rng.random() < .4:
            a = lo
        else:
            a = rng.randrange(lo, max(lo + 1, hi - 31 * k)) if hi - 31 * k > lo else lo
        room = max(1, int((hi - a) / 30.6 / k))
        n = rng.randrange(1, min(room, 8) + 1)
        b = day(ts(a) + pd.DateOffset(months=n * k))
        if rng.random() < .25 and b - a > 40 * k:
            b -= rng.randrange(1, 20)
        q = dict(op=rng.choice(['interp', 'price', 'price', 'price']), start=a, end=b, freq=f, roll=rng.random() < .5, cal=m['cal'], paylag=rng.choice([0, 0, 1, 5]), bad=False, basis='act/365', by='smile', flat=False,
                 K=['0'], cp=['1'], kk='scalar', ck='scalar', vol=['0'], vk='scalar')
        rows = rows_of(sched_of(q))
        if rows[-1]['s'] > hi or rows[0]['s'] < lo or not all(r['s'] + 5 <= r['e'] for r in rows):
            continue
        if q['op'] == 'price':
            nr = len(rows)
            q['basis'] = rng.choice(BASES)
            q['by'] = rng.choice(['smile', 'smile', 'ln', 'n'])
            form = rng.choice(['scalar', 'list', 'array', 'array'])
            q['kk'] = q['ck'] = form
            if form == 'list' or form == 'array':
                q['ck'] = rng.choice(['list', 'array'])
            cnt = 1 if form == 'scalar' else nr
            sh = float(m['shift'])
            q['K'] = [num(round((lvl + sh) * math.exp(rng.uniform(-.35, .35)) - sh, 6)) for _ in range(cnt)]
            q['cp'] = [num(float(rng.choice([-1, 1]))) for _ in range(cnt)]
            if q['by'] == 'smile':
                q['flat'] = rng.random() < .5
            else:
                per = rng.random() < .3
                q['vk'] = 'array' if per or rng.random() < .3 else 'scalar'
                q['vol'] = [num(round(rng.uniform(.1, .5) * (1 if q['by'] == 'ln' else lvl + sh), 6)) for _ in range(nr if per else 1)]
            if rng.random() < .1:
                q['bad'], q['flat'] = True, False
                how = rng.choice(['klen', 'cplen', 'cpval', 'mixed'])
                if how == 'klen':
                    q['kk'] = q['ck'] = 'list'
                    q['K'], q['cp'] = q['K'][:1] * (nr + 1), q['cp'][:1] * nr
                elif how == 'cplen':
                    q['kk'] = q['ck'] = 'list'
                    q['K'], q['cp'] = q['K'][:1] * nr, q['cp'][:1] * (nr + 2)
                elif how == 'cpval':
                    q['cp'] = [num(float(rng.choice([0, 2])))] + q['cp'][1:]
                else:
                    q['kk'], q['ck'] = ('scalar', 'list') if rng.random() < .5 else ('list', 'scalar')
                    q['K'] = q['K'][:1] * (nr if q['kk'] == 'list' else 1)
                    q['cp'] = q['cp'][:1] * (nr if q['ck'] == 'list' else 1)
        qs.append(q)
    if not qs:
        return query_case(rng)
    return dict(inp=dict(op='queries', m=m, queries=qs), req=req, tags=['queries'] + [q['op'] + (' ' + q['by'] if q['op'] == 'price' else '') + (' refused' if q['bad'] else '') for q in qs])


DESIGN = ('SPECIFICATION Spec\nCONSTANTS Deltas = {%s}\nDelays = {%s}\nMonths = {%s}\nVols = {%s}\nBetas = {%s}\nRhos = {%s}\nNus = {"0.3"}\n'
          'INVARIANTS All Tiles Whole Parity Ordered Through Within Repriced Reads\nPROPERTY Keeps\n')


def design(chk):
    chk.design('OptionletsMC', DESIGN % (('5', '2', '6', '"0.2", "0.23"', '"0.5"', '"-0.2"') if chk.quick() else
                                         ('5, 59', '0, 2', '6', '"0.2", "0.23"', '"0.5", "1"', '"-0.2"')))


def run(chk, make, n):
    cases = pmap(record, [make(chk.rng) for _ in range(n)], chunk=4)
    # the fit of a smile may be given up, with an error which says so, but not often
    lost = sum(not c['out']['ok'] and c['out']['err'] == 'ValueError' for c in cases)
    for c in cases:
        c['inp']['giveup'] = lost <= max(2, .03 * n)
    chk.validate('OptionletsTrace', cases, chunk=600)


def o01(chk):
    design(chk)
    run(chk, quote_case, chk.n(150, 2500))


def o02(chk):
    design(chk)
    run(chk, surface_case, chk.n(90, 1500))


def o03(chk):
    design(chk)
    run(chk, query_case, chk.n(110, 2500))
