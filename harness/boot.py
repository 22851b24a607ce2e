"""Bootstrapping of cash deposits and futures; bank bill futures contracts."""
import datetime

import numpy as np
import pandas as pd

from harness import sched
from harness.calendars import markets
from harness.tenors import render
from harness.vlib import NODATE, day, guarded, num, pmap, ts

BASES = ['act/365', 'act/360', '30/360', 'act/act']
YB = ['act/act', 'act/365', 'act/360']


def do(inp):
    from frm.enums import DayCountBasis
    from frm.term_structures import bootstrap_helpers as bh
    rows = inp['rows']
    if inp['op'] == 'asx':
        f = dict(id=range(len(rows)), price=[float(q['price']) for q in rows])
        if inp['form'] == 'ticker':
            f['ticker'] = [q['text'] for q in rows]
        else:
            f['years'] = [q['n'] for q in rows]
            f['months'] = [{'H': 3, 'M': 6, 'U': 9, 'Z': 12}[q['code']] for q in rows]
        out = bh.futures_helper_asx_90day(pd.DataFrame(f, index=inp['index']))
        return [dict(expiry=day(r.expiry_date), settle=day(r.settlement_date), s=day(r.effective_date), e=day(r.maturity_date), fr=num(r.futures_rate)) for r in out.sort_values('id').itertuples()]
    cd = ts(inp['cd'])
    basis, yb = DayCountBasis(inp['basis']), DayCountBasis(inp['yb'])
    if inp['op'] == 'cash':
        f = dict(id=range(len(rows)), rate=[float(q['r']) for q in rows])
        if inp['dates']:
            f['effective_date'] = [ts(q['s']) for q in rows]
            f['maturity_date'] = [ts(q['e']) for q in rows]
        if not inp['dates'] or inp['both']:
            f['tenor'] = [q['text'] for q in rows]
        kw = {}
        if not inp['dates']:
            kw = dict(cal=sched.busdaycal(inp['cal']))
            kw.update(dict(settlement_date=ts(inp['sd'])) if inp['sd'] != NODATE else dict(settlement_delay=inp['lag']))
            if inp['plain']:
                del kw['cal']
        df = bh.cash_rates_quote_helper(pd.DataFrame(f, index=inp['index']), cd, basis, **kw)
        out = bh.bootstrap_cash_rates(df, cd, **({} if inp['yb'] == 'act/act' else dict(day_count_basis_years=yb)))
        if inp['again']:
            out = bh.bootstrap_cash_rates(out, cd, day_count_basis_years=yb)
    else:
        f = dict(id=range(len(rows)), effective_date=[ts(q['s']) for q in rows], maturity_date=[ts(q['e']) for q in rows])
        f[{'price': 'price', 'rate': 'futures_rate', 'forward': 'forward_rate'}[inp['quote']]] = [float(q['q']) for q in rows]
        if inp['quote'] == 'forward':
            f['price'] = 90.
        if inp['convexity']:
            f['convexity_bps'] = [float(q['cx']) for q in rows]
        base = pd.DataFrame({'maturity_date_years': [float(b['t']) for b in inp['base']], 'maturity_date_discount_factor': [float(b['df']) for b in inp['base']]})
        out = bh.bootstrap_futures(pd.DataFrame(f, index=inp['index']), cd, base, basis, **({} if inp['yb'] == 'act/act' else dict(day_count_basis_years=yb)))
    return [dict(s=day(r.effective_date), e=day(r.maturity_date), tau=num(r.period_years), ts=num(r.effective_date_years), te=num(r.maturity_date_years),
                 ds=num(r.effective_date_discount_factor), de=num(r.maturity_date_discount_factor), f=num(getattr(r, 'forward_rate', None)))
            for r in out.sort_values('id').itertuples()]


def record(case):
    st, v = guarded(lambda: do(case['inp']))
    return dict(inp=case['inp'], out=dict(ok=True, rows=v) if st == 'ok' else dict(ok=False, err=v, rows=[]), tags=case['tags'])


def nxt(cal, z):
    d = np.busday_offset(np.datetime64(int(z), 'D'), 0, roll='following', busdaycal=cal)
    return int(d.astype(int))


def perm_index(r, n):
    ix = list(range(3, 3 + n))
    r.shuffle(ix)
    return r.choice([list(range(n)), ix])


def rate(r):
    return num(round(r.choice([r.uniform(.0005, .08), r.uniform(-.01, .002), 0.0, r.uniform(.03, .05)]), 6))


def cash_case(r):
    cd = sched.rand_start(r)
    cal = sched.rand_cal(r, cd, cd + 400)
    plain = r.random() < .2
    if plain:
        cal = sched.CALS['wk']
    bc = sched.busdaycal(cal)
    cd = nxt(bc, cd) if r.random() < .9 else cd
    dates = r.random() < .35
    pool = [('d', k) for k in (2, 7, 14)] + [('w', k) for k in (1, 2, 3)] + [('m', k) for k in (1, 2, 3, 4, 5, 6, 9, 12)] + [('y', 1)]
    ts_ = [('on', 0)] + r.sample(pool, r.randint(1, 6))
    lag = r.choice([0, 1, 1, 1, 2])
    if lag == 0 and r.random() < .5:
        ts_ = ts_[1:]
    rows = [dict(t=dict(k=k, n=n, m=0), r=rate(r), text=render([str(n), r.choice({'d': ['d', 'day'], 'w': ['w', 'week'], 'm': ['m', 'month'], 'y': ['y', 'yr']}[k])] if n else [r.choice(['on', 'overnight', 'o/n'])],
                 r.choice(['plain', 'space', 'upper', 'padded']))) for k, n in ts_]
    sd = NODATE
    if r.random() < .3:
        sd = int(np.busday_offset(np.datetime64(cd, 'D'), lag, roll='following', busdaycal=bc).astype(int))
    if dates:
        # chains: each deposit starts on the curve date or at the maturity of another one
        ends, s_e = [], []
        for _ in rows:
            s = r.choice([cd] + ends) if r.random() < .95 else cd + r.randint(1, 30)
            e = s + r.choice([1, 7, 30, 61, 92, r.randint(1, 300)])
            ends.append(e)
            s_e.append((s, e))
        for q, (s, e) in zip(rows, s_e):
            q['s'], q['e'] = s, e
    r.shuffle(rows)
    return dict(inp=dict(op='cash', cd=cd, cal=cal, sd=sd, lag=lag, dates=dates, both=r.random() < .5, plain=plain, rows=rows, basis=r.choice(BASES), yb=r.choice(YB), again=r.random() < .2,
                         index=perm_index(r, len(rows))), tags=['deposits', 'dates' if dates else f'lag={lag}', 'default calendar' if plain else 'calendar'])


def distinct_ends(case, out):
    e = [o['e'] for o in out]
    return len(set(e)) == len(e)


def fut_case(r):
    cd = sched.rand_start(r)
    yb = r.choice(YB)
    n = r.randint(1, 7) if r.random() < .97 else r.randint(25, 40)
    first = r.choice([5, 20, 60, 90])
    rows, s = [], cd + first + r.randint(0, 40)
    quote, cx = r.choice(['price', 'price', 'rate', 'forward']), r.random() < .5
    for _ in range(n):
        e = s + r.choice([91, 91, 92, 90, 60, 97])
        while any(abs(q['e'] - e) < 5 for q in rows):
            e += 7
        v = r.choice([r.uniform(.001, .08), r.uniform(-.01, .01), 0.0])
        rows.append(dict(s=s, e=e, q=num(round(100 - 100 * v, 4)) if quote == 'price' else num(round(v, 7)), cx=num(r.choice([0.0, .5, 3.0, 12.5, -2.0])) if cx else '0'))
        s = s + r.choice([91, 91, 98, 84, 30, 182])
    nb, base, t, df = r.randint(2, 5), [], 0.0, 1.0
    for _ in range(nb):
        dt = r.choice([.0027, .05, .08, .25])
        t, df = t + dt * r.uniform(.9, 1.1), df * float(np.exp(-r.uniform(-.005, .08) * dt))
        base.append(dict(t=num(t), df=num(df)))
    if r.random() < .5:
        r.shuffle(base)
    r.shuffle(rows)
    return dict(inp=dict(op='futures', cd=cd, rows=rows, base=base, quote=quote, convexity=cx, basis=r.choice(BASES[:3]), yb=yb, cal=sched.CALS['wk'], index=perm_index(r, n)),
                tags=['futures', quote, 'convexity' if cx else 'no convexity'])


_SYD = []


def sydney(lo, hi):
    if not _SYD:
        _SYD.append(markets()['AU-SYDNEY'])
    m = _SYD[0]
    return dict(mask=[0 if w in m['wend'] else 1 for w in range(1, 8)], hols=[h for h in m['hols'] if lo <= h <= hi])


def asx_case(r):
    bad = r.random() < .12
    form = 'ticker' if bad or r.random() < .75 else 'columns'
    rows = []
    dg = r.choice([1, 2, 4, 0])
    for _ in range(r.choice([1, 1, 2, 4, 8])):
        digits = (dg or r.choice([1, 2, 4])) if form == 'ticker' else 4
        y = r.choice([2020 + r.randint(0, 9), 2000 + r.randint(1, 60)]) if digits > 1 else 2020 + r.randint(0, 9)
        n = y if digits == 4 else y % 100 if digits == 2 else y % 10
        code = r.choice('HMUZ')
        t = f'IR{code}{n:0{digits}d}'
        rows.append(dict(code=code, digits=digits, n=n, price=num(round(r.uniform(92, 100.5), 3)), text=r.choice([t, t, t.lower(), ' ' + t + ' '])))
    if bad:
        q = r.choice(rows)
        q['text'] = r.choice(['IRF25', 'XXM25', 'IRM', 'IRM025', 'IRM2', 'IBH24'] if False else ['IRF25', 'XXM25', 'IRM', 'IRM025', 'IBH24', 'IRM20255', 'IRN4'])
    ys = [q['n'] if q['digits'] == 4 else 2000 + q['n'] + (20 if q['digits'] == 1 else 0) for q in rows]
    lo = (datetime.date(min(ys), 1, 1) - datetime.date(1970, 1, 1)).days
    return dict(inp=dict(op='asx', form=form, bad=bad, rows=rows, cal=sydney(lo, lo + 366 * (max(ys) - min(ys) + 2)), index=perm_index(r, len(rows))),
                tags=['bank bill futures', form, 'bad code' if bad else f'digits={dg}'])


def design(chk):
    chk.design('BootstrapMC', 'CONSTANTS MaxDep = %d\nMaxFut = %d\nSPECIFICATION Spec\nINVARIANTS DepositsReprice OrderFree FuturesReprice ThroughPoints Fridays\n' % (chk.n(3, 4), chk.n(2, 3)))


def k01(chk):
    r = chk.rng
    design(chk)
    done = pmap(record, [cash_case(r) for _ in range(chk.n(900, 9000))])
    # deposits maturing on the same day have no order of their own
    done = [d for d in done if distinct_ends(d, d['out']['rows']) and (not d['inp']['dates'] or len({q['e'] for q in d['inp']['rows']}) == len(d['inp']['rows']))]
    done += pmap(record, [fut_case(r) for _ in range(chk.n(700, 7000))])
    chk.validate('BootstrapTrace', done, chunk=4000)


def k02(chk):
    r = chk.rng
    design(chk)
    chk.validate('BootstrapTrace', pmap(record, [asx_case(r) for _ in range(chk.n(1000, 10000))]), chunk=4000)
