"""Date grids for FX exposures."""
import datetime

import numpy as np
import pandas as pd

from harness.vlib import day, guarded, pmap, ts

FREQS = ['1d', '1w', '1m', '3m', '6m', '12m']
SPAN = {'1d': 400, '1w': 1500, '1m': 2500, '3m': 5000, '6m': 7500, '12m': 12000, 'none': 3000}
DESIGN = ('SPECIFICATION Spec\nCONSTANTS Starts = {%s}\nOffsets = {%s}\nMost_ = %d\n'
          'INVARIANTS Ends Dense Day Seen Only\nPROPERTY Stable\n')


def dates(zs, how):
    if how == 'D':
        return np.array([np.datetime64(int(z), 'D') for z in zs])
    if how == 'ns':
        return np.array([ts(z).to_datetime64() for z in zs])
    if how == 'object':
        return np.array([ts(z) for z in zs], dtype=object)
    if how == 'series':
        return pd.Series([ts(z) for z in zs], index=range(7, 7 + len(zs)))
    return pd.DatetimeIndex([ts(z) for z in zs])


def record(case):
    from frm.utils.schedule import create_date_grid_for_fx_exposures as grid
    inp = case['inp']
    dels, pil = dates(case['dels'], case['how']), dates(case['pillar'], 'index')
    kw = {}
    if inp['freq'] != 'none':
        kw['sampling_freq'] = inp['freq']
    if inp['pillared']:
        kw['date_grid_pillar'] = pil
    if inp['value'] or case['full']:
        kw['payments_on_value_date_have_value'] = inp['value']
    if inp['with'] == 'last' or case['full']:
        kw['include_last_day_of_value'] = inp['with'] == 'last'
    if inp['with'] == 'after' or case['full']:
        kw['include_day_after_last_day_of_value'] = inp['with'] == 'after'
    st, v = guarded(lambda: [day(d) for d in grid(ts(inp['cd']), dels, **kw)])
    kept = [day(d) for d in dels] == case['dels'] and [day(d) for d in pil] == case['pillar']
    return dict(inp=inp, out=dict(ok=st == 'ok', x=v if st == 'ok' else [], kept=kept), tags=case['tags'])


def case(r):
    cd = r.choice([r.randint(9000, 22000), day(pd.Timestamp(r.randint(1999, 2030), r.randint(1, 12), 1)) - r.randint(1, 4), day(datetime.date(r.choice([2000, 2024, 2028]), 2, 29))])
    freq = r.choice(FREQS + ['none', 'none'])
    span = SPAN[freq]
    n = r.choice([1, 1, 2, 3, 6, 20])
    dels = [cd + r.choice([1, r.randint(1, 45), r.randint(1, span), r.randint(1, span)]) for _ in range(n)]
    if freq not in ('none', '1d', '1w') and r.random() < .4:        # a delivery on, or around, a sampling date
        dels[0] = day(ts(cd) + pd.DateOffset(months=int(freq[:-1]) * r.randint(1, 12))) + r.choice([0, 0, -1, 1])
    if n > 1 and r.random() < .4:
        dels[-1] = dels[0] + r.choice([0, 0, 1])
    pillared = freq == 'none' or r.random() < .15
    pillar = [cd + r.randint(0, span) for _ in range(r.choice([0, 1, 4, 30]))] if pillared else []
    if len(pillar) > 1 and r.random() < .5:
        pillar[1] = pillar[0]
    tags = [freq]
    if r.random() < .08:
        bad = r.choice(['freq', 'past', 'nothing'])
        tags.append('refused: ' + bad)
        if bad == 'freq':
            freq = r.choice(['2m', '1q', '', 'm', '1y', '13m', '3w'])
        elif bad == 'past':
            freq, dels = r.choice(FREQS), [cd - r.choice([0, 0, 1, 40]) for _ in range(n)]
        else:
            freq, pillared, pillar = 'none', False, []
    wth = r.choice(['none', 'none', 'last', 'last', 'after', 'after'])
    tags.append('with ' + wth)
    return dict(inp=dict(cd=cd, dels=dels, freq=freq, pillar=pillar, pillared=pillared, value=r.random() < .5, **{'with': wth}), dels=dels, pillar=pillar,
                how=r.choice(['D', 'ns', 'object', 'index', 'series']), full=r.random() < .4, tags=tags)


def s08(chk):
    chk.design('ExposureMC', DESIGN % (('19721, 19782, 19783', '1, 2, 7, 31, 92, 400', 2) if chk.quick() else ('19721, 19722, 19752, 19782, 19783, 20088', '1, 2, 7, 29, 31, 60, 92, 366, 400', 3)))
    chk.validate('ExposureTrace', pmap(record, [case(chk.rng) for _ in range(chk.n(1500, 20000))]), chunk=4000)
