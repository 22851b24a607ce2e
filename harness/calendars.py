"""Business-day calendars of currencies and locales."""
import os

import dill
import numpy as np

from harness.vlib import day, guarded, pmap


def markets():
    """The holiday data shipped with the code, by key."""
    base = os.path.join(os.environ['FRM_REPO'], 'frm', 'utils')
    out = {}
    for name in ('CCY_HOLIDAY.pkl', 'LOCALE_HOLIDAY.pkl'):
        with open(os.path.join(base, name), 'rb') as f:
            for k, h in dill.load(f).items():
                out[k] = dict(wend=sorted(w + 1 for w in h.weekend), hols=sorted(day(d) for d in h.keys()))
    return out


def b01(chk):
    chk.design('CalendarsMC', 'SPECIFICATION Spec\nCONSTANTS Wends = {{6, 7}, {5, 6}, {7}}\n Hols = {{}, {18265}, {18265, 18270}, {18271}}\n Lo = 18262\n Hi = 18276\n'
                              'INVARIANTS SameCalendar Adding Alone\n')
    data = markets()
    rng, keys = chk.rng, sorted(data)
    ccys = [k for k in keys if len(k) == 3]

    def spell(k):
        return rng.choice([k, k, k.lower(), k.upper(), k.title()])
    cases = []
    for n in range(chk.n(700, 6000)):
        form = rng.choice(['str', 'list', 'list', 'list', 'none'] if n >= len(keys) * 2 else ['str', 'list1'])
        if form == 'none':
            ks, arg = [], None
        elif form in ('str', 'list1'):
            ks = [keys[n % len(keys)] if n < len(keys) * 2 else rng.choice(keys)]
            arg = spell(ks[0]) if form == 'str' else [spell(ks[0])]
        else:
            ks = [rng.choice(rng.choice([keys, ccys])) for _ in range(rng.choice([1, 2, 2, 2, 3, 4, 6, 9]))]
            arg = [spell(k) for k in ks]
            if rng.random() < .2:
                arg.append(spell(rng.choice(ks)))
        known = True
        if rng.random() < .06:
            bad = rng.choice(['XYZ', 'AU', 'US', 'USDEUR', '', 'SYDNEY', 'AU_SYDNEY'])
            known, arg = False, bad if rng.random() < .4 else [bad] + [spell(k) for k in ks]
            ks = []
        lo = rng.randrange(day('1990-01-01'), day('2099-12-31') - 800)
        hi = lo + 800
        cases.append(dict(arg=arg, known=known, lo=lo, hi=hi, form=form,
                          markets=[dict(wend=data[k]['wend'], hols=[h for h in data[k]['hols'] if lo <= h <= hi]) for k in sorted(set(ks))]))

    from frm.utils.business_day_calendar import get_busdaycal

    def one(inp):
        arg = list(inp['arg']) if isinstance(inp['arg'], list) else inp['arg']

        def go():
            cal = get_busdaycal(arg)
            d = np.arange(inp['lo'], inp['hi'] + 1).astype('datetime64[D]')
            return [inp['lo'] + int(i) for i in np.nonzero(np.is_busday(d, busdaycal=cal))[0]]
        st, v = guarded(go)
        return dict(inp={k: v for k, v in inp.items() if k != 'arg'}, raw=inp['arg'], out=dict(ok=st == 'ok', open=v if st == 'ok' else [], err='' if st == 'ok' else v),
                    tags=[inp['form'], f"{len(inp['markets'])} markets"] + ([] if inp['known'] else ['unknown key']))
    chk.validate('CalendarsTrace', pmap(one, cases))
