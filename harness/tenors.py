"""Tenors, FX/IR date conventions, business-day calendars."""
import unicodedata

import numpy as np
import pandas as pd

from harness import sched
from harness.vlib import NODATE, day, guarded, num, pmap, ts


# ------------------------------------------------------------------ tenors
def render(form, decor):
    """Presentation of a sequence of words."""
    sep = {'space': ' ', 'nbsp': '\u00a0', 'newline': '\n', 'slash': '/', 'crlf': '\r\n'}.get(decor, '')
    s = sep.join(form)
    if decor == 'upper':
        s = s.upper()
    elif decor == 'title':
        s = s.title()
    elif decor == 'padded':
        s = '  ' + s + ' '
    elif decor == 'fullwidth':
        s = ''.join(chr(ord(ch) + 0xFEE0) if '!' <= ch <= '~' else ch for ch in s)
    return s


def t01(chk):
    dec = '{"plain", "space", "nbsp", "newline", "slash", "crlf", "upper", "title", "padded", "fullwidth"}'
    ns = '{0, 1, 2, 10, 100}' if chk.quick() else '{0, 1, 2, 3, 6, 9, 10, 11, 12, 18, 24, 30, 52, 100}'
    ms = '{1, 6, 13, 100}' if chk.quick() else '{0, 1, 3, 6, 9, 11, 12, 13, 24, 100}'
    days = '{18262, 18290, 18291, 18320, 18321, 19722, 19782}' if chk.quick() else \
        '{18262, 18276, 18289, 18290, 18291, 18292, 18320, 18321, 18322, 18351, 18686, 19722, 19751, 19782, 20513}'
    gen = chk.generate('TenorMC', f'SPECIFICATION Spec\nCONSTANTS Ns = {ns}\n Ms = {ms}\n Decors = {dec}\n Days0 = {days}\n'
                                  'INVARIANTS Unambiguous Forward Emitted\n')
    from frm.utils.tenor import clean_tenor, tenor_to_date_offset

    def replay(g):
        text = render(g['form'], g['decor'])
        bad = []
        st, cl = guarded(lambda: clean_tenor(text))
        if g['valid']:
            if st != 'ok' or cl != g['canon']:
                return [('canonical text', text, str(cl))]
            st, again = guarded(lambda: clean_tenor(cl))
            if st != 'ok' or again != cl:
                bad.append(('cleaning is idempotent', text, str(again)))
            st, off = guarded(lambda: tenor_to_date_offset(cl))
            if st != 'ok':
                return bad + [('valid tenor is accepted', text, str(off))]
            for z, want in g['reach']:
                st, got = guarded(lambda: day(ts(z) + off))
                if got != want:
                    bad.append(('date reached', f'{ts(z).date()} + {text!r}', f'{got}, expected {want}'))
        else:
            st, off = guarded(lambda: tenor_to_date_offset(cl if st == 'ok' else text))
            if st == 'ok' or off != 'ValueError':
                bad.append(('malformed tenor is refused', text, str(off)))
        return bad
    res = pmap(replay, gen)
    for g, bad in zip(gen, res):
        chk.traces += 1
        chk.tags['tenor ' + g['k'] if g['valid'] else 'malformed'] += 1
        chk.tags['written ' + g['decor']] += 1
        for clause, what, got in bad:
            chk.compare({'form': g['form'], 'decor': g['decor'], 'input': what, 'got': got, 'tags': []}, False, clause, 'TenorMC')
    chk.samples.append(gen[len(gen) // 3])


# ------------------------------------------------------------------ FX dates
PAIRS = ['audusd', 'eurusd', 'usdjpy', 'usdcad', 'cadusd', 'usdtry', 'tryusd', 'usdphp', 'phpusd', 'usdrub', 'rubusd', 'eurgbp', 'gbpusd', 'cadjpy', 'eurtry']
CCYS = ['usd', 'cad', 'aud', 'nzd', 'jpy', 'eur', 'gbp', 'chf', 'sek', 'sgd']


def rec_fx(inp):
    from frm.utils import tenor as tn
    cal = sched.busdaycal(inp['cal'])
    bad = dict(resolve=dict(ok=False, cd=0, off=0, sd=0), rows=dict(ok=False, rows=[]), workday=dict(ok=False, days=[]), lag=dict(lag=-99))[inp['op']]

    def go():
        if inp['op'] == 'resolve':
            a, b, c = tn.resolve_fx_curve_dates(inp['pair'], cal, curve_date=None if inp['cd'] == NODATE else ts(inp['cd']),
                                                spot_offset=None if inp['off'] < 0 else inp['off'],
                                                spot_date=None if inp['sd'] == NODATE else ts(inp['sd']))
            return dict(ok=True, cd=day(a), off=int(b), sd=day(c))
        if inp['op'] == 'workday':
            ds = [ts(d) for d in inp['days']]
            arg = ds[0] if inp['single'] else pd.DatetimeIndex(ds)
            r = tn.workday(arg, inp['off'], cal)
            return dict(ok=True, days=[day(x) for x in np.atleast_1d(r)])
        if inp['op'] == 'lag':
            f = tn.get_fx_spot_day_offset if inp['what'] == 'spot' else tn.get_ir_settlement_offset
            v = f(inp['ccy'])
            return dict(lag=int(v) if v is not None else -1)
        from frm.term_structures.fx_helpers import fx_term_structure_helper, fx_forward_curve_helper
        fixname = 'fixing_date' if inp['fn'] == 'forward' else 'expiry_date'
        valname = 'fx_forward_rate' if inp['fn'] == 'forward' else 'quote'
        data = {}
        if inp['have'][0]:
            data['tenor'] = [r['text'] for r in inp['rows']]
        if inp['have'][1]:
            data[fixname] = [pd.NaT if r['fix'] == NODATE else ts(r['fix']) for r in inp['rows']]
        if inp['have'][2]:
            data['delivery_date'] = [pd.NaT if r['del'] == NODATE else ts(r['del']) for r in inp['rows']]
        data[valname] = [float(r['val']) for r in inp['rows']]
        data['id'] = [r['id'] for r in inp['rows']]
        df = pd.DataFrame(data)
        if inp['fn'] == 'forward':
            out = fx_forward_curve_helper(df, curve_date=ts(inp['cd']), spot_offset=inp['off'], cal=cal)
        else:
            out = fx_term_structure_helper(df, curve_date=ts(inp['cd']), spot_offset=inp['off'], cal=cal, rate_set_date_str=fixname)
        return dict(ok=True, rows=[{'id': int(a), 'fix': day(b), 'del': day(d), 'val': int(round(v))}
                                   for a, b, d, v in zip(out['id'], out[fixname], out['delivery_date'], out[valname])])
    st, v = guarded(go)
    return {'inp': inp, 'out': v if st == 'ok' else bad, 'tags': ['op ' + inp['op']] + inp.get('tg', [])}


TEN = ['on', 'tn', 'sp', 'sn', 'sw']
TXT = {'d': [' day', 'D', 'd'], 'w': ['W', ' weeks', 'w'], 'm': ['M', ' month', 'months', 'm'], 'y': ['Y', 'yr', ' years', 'y']}


def rand_tenor(rng):
    k = rng.choice(['on', 'tn', 'sp', 'sn', 'sw', 'd', 'w', 'w', 'm', 'm', 'm', 'y', 'y', 'ym'])
    if k in TEN:
        return dict(k=k, n=0, m=0), rng.choice([k, k.upper(), {'on': 'overnight', 'tn': 'tom next', 'sp': 'spot', 'sn': 'spot next', 'sw': 'spot week'}[k]])
    if k == 'ym':
        t = dict(k=k, n=rng.randrange(1, 5), m=rng.randrange(1, 12))
        return t, f"{t['n']}Y{t['m']}M"
    t = dict(k=k, n=rng.randrange(1, {'d': 40, 'w': 60, 'm': 40, 'y': 20}[k]), m=0)
    return t, f"{t['n']}{rng.choice(TXT[k])}"


def rand_fx(rng):
    s = sched.rand_start(rng)
    cal = sched.rand_cal(rng, s - 10, s + 40)
    cal['hols'] = sorted(set(cal['hols']))
    bd = sched.busdaycal(cal)
    bus = lambda z: int(np.busday_offset(np.datetime64(int(z), 'D'), 0, roll='following', busdaycal=bd).astype(int))
    op = rng.choice(['resolve', 'resolve', 'rows', 'rows', 'rows', 'workday', 'lag'])
    if op == 'lag':
        what = rng.choice(['spot', 'ir'])
        return dict(op=op, cal=cal, what=what, ccy=rng.choice(PAIRS if what == 'spot' else CCYS))
    if op == 'workday':
        n = rng.choice([1, 1, 4])
        return dict(op=op, cal=cal, days=[s + rng.randrange(60) for _ in range(n)], single=n == 1, off=rng.choice([0, 1, 2, 5, -1, -3]))
    if op == 'resolve':
        k = rng.choice(['c', 's', 'co', 'so', 'cs', 'cso', 'cso!'])
        pair = rng.choice(PAIRS)
        lag = rng.randrange(0, 5)
        if k == 'cso!':
            lag = rng.choice([0, 0, 1, 2, 3])
        cd = bus(s)
        sd = int(np.busday_offset(np.datetime64(cd, 'D'), lag, roll='following', busdaycal=bd).astype(int))
        if k in ('c', 'co') and rng.random() < .4:
            cd = s
        if k in ('s', 'so') and rng.random() < .4:
            sd = s
        return dict(op=op, cal=cal, pair=pair, cd=cd if 'c' in k else NODATE, sd=sd if 's' in k.replace('cs', 'cs') and k not in ('c', 'co') else NODATE,
                    off=(lag + (0 if k != 'cso!' else -lag if lag and rng.random() < .5 else rng.choice([1, 2])))  if 'o' in k else -1, tg=['resolve ' + k])
    n = rng.choice([1, 2, 5, 9])
    have = rng.choice([[1, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [1, 1, 1], [0, 1, 1]])
    rows = []
    for i in range(n):
        t, text = rand_tenor(rng)
        opts = [j for j in range(3) if have[j]]
        given = set(rng.sample(opts, rng.randrange(1, len(opts) + 1)))
        fix = s + rng.randrange(1, 800) if 1 in given else NODATE
        dl = s + rng.randrange(1, 800) if 2 in given else NODATE
        rows.append({'id': i + 1, 't': t, 'text': text if 0 in given else None, 'fix': fix, 'del': dl, 'val': rng.randrange(1, 100000)})
    fn = rng.choice(['forward', 'vol'])
    return dict(op=op, cal=cal, cd=s, off=rng.choice([0, 1, 2, 2, 3]), rows=rows, have=have, fn=fn,
                tg=['rows ' + ''.join(x for x, h in zip('tfd', have) if h)])


def t02(chk):
    chk.design('FxDatesMC', 'SPECIFICATION Spec\nCONSTANTS Lo = 18250\n Hi = %d\nINVARIANTS RT Quotes\n' % (18330 if chk.quick() else 18700))
    cases = pmap(rec_fx, [rand_fx(chk.rng) for _ in range(chk.n(3000, 40000))])
    for c in cases:
        for r in c['inp'].get('rows', []):
            r.pop('text', None)
    chk.validate('FxDatesTrace', cases)
