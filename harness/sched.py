"""Schedules: periods, stubs, conventions, payment dates, notionals."""
import datetime

import numpy as np
import pandas as pd

from harness.vlib import NODATE, day, guarded, num, nums, pmap, ts, MachineryError

CONVS = ['unadjusted', 'following', 'preceding', 'modifiedfollowing', 'modifiedpreceding']
FREQ = {('d', 1): 'daily', ('d', 7): 'weekly', ('d', 28): '28days', ('m', 1): 'monthly', ('m', 3): 'quarterly',
        ('m', 6): 'semiannual', ('m', 12): 'annual', ('z', 0): 'zerocoupon'}
CALS = {  # as in ScheduleMC!CalOf
    'all': dict(mask=[1] * 7, hols=[]),
    'wk': dict(mask=[1, 1, 1, 1, 1, 0, 0], hols=[]),
    'hol': dict(mask=[1, 1, 1, 1, 1, 0, 0], hols=[18262, 18263, 18320, 18321, 18322, 18351, 18352, 18382, 18383, 18384, 18385, 18386, 18412, 18413]),
    'fri': dict(mask=[1, 1, 1, 1, 0, 0, 1], hols=[18290, 18291, 18321, 18322])}
STUB = {'default': 'default', 'none': 'none', 'short': 'short', 'long': 'long'}


def busdaycal(cal):
    return np.busdaycalendar(weekmask=''.join(map(str, cal['mask'])), holidays=[np.datetime64(int(h), 'D') for h in cal['hols']])


def as_date(n, kind):
    if n == NODATE:
        return None
    t = ts(n)
    return {'ts': t, 'dt': t.to_pydatetime(), 'date': t.date(), 'np': np.datetime64(t, 'D')}[kind]


def kwargs(inp):
    from frm.enums.utils import PeriodFreq, RollConv, DayRoll, Stub
    kind = inp.get('kind', 'ts')
    if inp['dr'] == 0:
        dr = DayRoll.UNADJUSTED
    elif inp['dr'] == 32:
        dr = DayRoll.EOM
    else:
        dr = DayRoll(inp['dr'])
    return dict(start_date=as_date(inp['s'], kind), end_date=as_date(inp['e'], kind),
                freq=PeriodFreq(FREQ[(inp['unit'], inp['n'])]), roll_conv=RollConv(inp['conv']), day_roll=dr,
                first_period_end=as_date(inp['fpe'], kind), last_period_start=as_date(inp['lps'], kind),
                first_stub=Stub(STUB[inp['fs']]), last_stub=Stub(STUB[inp['ls']]),
                roll_user_specified_dates=inp['ru'], cal=busdaycal(inp['cal']))


def rows(df):
    return [[day(a), day(b)] for a, b in zip(df['period_start'], df['period_end'])]


def run_schedule(inp):
    """One recorded call: request in, rows (day numbers) out."""
    def go():
        import frm.utils.schedule as sc
        kw = kwargs(inp)
        api = inp.get('api', 'make')
        if api == 'make':
            return rows(sc.make_schedule(**kw))
        if api == 'base':
            return rows(sc.BaseSchedule(**kw).df)
        if api == 'gen':
            d1, d2 = sc.generate_date_schedule(pd.Timestamp(kw['start_date']), pd.Timestamp(kw['end_date']), kw['freq'],
                                               inp['dir'], kw['roll_conv'], kw['day_roll'],
                                               kw['roll_user_specified_dates'], kw['cal'])
            if len(d1) != len(d2):
                return [[NODATE, NODATE]]
            return [[day(a), day(b)] for a, b in zip(d1, d2)]
        raise MachineryError(api)
    st, v = guarded(go)
    return {'ok': True, 'rows': v, 'err': ''} if st == 'ok' else {'ok': False, 'rows': [], 'err': v}


def record(inp):
    return {'inp': inp, 'out': run_schedule(inp), 'tags': tags(inp)}


def tags(inp):
    t = [inp['conv'], FREQ[(inp['unit'], inp['n'])], 'api:' + inp.get('api', 'make')]
    if inp['fpe'] != NODATE and inp['lps'] != NODATE:
        t.append('both user dates')
    elif inp['fpe'] != NODATE:
        t.append('first_period_end')
    elif inp['lps'] != NODATE:
        t.append('last_period_start')
    t.append('stub %s/%s' % (inp['fs'], inp['ls']))
    if inp['ru']:
        t.append('user dates rolled')
    if inp['dr']:
        t.append('day roll EOM' if inp['dr'] == 32 else 'day roll')
    return t


def from_spec(chk, consts, label):
    """Requests enumerated by TLC from ScheduleMC together with the specification's boundaries; replayed into the code."""
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n' + '\n'.join(f' {k} = {v}' for k, v in consts.items()) + \
          '\nINVARIANTS Emitted Tiles Ordered InteriorBusiness UserDatesKept Terminates\n'
    gen = chk.generate('ScheduleMC', cfg, label=label)
    if not gen:
        raise MachineryError('no behaviour generated')
    for g in gen:
        g['inp']['cal'] = CALS[g['inp'].pop('cid')]
        g['inp']['api'] = 'make'
        g['inp']['kind'] = 'ts'
    outs = pmap(lambda g: run_schedule(g['inp']), gen)
    for g, o in zip(gen, outs):
        spec = g['out']
        case = {'inp': g['inp'], 'out': o, 'spec': spec, 'tags': tags(g['inp'])}
        for t in case['tags']:
            chk.tags[t] += 1
        chk.traces += 1
        if spec['ok'] and not o['ok']:
            chk.compare(case, False, 'accepts a valid request', label)
        elif not spec['ok'] and o['ok']:
            chk.compare(case, False, 'rejects an impossible request', label)
        elif spec['ok']:
            b = spec['b']
            chk.compare(case, o['rows'] == [[b[i], b[i + 1]] for i in range(len(b) - 1)], 'dates are those of the specification', label)
    chk.samples.append({'label': label, 'case': str(gen[len(gen) // 2])[:800]})


def rand_cal(rng, lo, hi):
    mask = rng.choice([[1, 1, 1, 1, 1, 0, 0]] * 4 + [[1, 1, 1, 1, 0, 0, 1], [1] * 7, [1, 1, 1, 1, 1, 1, 0], [0, 1, 1, 1, 1, 1, 0], [1, 0, 1, 1, 0, 0, 0]])
    hols = set()
    span = hi - lo + 80
    for _ in range(rng.choice([0, 3, 12, 30])):
        h = lo - 40 + rng.randrange(span)
        for j in range(rng.choice([1, 1, 1, 2, 4, 8])):
            hols.add(h + j)
    return dict(mask=mask, hols=sorted(hols))


MONTH_ENDS = [int(np.datetime64(d, 'D').astype(int)) for d in
              np.array([np.datetime64('1995-01', 'M') + i for i in range(700)]).astype('datetime64[D]') - 1]


def rand_start(rng):
    r = rng.random()
    if r < 0.45:
        return rng.choice(MONTH_ENDS) - rng.choice([0, 0, 0, 1, 2, 3, 27])
    if r < 0.5:
        return rng.randrange(-20000, 70000)
    return rng.randrange(9000, 30000)


def add_months(d, k):
    return day(ts(d) + pd.DateOffset(months=k))


def rand_request(rng, mode):
    """mode: plain | stub | user | conv"""
    unit, n = rng.choice([('d', 1), ('d', 7), ('d', 28), ('m', 1), ('m', 1), ('m', 3), ('m', 3), ('m', 6), ('m', 12), ('z', 0)])
    s = rand_start(rng)
    k = rng.choice([0, 0, 1, 1, 2, 3, 4, 7, 12, 20, 40])
    step = {'d': n, 'm': n * 30, 'z': 200}[unit]
    if unit == 'd' and n == 1:
        k = min(k, 20)
    if rng.random() < .03:                          # a long life
        k = min(rng.choice([60, 260, 420, 420]), 18000 // step)
    base = s + k * n if unit == 'd' else add_months(s, k * n) if unit == 'm' else s + k * 90
    if rng.random() < 0.35:
        e = base if base > s else s + 1 + rng.randrange(step)
    else:
        e = base + rng.randrange(1, max(2, step))
        if rng.random() < 0.3:
            e = day(ts(e) + pd.offsets.MonthEnd(0))
    if e <= s:
        e = s + 1
    conv = rng.choice(CONVS + ['modifiedfollowing', 'following'])
    dr = 0
    if unit == 'm' and rng.random() < (0.5 if mode == 'conv' else 0.25):
        dr = rng.choice([1, 2, 14, 15, 20, 28, 29, 30, 31, 32, 32, rng.randint(3, 27)])
    inp = dict(s=s, e=e, unit=unit, n=n, conv=conv, dr=dr, fpe=NODATE, lps=NODATE, fs='default', ls='default', ru=False,
               cal=rand_cal(rng, s, e), api=rng.choice(['make', 'make', 'base']), kind=rng.choice(['ts', 'ts', 'date', 'np', 'dt']))
    if mode == 'stub':
        inp['fs'], inp['ls'] = rng.choice(['default', 'none', 'short', 'long']), rng.choice(['default', 'none', 'short', 'long'])
        if inp['fs'] == 'none' and inp['ls'] == 'none':
            inp['ls'] = 'default'
    if mode == 'user':
        which = rng.choice(['f', 'l', 'b', 'b'])
        m = lambda x, j: x + j * n if unit == 'd' else add_months(x, j * n) if unit == 'm' else x + j * 50
        if which in 'fb':
            c = rng.choice([m(s, 1), m(s, 2), m(e, -1 - rng.randrange(k + 1)), s + rng.randrange(1, e - s + 1), e])
            inp['fpe'] = min(max(c, s + 1), e)
        if which in 'lb':
            c = rng.choice([m(e, -1), m(e, -2), m(s, 1 + rng.randrange(k + 1)), s + rng.randrange(0, e - s), s])
            inp['lps'] = max(min(c, e - 1), s)
        if which == 'f' and rng.random() < .5:
            inp['ls'] = rng.choice(['none', 'short', 'long'])
        if which == 'l' and rng.random() < .5:
            inp['fs'] = rng.choice(['none', 'short', 'long'])
    if mode == 'ragged':
        ragged(rng, inp, step)
    elif mode == 'conv' or rng.random() < 0.3:
        inp['ru'] = rng.random() < 0.6
        if inp['ru']:
            inp['api'] = 'make' if inp['api'] == 'make' else 'base'
    return inp


def ragged(rng, inp, step):
    """User dates off the regular schedule, often on days which are not business days, over a life of several periods."""
    s = inp['s']
    span = max(step, 9)
    inp['e'] = s + span * rng.randint(3, 6) + rng.randrange(span)
    inp['ru'] = rng.random() < .75
    bad = lambda z: next((x for x in range(z, z + 7) if not isbus(inp['cal'], x)), z) if rng.random() < .6 else z
    which = rng.choice('fflb')
    if which in 'fb':
        inp['fpe'] = min(bad(s + rng.randrange(4, 2 * span)), s + 2 * span)
    if which in 'lb':
        inp['lps'] = min(bad(inp['e'] - rng.randrange(4, span) - 2), inp['e'] - 3)
        if which == 'b' and inp['lps'] <= inp['fpe']:
            inp['lps'] = NODATE
    if which == 'f' and rng.random() < .4:
        inp['ls'] = rng.choice(['none', 'short', 'long'])
    if which == 'l' and rng.random() < .4:
        inp['fs'] = rng.choice(['none', 'short', 'long'])


def isbus(cal, z):
    return cal['mask'][(z + 3) % 7] == 1 and z not in cal['hols']


def rand_batch(chk, modes, count):
    reqs = []
    for i in range(count):
        mode = modes[i % len(modes)]
        inp = rand_request(chk.rng, mode)
        reqs.append(inp)
    return reqs


def degenerate(inp):
    """User dates that roll onto each other leave a zero-length period by the user's own choice: outside the property."""
    if not inp['ru'] or inp['conv'] == 'unadjusted':
        return False
    cal = busdaycal(inp['cal'])
    def r(x):
        return int(np.busday_offset(np.datetime64(int(x), 'D'), 0, roll=inp['conv'], busdaycal=cal).astype(int))
    ds = [inp['s']] + ([inp['fpe']] if inp['fpe'] not in (NODATE, inp['e']) else []) + \
         ([inp['lps']] if inp['lps'] not in (NODATE, inp['s'], inp['fpe']) else []) + [inp['e']]
    rr = [r(x) for x in ds]
    return any(b <= a for a, b in zip(rr, rr[1:]))


SMALL = dict(Starts='{18260, 18289}', Lens='{5, 29, 30, 31, 61, 100}', Freqs='{1, 7, 101, 103}',
             Convs='{"unadjusted", "following", "modifiedfollowing"}', DayRolls='{0}', FOffs='{0}', LOffs='{0}',
             Stubs1='{"default"}', Stubs2='{"default"}', RollUser='{FALSE}', Cals='{"hol"}', Dump='TRUE')


def world(**kw):
    d = dict(SMALL)
    d.update(kw)
    return d


def s01(chk):
    from_spec(chk, world(FOffs='{0, 3, 31}', LOffs='{0, 4, 30}', RollUser='{TRUE, FALSE}', Freqs='{1, 7, 101, 999}',
                         Lens='{1, 5, 31, 61}' if chk.quick() else '{1, 5, 28, 29, 30, 31, 59, 60, 61, 91, 92, 100, 122}',
                         Stubs1='{"default", "long"}', Stubs2='{"default", "long"}'), 'ScheduleMC')
    reqs = [r for r in rand_batch(chk, ['plain', 'stub', 'user', 'conv'], chk.n(3000, 40000)) if not degenerate(r)]
    chk.validate('ScheduleTrace', pmap(record, reqs))


def s02(chk):
    from_spec(chk, world(Starts='{18260, 18275, 18289, 18291, 18292}' if chk.quick() else '18255..18300',
                         Lens='{1, 20, 28, 30, 31, 59, 90, 100, 366}', Freqs='{1, 7, 28, 101, 103, 106, 112}',
                         Cals='{"hol", "wk", "all", "fri"}'), 'ScheduleMC')
    reqs = []
    for r in rand_batch(chk, ['plain'], chk.n(3000, 40000)):
        if chk.rng.random() < 0.4 and r['unit'] != 'z':
            # direct generation in an explicit direction: 'forward' is a last stub, 'backward' a first stub
            r['api'] = 'gen'
            r['dir'] = chk.rng.choice(['forward', 'backward'])
            r['fs'], r['ls'] = ('none', 'short') if r['dir'] == 'forward' else ('short', 'none')
        if not degenerate(r):
            reqs.append(r)
    chk.validate('ScheduleTrace', pmap(record, reqs))


def s03(chk):
    from_spec(chk, world(Stubs1='{"default", "none", "short", "long"}', Stubs2='{"default", "none", "short", "long"}',
                         Convs='{"modifiedfollowing"}' if chk.quick() else '{"modifiedfollowing", "unadjusted", "preceding"}',
                         FOffs='{0, 3, 29, 31}', LOffs='{0, 4, 30, 31}', Freqs='{7, 101, 103}',
                         Lens='{5, 30, 61, 62, 100}' if chk.quick() else '{5, 20, 30, 31, 61, 62, 91, 100, 150}'), 'ScheduleMC')
    reqs = [r for r in rand_batch(chk, ['stub', 'user', 'user', 'ragged'], chk.n(4000, 50000)) if not degenerate(r)]
    chk.validate('ScheduleTrace', pmap(record, reqs))


def s04(chk):
    chk.design('DatesMC', 'SPECIFICATION Spec\nCONSTANTS Lo = %d\n Hi = %d\nINVARIANTS RoundTrip Succ MonthLaw RollLaw LagLaw EomLaw\n' % chk.n((18200, 18800), (14600, 22000)))
    from_spec(chk, world(Convs='{"unadjusted", "following", "preceding", "modifiedfollowing", "modifiedpreceding"}',
                         DayRolls='{0, 1, 15, 29, 31, 32}', RollUser='{TRUE, FALSE}', Cals='{"hol", "fri"}',
                         Freqs='{1, 7, 101, 103}', Lens='{31, 61, 92}' if chk.quick() else '{3, 31, 45, 60, 61, 92, 120, 400}',
                         Stubs2='{"default", "short"}'), 'ScheduleMC')
    reqs = [r for r in rand_batch(chk, ['conv', 'conv', 'conv', 'ragged'], chk.n(4000, 50000)) if not degenerate(r)]
    chk.validate('ScheduleTrace', pmap(record, reqs))
