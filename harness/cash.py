"""Notional / coupon schedule objects and day counts."""
import numpy as np
import pandas as pd

from harness import sched
from harness.vlib import NODATE, day, guarded, num, nums, pmap, ts

BASES = ['act/360', 'act/365', 'act/366', 'act/act', '30/360', '30e/360', '30e/360_isda']
NUMCOLS = {'notional', 'notional_payment', 'period_daycount', 'period_yearfrac'}


def table(df):
    cols = {}
    for name in df.columns:
        if name in ('period_start', 'period_end'):
            continue
        cols[name] = nums(df[name]) if name in NUMCOLS else [day(x) for x in df[name]]
    return {'ok': True, 'rows': sched.rows(df), 'cols': cols, 'names': [str(x) for x in df.columns]}


def run_history(case):
    from frm.utils import schedule as sc
    from frm.enums.utils import TimingConvention, ExchangeNotionals, DayCountBasis
    events = []
    holder = {}

    def build():
        r = case['req']
        kw = sched.kwargs(case['inp'])
        if r['cls'] == 'base':
            return sc.BaseSchedule(**kw)
        kw.update(notional_amount=r['nkind'](r['ns'][0]) if r['scalar'] else np.array(r['ns'], dtype=r['nkind']),
                  exchange_notionals=ExchangeNotionals(r['exch']), notional_payment_delay=r['nlag'],
                  notional_payment_timing=TimingConvention(r['ntiming']),
                  initial_notional_exchange_date=None if r['init'] == NODATE else ts(r['init']))
        if r['cls'] == 'notional':
            return sc.NotionalSchedule(**kw)
        return sc.CouponSchedule(coupon_payment_delay=r['clag'], coupon_payment_timing=TimingConvention(r['ctiming']), **kw)

    def step(ev, fn):
        st, v = guarded(lambda: (fn(), table(holder['o'].df))[1])
        events.append({**ev, **(v if st == 'ok' else {'ok': False, 'rows': [], 'cols': {}, 'names': []})})
        return st == 'ok'

    def construct():
        holder['o'] = build()
    good = step({'op': 'construct', 'req': {k: v for k, v in case['req'].items() if k not in ('scalar', 'nkind')}}, construct)
    for op in case['ops'] if good else []:
        o = holder['o']
        if op['op'] == 'payments':
            fn = lambda: o.add_payment_dates(payment_delay=op['lag'], payment_timing=TimingConvention(op['timing']), col_name=op['name'])
        elif op['op'] == 'daycounts':
            fn = lambda: o.add_period_daycount(DayCountBasis(op['basis']))
        elif op['op'] == 'yearfracs':
            fn = lambda: o.add_period_yearfrac(DayCountBasis(op['basis']))
        else:
            fn = lambda: o.make_schedule()
        if not step(op, fn):
            break
    return events


def record_history(case):
    return {'cal': case['inp']['cal'], 'conv': case['inp']['conv'], 'events': run_history(case), 'tags': case['tags'],
            'raw': {'inp': case['inp'], 'req': case['req'], 'ops': case['ops']}}


def periods_of(inp):
    """The accrual periods of the request, from the schedule function itself (decided by S01..S04)."""
    o = sched.run_schedule({**inp, 'api': 'make'})
    return o['rows'] if o['ok'] else None


def histories(chk, count, maxops, modes=('plain', 'stub', 'user', 'conv'), classes=('base', 'notional', 'coupon', 'coupon')):
    rng = chk.rng
    reqs = [sched.rand_request(rng, modes[i % len(modes)]) for i in range(count)]
    reqs = [r for r in reqs if not sched.degenerate(r)]
    pers = pmap(periods_of, reqs)
    cases = []
    for inp, per in zip(reqs, pers):
        if not per or len(per) > (60 if rng.random() < .8 else 450):
            continue
        n = len(per)
        scalar = rng.random() < 0.5
        if scalar:
            ns = [rng.choice([1, 100, 1000000])]
        else:
            prof = rng.choice(['amort', 'accrete', 'rand', 'flat'])
            ns = [rng.randrange(1, 1000) for _ in range(n)]
            if prof == 'amort':
                ns.sort(reverse=True)
            elif prof == 'accrete':
                ns.sort()
            elif prof == 'flat':
                ns = [ns[0]] * n
            if rng.random() < .25:                   # paid down to nothing, or not drawn yet
                k = rng.randint(1, max(1, n // 2))
                ns = ns[:-k] + [0] * k if rng.random() < .7 else [0] * k + ns[k:]
            scalar = n == 1 and rng.random() < .5
        cls = rng.choice(classes)
        exch = rng.choice(['start', 'end', 'both', 'neither'])
        init = NODATE if rng.random() < .7 else per[0][0] - rng.randrange(0, 5)
        lagset = [0, 0, 0, 1, 2, 5]
        req = dict(cls=cls, exch=exch, ns=ns, scalar=scalar, ntiming=rng.choice(['in_arrears', 'in_arrears', 'in_advance']),
                   ctiming=rng.choice(['in_arrears', 'in_arrears', 'in_advance']), nlag=rng.choice(lagset), clag=rng.choice(lagset + [-1]),
                   init=init, periods=per, nkind=rng.choice([float, float, int]))
        ops = []
        for _ in range(rng.randrange(maxops + 1)):
            k = rng.random()
            if k < .4:
                ops.append(dict(op='payments', name=rng.choice(['payment_date', 'fixing_date', 'coupon_payment_date' if cls == 'coupon' else 'payment_date']),
                                timing=rng.choice(['in_arrears', 'in_advance']), lag=rng.choice([0, 0, 1, 2, 3, -2])))
            elif k < .68:
                ops.append(dict(op='daycounts', basis=rng.choice(BASES)))
            elif k < .96:
                ops.append(dict(op='yearfracs', basis=rng.choice(BASES)))
            elif cls == 'base' and not inp['ru']:
                ops.append(dict(op='rebuild'))
        cases.append(dict(inp={**inp, 'api': 'base'}, req=req, ops=ops,
                          tags=[cls, 'exchange ' + exch, 'one notional' if len(ns) == 1 else 'notional per period', inp['conv'], 'ops:%d' % len(ops)]))
    return cases


MC = 'SPECIFICATION Spec\nCONSTANTS MaxOps = %d\nINVARIANTS Rect Cons PayBus\nPROPERTY Frame\n'


def s05(chk):
    chk.design('CashflowsMC', MC % (1 if chk.quick() else 3))
    chk.validate('CashflowsTrace', pmap(record_history, histories(chk, chk.n(2500, 25000), 3, classes=('base', 'coupon', 'notional'))))


def s06(chk):
    chk.design('CashflowsMC', MC % (1 if chk.quick() else 3))
    chk.validate('CashflowsTrace', pmap(record_history, histories(chk, chk.n(3000, 30000), 1, classes=('notional', 'coupon'))))


def s07(chk):
    chk.design('CashflowsMC', MC % (2 if chk.quick() else 3))
    chk.validate('CashflowsTrace', pmap(record_history, histories(chk, chk.n(2000, 20000), 8)))


# ------------------------------------------------------------------ day counts
def mk(kind, ds):
    if kind == 'ts':
        return ts(ds[0])
    if kind == 'np':
        return np.datetime64(int(ds[0]), 'D')
    if kind == 'date':
        return ts(ds[0]).date()
    if kind == 'dt':
        return ts(ds[0]).to_pydatetime()
    if kind == 'series':
        return pd.Series([ts(d) for d in ds])
    if kind == 'series_idx':
        return pd.Series([ts(d) for d in ds], index=range(5, 5 + len(ds)))
    if kind == 'series_mix':                         # labels in another order than the rows
        return pd.Series([ts(d) for d in ds], index=[(7 * i + 3) % len(ds) if len(ds) % 7 else len(ds) - i for i in range(len(ds))])
    if kind == 'list':
        return [ts(d) for d in ds]
    return pd.DatetimeIndex([ts(d) for d in ds])


def record_dc(inp):
    from frm.utils.daycount import day_count, year_frac
    from frm.enums.utils import DayCountBasis
    t = inp['term']
    flag = None if t == ['default'] else t == ['true'] if len(t) == 1 and t[0] in ('true', 'false') else [x == 'true' for x in t]

    def go():
        a, b, basis = mk(inp['ks'], inp['s']), mk(inp['ke'], inp['e']), DayCountBasis(inp['basis'])
        d = day_count(a, b, basis, flag)
        y = year_frac(a, b, basis, flag)
        sc = np.ndim(d) == 0 and np.ndim(y) == 0
        return {'ok': True, 'scalar': bool(sc), 'days': nums(np.atleast_1d(np.asarray(d))), 'years': nums(np.atleast_1d(np.asarray(y)))}
    st, v = guarded(go)
    out = v if st == 'ok' else {'ok': False, 'scalar': False, 'days': [], 'years': []}
    return {'inp': inp, 'out': out, 'tags': [inp['basis'], inp['ks'] + '/' + inp['ke'], 'n=1' if max(len(inp['s']), len(inp['e'])) == 1 else 'vector',
                                             'termination ' + (t[0] if len(t) == 1 else 'vector')]}


def rand_dates(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            d = rng.choice(sched.MONTH_ENDS) + rng.choice([0, 0, -1, -2, 1])
        elif r < 0.5:
            y = rng.choice([1996, 2000, 2004, 2019, 2020, 2023, 2024, 2028, 2100, 1900, 2200])
            d = day(pd.Timestamp(y, 2, 28)) + rng.choice([0, 1, 2])
        elif r < 0.65:
            d = day(pd.Timestamp(rng.randrange(1995, 2060), 1, 1)) + rng.choice([-1, 0, 1])
        else:
            d = rng.randrange(9000, 33000) if r < .95 else rng.randrange(-25000, 84000)
        out.append(d)
    return out


def rand_dc(rng):
    n = rng.choice([1, 1, 2, 3, 8, 20] * 8 + [150])
    basis = rng.choice(BASES)
    s = rand_dates(rng, n)
    e = rand_dates(rng, n)
    if rng.random() < 0.3:
        e = [x + rng.choice([0, 1, 30, 31, 90, 181, 365, 366]) for x in s]
    s, e = zip(*[(min(a, b), max(a, b)) for a, b in zip(s, e)])
    s, e = list(s), list(e)
    if max(e) - min(s) > 100000:            # longer than a nanosecond Timedelta can be (292 years)
        return rand_dc(rng)
    if n > 1 and rng.random() < .15:
        # several periods with one end, whole or twice the last of February
        last = max(e) if rng.random() < .5 else next(d for d in range(max(e), max(e) + 2000) if str(np.datetime64(d + 1, 'D'))[5:] == '03-01')
        for j in rng.sample(range(n), rng.randint(1, n)) + [n - 1]:
            e[j] = last
    shape = rng.choice(['both', 'both', 'one_s', 'one_e']) if n > 1 else 'both'
    if shape == 'one_s':
        s = [min(s)]
    if shape == 'one_e':
        e = [max(e)]
    if rng.random() < 0.04:
        j = rng.randrange(min(len(s), len(e)))
        s[j], e[j] = e[j] + 1, s[j]
    sk, vk = ['ts', 'np', 'date', 'dt'], ['series', 'list', 'dti', 'series_idx', 'series_mix']
    ks = rng.choice(sk + (vk if n == 1 else [])) if len(s) == 1 else rng.choice(vk)
    ke = rng.choice(sk + (vk if n == 1 else [])) if len(e) == 1 else rng.choice(vk)
    N = max(len(s), len(e))
    term = rng.choice([['default'], ['default'], ['default'], ['true'], ['false'], [rng.choice(['true', 'false']) for _ in range(N)]])
    return dict(basis=basis, s=s, e=e, ks=ks, ke=ke, term=term)


DCMC = '''SPECIFICATION Spec
CONSTANTS Lo = %d
 Hi = %d
 Lens = {%s}
 Dump = %s
INVARIANTS WholeYears Nonneg Monotone Zero Additive ActActAdditive ThirtyBound IsdaAgrees %s
'''
LENS = [0, 1, 2, 27, 28, 29, 30, 31, 59, 60, 61, 89, 90, 91, 92, 181, 182, 184, 364, 365, 366, 367, 730, 731, 1461, 3652]


def d01(chk):
    """Every start date of a leap/non-leap window x period lengths, generated by TLC and replayed, then random vectors."""
    lo, hi = (18255, 18330) if chk.quick() else (17890, 19150)
    out = chk.generate('DayCountMC', DCMC % (lo, hi, ','.join(map(str, LENS)), 'TRUE', 'Emitted'))
    from frm.utils.daycount import day_count, year_frac
    from frm.enums.utils import DayCountBasis

    def replay(g):
        bad = []
        for b in BASES:
            for i, term in enumerate([True, False]):
                st, v = guarded(lambda: (day_count(ts(g['s']), ts(g['e']), DayCountBasis(b), term), year_frac(ts(g['s']), ts(g['e']), DayCountBasis(b), term)))
                want = g['y'][b][i]
                if st != 'ok' or v[0] != g['d'][b][i] or not abs(v[1] - want[0] / want[1]) <= 1e-12:
                    bad.append((b, term, str(v)))
        return bad
    res = pmap(replay, out)
    for g, bad in zip(out, res):
        chk.traces += 1
        for b, term, v in bad:
            chk.compare({'s': g['s'], 'e': g['e'], 'basis': b, 'term': term, 'got': v, 'tags': [b]}, False, 'day count and year fraction', 'DayCountMC')
    chk.validate('DayCountTrace', pmap(record_dc, [rand_dc(chk.rng) for _ in range(chk.n(4000, 60000))]))
