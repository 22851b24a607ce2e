"""Fixed and zero coupon legs and swaps of them."""
import copy

import numpy as np
import pandas as pd

from harness import curves, sched
from harness.cash import periods_of
from harness.vlib import NODATE, day, guarded, num, nums, pmap, ts

BASES = ['act/360', 'act/365', 'act/act', '30/360', '30e/360', '30e/360_isda']
MC = ('CONSTANTS LegKinds = {"fixed", "zero"}\nInterps = {%s}\nLags = {%s}\nEnds = 20225\nSPECIFICATION Spec\nINVARIANTS %s\n')


def design(chk, invs, interps=('linear_on_ln_discount',), lags=(0, 2)):
    if not chk.quick():
        interps, lags = ('linear_on_ln_discount', 'cubic_spline_on_cczr'), (0, 1, 2, 5)
    chk.design('LegsMC', MC % (', '.join('"%s"' % x for x in interps), ', '.join(map(str, lags)), invs))


# ------------------------------------------------------------------ the code under test
def schedule_of(q):
    from frm.utils import CouponSchedule
    from frm.enums import ExchangeNotionals, TimingConvention
    return CouponSchedule(**sched.kwargs(q['inp']), notional_amount=float(q['ns'][0]) if q['scalar'] else np.array(q['ns'], dtype=float),
                          exchange_notionals=ExchangeNotionals(q['exch']), notional_payment_delay=q['nlag'], coupon_payment_delay=q['clag'],
                          coupon_payment_timing=TimingConvention(q['ctiming']))


STEPS = [lambda i: i, lambda i: max(0, i - 1), lambda i: i % 2, lambda i: 0, lambda i: -i // 3] # how the rates of a leg go from period to period


def rows_of(df, rates, exch):
    out = []
    first = 1 if exch in ('start', 'both') else 0
    for i in range(len(df)):
        r = df.iloc[i]
        rate = 'nan' if i < first else num(rates[0] if len(rates) == 1 else rates[(i - first) % len(rates)])
        out.append(dict(s=day(r['period_start']), e=day(r['period_end']), n=num(r['notional']), p=num(r['notional_payment']),
                        pd=day(r['notional_payment_date']), cd=day(r['coupon_payment_date']), rate=rate))
    return out


def leg_of(q, schedule, curve):
    from frm.instruments.leg import FixedLeg, ZerocouponLeg
    from frm.enums import PayRcv, DayCountBasis, CompoundingFreq
    rate = float(q['rates'][0]) if len(q['rates']) == 1 and q['plain'] else np.array([float(x) for x in q['rates']])
    kw = dict(schedule=schedule, discount_curve=curve, pay_rcv=PayRcv(q['side']), day_count_basis=DayCountBasis(q['basis']))
    if q['kind'] == 'fixed':
        return FixedLeg(fixed_rate=rate, **kw)
    return ZerocouponLeg(zero_rate=rate, compounding_freq=CompoundingFreq(q['freq']), **kw)


def setenv(e):
    import frm.utils
    frm.utils.VALUE_DATE = ts(e['vd'])
    frm.utils.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV = bool(e['incl'])
    frm.utils.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW = bool(e['limit'])


def ask(o, legs, ev):
    op = ev['op']
    who = o if ev.get('swap') else legs[ev['leg'] - 1]
    if op in ('dirty', 'accrued', 'clean'):
        return dict(out=num({'dirty': who.calc_dirty_pv, 'accrued': who.calc_accrued_interest, 'clean': who.calc_clean_pv}[op]()))
    if op == 'table':
        df = who.schedule.df
        col = 'fixed_rate' if 'fixed_rate' in df.columns else 'zero_rate'
        return dict(cp=nums(df['coupon_payment']), np=nums(df['notional_payment']), rate=nums(df[col]), cv=nums(df['coupon_payment_pv']), nv=nums(df['notional_payment_pv']))
    if op == 'split':
        return dict(out=nums(who.get_current_non_current_split() if ev['fresh'] else who.get_current_non_current_split(calc_npv=False)))
    if op == 'buckets':
        kw = {} if ev['years'] == [1, 2, 3, 5] and ev['fresh'] else dict(buckets=tuple(ev['years']), calc_npv=ev['fresh'])
        t = who.bucket_payments(**kw)
        return dict(c=nums(t['coupon_payment']), p=nums(t['notional_payment']), t=nums(t['total_payment']))
    if op == 'par':
        if ev['swap']:
            return dict(out=num(o.par_solve_each_leg()[ev['leg'] - 1]))
        return dict(out=num(who.par_solve()))
    if op == 'target':
        if ev['swap']:
            return dict(out=num(o.target_solve_swap(float(ev['v']), ev['leg'])))
        return dict(out=num(who.target_solve(float(ev['v']))))
    raise KeyError(op)


def record(case):
    from frm.instruments.swap import Swap
    setenv(case['env'])
    st, z = guarded(lambda: curves.build(case['curve'])[0])
    ss = [schedule_of(q) for q in case['legs']] if st == 'ok' else []
    if st != 'ok':
        return None
    if case['share']:
        ss[1:] = [ss[0]] * (len(ss) - 1)
    legs_in = []
    for q, s in zip(case['legs'], ss):
        n = sum(1 for x in s.df['period_start'] if x is not pd.NaT)
        rates = q['rates'] = q['rates'][:1] if not q['vector'] else [num(round(float(q['rates'][0]) + .001 * STEPS[q.get('pat', 0)](i), 6)) for i in range(max(2, n + q['vector'] - 1))]
        shape = len(rates) in (1, n)
        legs_in.append(dict(side=q['side'], kind=q['kind'], freq=q['freq'], basis=q['basis'], rows=rows_of(s.df, rates, q['exch']), shape=shape))
    before = [s.df.copy(deep=True) for s in ss]
    held = {}

    def opened():
        held['legs'] = [leg_of(q, s, z) for q, s in zip(case['legs'], ss)]
        held['swap'] = Swap(leg1=held['legs'][0], leg2=held['legs'][1]) if len(ss) == 2 else None
        return all(a.equals(s.df) for a, s in zip(before, ss))
    st, v = guarded(opened)
    evs = [dict(op='open', ok=st == 'ok', untouched=bool(v) if st == 'ok' else True)]
    if st == 'ok':
        for ev in case['events']:
            if ev['op'] == 'set':
                setenv(ev)
                evs.append(dict(ev))
                for leg in held['legs']:
                    leg.calc_dirty_pv()
                continue
            st, v = guarded(lambda: ask(held['swap'], held['legs'], ev))
            evs.append({**ev, 'ok': st == 'ok', **(v if st == 'ok' else dict(out='nan'))})
    curve = {k: v for k, v in case['curve'].items()}
    return dict(curve=curve, legs=legs_in, env=case['env'], events=evs, tags=case['tags'], raw=case)


# ------------------------------------------------------------------ requests
def rand_leg(rng, side):
    while True:
        inp = sched.rand_request(rng, rng.choice(['plain', 'plain', 'stub', 'conv']))
        inp['api'], inp['kind'] = 'base', 'ts'
        if sched.degenerate(inp) or inp['unit'] == 'd' and inp['n'] == 1:
            continue
        per = periods_of(inp)
        if per and len(per) <= 24 and per[-1][1] - per[0][0] < 3600:
            break
    n = len(per)
    ns = [rng.choice([1, 100, 1000000])] if rng.random() < .55 else sorted((rng.randrange(50, 1000) for _ in range(n)), reverse=rng.random() < .7)
    return dict(inp=inp, per=per, ns=ns, scalar=len(ns) == 1, exch=rng.choice(['start', 'end', 'both', 'neither']), nlag=rng.choice([0, 0, 2]), clag=rng.choice([0, 0, 0, 1, 2, 2, 5, 12, 40]),
                ctiming='in_arrears' if rng.random() < .85 else 'in_advance', side=side, kind=rng.choice(['fixed', 'fixed', 'zero']), freq=rng.choice(curves.FREQS), basis=rng.choice(BASES),
                rates=[num(round(rng.choice([.0, .03, .05, .08, -.004, rng.uniform(-.01, .15)]), 6))], vector=0, pat=rng.randrange(5), plain=rng.random() < .8)


def dates_of(q):
    out = []
    for s, e in q['per']:
        out += [s, e]
    return out


def rand_vd(rng, legs):
    q = rng.choice(legs)
    ds = dates_of(q)
    if rng.random() < .6:
        return rng.choice(ds) + rng.choice([0, 0, 1, -1, 2, 3, 5, -365, -366])
    return rng.randrange(ds[0] - 40, ds[-1] + 10)


def feb_end(d):
    t = ts(d)
    return t.month == 2 and t.day >= 28


def rand_case(rng, ops, nev, swap):
    legs = [rand_leg(rng, rng.choice(['pay', 'rcv']))]
    share = False
    if swap:
        share = rng.random() < .3
        q = copy.deepcopy(legs[0]) if share else rand_leg(rng, '')
        if share:
            q.update(kind=rng.choice(['fixed', 'zero']), rates=[num(round(rng.uniform(-.01, .1), 6))], basis=rng.choice(BASES))
        q['side'] = {'pay': 'rcv', 'rcv': 'pay'}[legs[0]['side']] if rng.random() < .94 else legs[0]['side']
        legs.append(q)
    for q in legs:
        k = rng.random()
        if not q['scalar'] or k < .25:
            if k < .4:
                q['vector'] = 1
        if k > .97:
            q['vector'] = 2 if rng.random() < .7 else 0
    env = dict(vd=rand_vd(rng, legs), incl=rng.random() < .4, limit=rng.random() < .3)
    req, last, span = curves.rand_curve(rng, bases=['act/365', 'act/act', 'act/360'], xs=('days',))
    req['cal'] = curves.NOCAL
    end = max(q['per'][-1][1] for q in legs)
    req['cd'] = env['vd'] if rng.random() < .7 else min(env['vd'], min(q['per'][0][0] for q in legs)) - rng.randrange(0, 30)
    if rng.random() < .85:                 # most curves reach the last payment
        top = max(p['n'] for p in req['pillars'])
        need = end - req['cd'] + 40
        if top < need:
            f = -(-need // max(top, 1)) + 1
            for p in req['pillars']:
                p['n'] *= f
            if req['y'] == 'df':
                for p in req['pillars']:
                    p['q'] = num(float(p['q']) ** f)
    evs = []
    for _ in range(nev):
        op = rng.choice(ops)
        k = rng.randrange(len(legs)) + 1
        if op == 'set':
            e = dict(op='set', vd=env['vd'] if rng.random() < .3 else max(req['cd'], rand_vd(rng, legs)) if rng.random() < .8 else rand_vd(rng, legs), incl=rng.random() < .4, limit=rng.random() < .3)
            evs.append(e)
            continue
        ev = dict(op=op, leg=k, swap=swap and rng.random() < .5 and op in ('dirty', 'accrued', 'clean', 'par', 'target'))
        if op == 'split':
            ev['fresh'] = rng.random() < .7
        if op == 'buckets':
            ev.update(fresh=rng.random() < .7, years=rng.choice([[1, 2, 3, 5], [1], [1, 5], [2, 4, 7, 9], [1, 2, 3, 4, 5, 6]]))
        if op == 'target':
            scale = legs[k - 1]['ns'][0]
            ev['v'] = num(rng.choice([0.0, round(scale * rng.uniform(-1.5, 1.5), 4), round(scale * rng.uniform(-.2, .2), 4), scale * 1e4]))
        evs.append(ev)
    if any(q['basis'] == '30e/360_isda' for q in legs) and any(feb_end(e['vd']) for e in [env] + [e for e in evs if e['op'] == 'set']):
        return rand_case(rng, ops, nev, swap)
    # a valuation comes first: it puts the payments into the schedule
    evs = [dict(op='dirty', leg=i + 1, swap=False) for i in range(len(legs))] + evs
    tags = ['swap' if swap else 'leg'] + sorted({q['kind'] for q in legs}) + sorted({'exchange ' + q['exch'] for q in legs}) + sorted({q['side'] for q in legs}) + \
        ['value date included' if env['incl'] else 'value date excluded', req['interp'], 'shared schedule' if share else 'own schedule'] + (['rate per period'] if any(q['vector'] for q in legs) else [])
    for q in legs:
        q['per'] = None
    return dict(legs=legs, env=env, curve=req, events=evs, share=share, tags=tags)


def run(chk, ops, count, nev, swaps, **kw):
    seeds = [chk.rng.getrandbits(60) for _ in range(count)]
    import random

    def one(s):
        rng = random.Random(s)
        return record(rand_case(rng, ops, nev, rng.random() < swaps))
    chk.validate('LegsTrace', [c for c in pmap(one, seeds) if c])


def l01(chk):
    design(chk, 'Mirror Dead Linear')
    run(chk, ['dirty', 'dirty', 'table', 'set', 'clean'], chk.n(500, 5000), 6, 0.25)


def l02(chk):
    design(chk, 'Accrues Mirror')
    run(chk, ['accrued', 'accrued', 'clean', 'set', 'set', 'table'], chk.n(500, 5000), 8, 0.2)


def l03(chk):
    design(chk, 'Parts Buckets')
    run(chk, ['split', 'buckets', 'set', 'split', 'buckets', 'par'], chk.n(450, 4500), 6, 0.1)


def l04(chk):
    design(chk, 'Linear Mirror')
    run(chk, ['par', 'target', 'set', 'table', 'dirty', 'accrued'], chk.n(350, 3000), 6, 0.5)
