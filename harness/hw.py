"""The Hull-White model of a curve: bonds, options, swaptions, simulated short rates."""
import contextlib
import io
import math

import numpy as np

from harness import curves, sched
from harness.vlib import guarded, num, nums, pmap

DESIGN = 'CONSTANTS As = {%s}\nVs = {%s}\nInterps = {"cubic_spline_on_ln_discount", "cubic_spline_on_cczr"}\nSteps = %d\nSPECIFICATION Spec\nINVARIANTS %s\n'


def vec(xs, ev):
    xs = [float(x) for x in xs]
    return xs[0] if len(xs) == 1 and ev['plain'] else np.array(xs) if not ev['aslist'] else xs


def ask(h, ev):
    op = ev['op']
    if op in ('zcb', 'let'):
        t, s, k = vec(ev['t'], ev), vec(ev['s'], ev), vec(ev['k'], ev)
        cp = ev['cp'][0] if len(ev['cp']) == 1 and ev['plain'] else np.array(ev['cp'])
        if op == 'zcb':
            v = h.price_zero_coupon_bond_option(option_expiry=t, bond_maturity=s, K=k, cp=cp)
        else:
            v = h.price_optionlet(effective_years=t, termination_years=s, K=k, cp=cp)
        return dict(ok=True, v=nums(np.atleast_1d(v)))
    if op == 'swn':
        kw = dict(swaption_expiry=float(ev['t']), coupon_payment_times=np.array([float(x) for x in ev['ss']]), coupon_year_fractions=np.array([float(x) for x in ev['ys']]),
                  notional_payment_time=float(ev['n']), fixed_rate=float(ev['q']))
        one = {} if ev['plain'] and ev['notional'] == '1.0' else dict(notional=float(ev['notional']))
        v = h.price_swaption(is_payer=ev['payer'], **kw, **one)
        w = h.price_swaption(is_payer=not ev['payer'], **kw, **one)
        return dict(ok=True, v=nums(np.atleast_1d(v)), other=nums(np.atleast_1d(w)), crit=nums(np.atleast_1d(h.jamshidian_decomposition(**kw))))
    if op == 'bond':
        t, s, r = float(ev['t']), float(ev['s']), float(ev['r'])
        a = (t, s) if t == 0 and ev['plain'] else (t, s, r)
        return dict(ok=True, one=num(h.calc_discount_factor_by_solving_ode_1(*a)), two=num(h.calc_discount_factor_by_solving_ode_2(*a)), b=num(h.calc_b(t, s)))
    if op == 'theta':
        return dict(ok=True, v=nums(np.atleast_1d(h.get_thetas(np.array([float(x) for x in ev['ts']])))))
    if op == 'fit':
        with contextlib.redirect_stdout(io.StringIO()):
            again, tried = 'none', []
            if ev['grids']:
                tried = []
                for dt in ev['dts']:
                    for n in ev['grids']:
                        h.dt, h.num = float(dt), n
                        h.setup_theta()
                        tried.append(num(h.calc_error_for_theta_fit()))
                h.fit_theta(dts=tuple(float(x) for x in ev['dts']), nums=tuple(ev['grids']))
                best = h.calc_error_for_theta_fit()
                h.setup_theta()
                again = num(best)
            err = h.calc_error_for_theta_fit(print_results=ev['plain'])
        return dict(ok=True, err=num(err), again=again, tried=tried, dt=num(h.dt))
    if op == 'sim':
        from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
        out = h.simulate(tau=float(ev['tau']), nb_steps=ev['steps'], nb_simulations=ev['sims'], flag_apply_antithetic_variates=ev['anti'], random_seed=ev['seed'],
                         **({} if ev['plain'] and ev['meth'] == 'euler' else dict(method=ev['meth'])))
        z = generate_rand_nbs(nb_steps=ev['steps'], nb_rand_vars=1, nb_simulations=ev['sims'], apply_antithetic_variates=ev['anti'], random_seed=ev['seed'])
        a = out['averages_df']
        mat = lambda x: [nums(r) for r in np.asarray(x)]
        return dict(ok=True, R=mat(out['R']), df=mat(out['sim_dsc_factor']), cc=mat(out['sim_cczr']), years=nums(out['years_grid']), avdf=nums(a['discount_factor']), avcc=nums(a['cczr']), z=mat(z[:, 0, :]))


def do(inp):
    from frm.pricing_engine.hw1f import HullWhite1Factor
    z, _ = curves.build(inp['req'])
    kw = {} if inp['dt'] == '0.0001' else dict(dt=float(inp['dt']))
    h = HullWhite1Factor(z, float(inp['model']['a']), float(inp['model']['v']), **kw)
    r0 = num(h.r0)
    h.setup_theta()
    evs = []
    for ev in inp['events']:
        st, v = guarded(lambda: ask(h, ev), seconds=60)
        evs.append(v if st == 'ok' else dict(ok=False, err=v))
    return dict(ok=True, r0=r0, events=evs)


def record(case):
    st, v = guarded(lambda: do(case['inp']), seconds=120)
    inp = {**case['inp'], 'req': {**case['inp']['req'], 'pillars': [{k: w for k, w in p.items() if k != 'text'} for p in case['inp']['req']['pillars']]}}
    return dict(inp=inp, out=v if st == 'ok' else dict(ok=False, err=v, events=[]), tags=case['tags'])


# ---------------------------------------------------------------- cases
def rand_curve(r):
    cd, n, xs, y = sched.rand_start(r), r.randint(4, 8), r.choice(['date', 'days', 'tenor', 'years']), r.choice(['df', 'zero'])
    offs = [r.randrange(60, 200)]
    while len(offs) < n:
        offs.append(offs[-1] + r.choice([90, 180, 365, 730, r.randrange(90, 500)]))
    level, slope, curl = r.choice([.001, .02, .05, -.005]), r.choice([0, .002, -.001]), r.choice([0, .01, -.01])
    rate = lambda o: level + slope * o / 365 + curl * math.exp(-o / 700) + r.uniform(-3e-4, 3e-4)
    out = []
    for k, o in enumerate(offs):
        q = rate(o)
        p = dict(q=num(q if y == 'zero' else round(math.exp(-q * o / 365.25), 12)))
        if xs == 'date':
            p['d'] = cd + o
        elif xs == 'days':
            p['n'] = o
        elif xs == 'tenor':
            p.update(t=dict(k='d', n=o, m=0), text=f'{o}d') if k % 2 or o % 7 else p.update(t=dict(k='w', n=o // 7, m=0), text=f'{o // 7}w')
        else:
            p['yrs'] = num(round(o / 365, 6))
        out.append(p)
    interp = r.choice(['cubic_spline_on_ln_discount', 'cubic_spline_on_cczr'])
    if r.random() < .2 and xs != 'tenor' and y == 'zero':
        # a quote for the curve date itself: a knot of the rates, without effect on discount factors
        out.insert(0, {'date': dict(d=cd), 'days': dict(n=0), 'years': dict(yrs='0.0')}[xs] | dict(q=num(rate(0) + (r.uniform(-.02, .02) if interp == 'cubic_spline_on_ln_discount' else 0))))
    if r.random() < .3 and xs != 'years':
        r.shuffle(out)
    req = dict(cd=cd, basis=r.choice(['act/365', 'act/360', 'act/act']), cal=curves.NOCAL, interp=interp, extrap='none', x=xs, y=y, freq=r.choice(['continuous', 'annual', 'semiannual', 'quarterly']), pillars=out, colswap=r.random() < .3)
    return req, offs[-1] / 366.5


def model(r):
    return dict(a=num(r.choice([0., .02, .1, .5, 1.5, r.uniform(.001, .3), r.uniform(.001, .3), 10 ** r.uniform(-4, -2)])), v=num(r.choice([.002, .01, .02, r.uniform(.001, .03)])))


def rnd(x):
    return num(round(x, 9))


def zcb(r, T, m, op):
    n = r.choice([1, 1, 2, 5])
    vary = [n if r.random() < .6 else 1 for _ in range(4)]
    if max(vary) < n:
        vary[r.randrange(4)] = n
    ts = [r.choice([0., r.uniform(.02, .6), r.uniform(0, .9)]) * T for _ in range(vary[0])]
    hi = max(ts)
    ss = [(ts[i] if vary[0] == vary[1] else hi) for i in range(vary[1])]
    ss = [s + r.choice([.01, .25, r.uniform(.01, 1)]) * (T - s) for s in ss]
    if op == 'zcb' and r.random() < .1:
        ss[0] = ts[0] * r.uniform(.2, .9)
    ks = [r.choice([r.uniform(.85, 1.02), 1., r.uniform(.97, 1.)]) if op == 'zcb' else r.choice([r.uniform(-.005, .08), .03, 0.]) for _ in range(vary[2])]
    return dict(op=op, t=[rnd(x) for x in ts], s=[rnd(x) for x in ss], k=[rnd(x) for x in ks], cp=[r.choice([1, -1]) for _ in range(vary[3])], plain=r.random() < .6, aslist=False)


def swn(r, T, m):
    n = r.choice([1, 1, 2, 3, 6])
    t = r.uniform(.03, .6) * T
    step = r.uniform(.3, 1) * (T - t) / (n + .5)
    ss = [t + step * (i + 1) for i in range(n)]
    ys = [step * r.uniform(.97, 1.03) for _ in range(n)]
    last = ss[-1] + (r.choice([0, 0, .2, -.2]) * step if n > 1 else r.choice([0, 0, .2]) * step)
    wrong = r.random() < .1
    if wrong:
        if n > 1 and r.random() < .7:
            ss[0], ss[1] = ss[1], ss[0] if r.random() < .5 else ss[1]
        else:
            ys = ys[:-1]
    same = last == ss[-1]
    ss, ys = [rnd(x) for x in ss], [rnd(x) for x in ys]
    return dict(op='swn', t=rnd(t), ss=ss, ys=ys, n=ss[-1] if same else rnd(last), q=rnd(r.choice([.03, r.uniform(-.005, .08), 0.])), payer=r.random() < .5, notional=num(r.choice([1., 1., 1e6])), plain=r.random() < .5, wrong=wrong)


def bond(r, T, m):
    t = r.choice([0., r.uniform(.01, .9)]) * T
    return dict(op='bond', t=rnd(t), s=rnd(t + r.choice([.05, r.uniform(.02, 1), 1]) * (T - t) + .001), r=rnd(r.uniform(-.02, .08)), plain=r.random() < .5)


def theta(r, T, m):
    return dict(op='theta', ts=[rnd(x) for x in [0.] * (r.random() < .3) + [r.uniform(0, T) for _ in range(r.randint(1, 4))]])


def sim(r, T, m):
    steps, sims = r.choice([1, 2, 5, 12]), r.choice([1, 2, 4, 5])
    return dict(op='sim', tau=rnd(T * r.uniform(.1, .95)), steps=steps, sims=sims, anti=r.random() < .5, seed=r.randrange(1, 10 ** 6), meth=r.choice(['euler', 'rk4', 'exact'] * 5 + ['milstein', 'Exact']), plain=r.random() < .5)


def fit(r, T, m):
    some = r.random() < .5
    return dict(op='fit', plain=r.random() < .2, grids=r.choice([[10, 1000], [1000, 10], [30, 200]]) if some else [], dts=[num(x) for x in r.choice([[1e-3, 1e-4], [1e-4], [1e-4, 1e-3]])])


def case(r, kinds, n):
    req, T = rand_curve(r)
    m = model(r)
    if r.random() < .06 and not set(kinds) & {sim}:
        m['v'] = '0.0'
    evs = [r.choice(kinds)(r, T, m) for _ in range(n)]
    return dict(inp=dict(req=req, model=m, dt=r.choice(['0.0001'] * 3 + ['0.001']), events=evs), tags=[req['interp'], 'reverting' if float(m['a']) else 'not reverting'] + sorted({e['op'] for e in evs}))


def design(chk, inv, steps=2):
    chk.design('HullWhiteMC', DESIGN % (('"0", "0.4"', '"0", "0.015"', steps, inv) if chk.quick() else ('"0", "0.05", "0.8"', '"0", "0.01", "0.03"', 3 * steps, inv)))


def zoption(r, T, m):
    return zcb(r, T, m, 'zcb')


def optionlet(r, T, m):
    return zcb(r, T, m, 'let')


def h01(chk):
    design(chk, 'Parity Bounds OptionIsPayoff')
    chk.validate('HullWhiteTrace', pmap(record, [case(chk.rng, [zoption, optionlet], 6) for _ in range(chk.n(600, 8000))]), chunk=4000)


def h02(chk):
    design(chk, 'SwaptionIsPayoff OnePeriod')
    chk.validate('HullWhiteTrace', pmap(record, [case(chk.rng, [swn], 2) for _ in range(chk.n(90, 1500))]), chunk=4000)


def h03(chk):
    design(chk, 'Fitted Martingale', 6)
    chk.validate('HullWhiteTrace', pmap(record, [case(chk.rng, [bond, bond, theta] + [fit] * (i % 4 == 0), 5) for i in range(chk.n(300, 4000))]), chunk=4000)


def h04(chk):
    design(chk, 'Fitted', 6)
    chk.validate('HullWhiteTrace', pmap(record, [case(chk.rng, [sim], 2) for _ in range(chk.n(400, 5000))]), chunk=4000)
