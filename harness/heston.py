"""Heston prices, calibrations and FX surfaces with Heston smiles; cosine series of characteristic functions."""
import math

import numpy as np
import pandas as pd

from harness.vlib import guarded, num, nums, pmap

METHODS = ['heston_1993', 'heston_carr_madan_gauss_kronrod_quadrature', 'heston_carr_madan_fft_w_simpsons', 'heston_cosine', 'heston_lipton']
MODEL = ['S', 'tau', 'r', 'q', 'v0', 'vv', 'kappa', 'theta', 'rho', 'lam']
DESIGN = 'CONSTANTS Nodes = %d\nTaus = {%s}\nRhos = {"-0.6", "0.3"}\nVVs = {"0.2", "0.4"}\nMaxUp = %d\nSPECIFICATION Spec\nINVARIANTS Bounds Parity Convex Martingale Scales Certain\n'
TRACE = 'CONSTANTS Nodes = 48\nSPECIFICATION TraceSpec\n'


def do(inp):
    from frm.pricing_engine import heston as h
    m = {k: float(inp[k]) for k in MODEL}
    kw = dict(S0=m['S'], tau=m['tau'], r=m['r'], q=m['q'], var0=m['v0'], vv=m['vv'], kappa=m['kappa'], theta=m['theta'], rho=m['rho'])
    if inp['op'] == 'price':
        rows, meth = inp['rows'], inp['method']
        K, cp = [float(r['K']) for r in rows], [r['cp'] for r in rows]
        if inp['direct'] and meth == 'heston_cosine':
            return dict(ok=True, x=nums(h.heston_cosine_price_vanilla_european(K=inp['arr'](K), cp=inp['arr'](cp), calculate_via_put_call_parity=False, **kw)))
        if meth == 'heston_cosine' and not inp['each']:
            return dict(ok=True, x=nums(h.heston_price_vanilla_european(K=inp['arr'](K), cp=inp['arr'](cp), lambda_=m['lam'], pricing_method=meth, **kw)))
        return dict(ok=True, x=[num(np.squeeze(h.heston_price_vanilla_european(K=k, cp=c, lambda_=m['lam'], pricing_method=meth, **kw))) for k, c in zip(K, cp)])
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta as solve
    v, d, cp = (np.array([float(q[k]) for q in inp['quotes']]) for k in ('v', 'd', 'cp'))
    keep = v.copy(), d.copy(), cp.copy()
    ks = solve(S0=m['S'], tau=m['tau'], r_d=m['r'], r_f=m['q'], vol=v, signed_delta=d, delta_convention=inp['conv'])
    kw = {} if inp['method'] == 'heston_cosine' and inp['plain'] else dict(pricing_method=inp['method'])
    v0, vv, kappa, theta, rho, lam, iv, sse = h.heston_calibrate_vanilla_smile(v, d, m['S'], m['r'], m['q'], m['tau'], cp, delta_convention=inp['conv'], **kw)
    return dict(ok=True, v0=num(v0), vv=num(vv), kappa=num(kappa), theta=num(theta), rho=num(rho), lam=num(lam), iv=nums(iv), sse=num(sse), ks=nums(ks),
                untouched=all(bool((a == b).all()) for a, b in zip(keep, (v, d, cp))))


def warm():
    """Compile the kernels once, before the workers are forked."""
    from frm.pricing_engine import heston as h
    for m in METHODS:
        guarded(lambda: h.heston_price_vanilla_european(1., .5, .02, .01, 1, 1., .01, .2, 1.5, .015, .1, 0, m))


def record(case):
    st, v = guarded(lambda: do(case['inp']), seconds=60)
    return dict(inp={k: w for k, w in case['inp'].items() if k != 'arr'}, out=v if st == 'ok' else dict(ok=False, err=v), tags=case['tags'])


def mean_var(t, v0, k, th):
    return th * t + (v0 - th) * (1 - math.exp(-k * t)) / k


def moment(k, rho, vv, p):
    a = k - rho * vv * p
    return a > 0 and vv * vv * p * (p - 1) <= a * a


def rand_model(r, feller=.3):
    while True:
        m = dict(S=r.choice([.66, 1.2, 150., 1.]) * r.uniform(.9, 1.1), tau=r.choice([.02, .08, .25, .5, 1, 2, 5]) * r.uniform(.9, 1.1), r=r.uniform(-.01, .08), q=r.uniform(-.01, .08),
                 v0=r.uniform(.04, .3) ** 2, theta=r.uniform(.04, .3) ** 2, kappa=r.choice([.3, 1.5, 3., 6.]) * r.uniform(.9, 1.1), vv=r.choice([.1, .3, .6]) * r.uniform(.9, 1.1), rho=r.uniform(-.8, .8), lam=0.)
        if 2 * m['kappa'] * m['theta'] / m['vv'] ** 2 >= feller and all(moment(m['kappa'], m['rho'], m['vv'], p) for p in (1.8, -.8)):
            return {k: float(repr(round(v, 10))) for k, v in m.items()}


def price_case(r, meth):
    direct = r.random() < .3
    m = rand_model(r, .6 if direct else .3)
    if meth == 'heston_1993' and r.random() < .4:
        m['lam'] = r.choice([.5, 1.2, -.1 * m['kappa']])
    sd = math.sqrt(mean_var(m['tau'], m['v0'], m['kappa'], m['theta']))
    n = r.choice([1, 1, 2, 5]) if meth == 'heston_cosine' else r.choice([1, 1, 2])
    rows = [dict(K=num(round(m['S'] * math.exp((m['r'] - m['q']) * m['tau'] + r.uniform(-2, 2) * sd), 8)), cp=r.choice([1, -1])) for _ in range(n)]
    if n > 1 and r.random() < .3:
        rows[1] = dict(K=rows[0]['K'], cp=-rows[0]['cp'])
    if n > 1 and r.random() < .3:
        for q in rows:
            q['cp'] = rows[0]['cp']
    return dict(inp=dict(op='price', method=meth, rows=rows, direct=direct, each=r.random() < .3, arr=r.choice([list, np.array]), **{k: num(m[k]) for k in MODEL}), tags=[meth, f'{n} options'])


def smile_case(r):
    m = rand_model(r)
    m['tau'] = r.choice([.05, .25, .5, 1., 2.])
    ds = r.choice([[.25], [.25, .1], [.3, .15], [.35, .25, .1]])
    atm, tilt, wing = r.uniform(.06, .2), r.uniform(-.15, .15), r.uniform(.01, .05)
    steep = r.random() < .25
    if steep:
        tilt, wing = r.choice([-1, 1]) * r.uniform(.35, .7), r.uniform(0, .06)
    q = lambda d, cp: dict(d=num(d * cp), cp=cp, v=num(round(atm * (1 + wing * ((.5 - d) / .4) ** 2 + .5 * cp * tilt * (.5 - d) / .4), 9)))
    quotes = [q(d, -1) for d in sorted(ds)] + [dict(d='0.5', cp=1, v=num(round(atm, 9)))] + [q(d, 1) for d in sorted(ds)[::-1]]
    flat = sum((float(x['v']) - atm) ** 2 for x in quotes)
    return dict(inp=dict(op='calib', method=r.choice(METHODS), plain=r.random() < .5, conv=r.choice(['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward']), quotes=quotes,
                         worst=num(flat), **{k: num(m[k]) for k in MODEL}), tags=['calibration', f'{len(quotes)} quotes'] + ['steep'] * steep)


def n01(chk):
    r = chk.rng
    warm()
    chk.design('HestonMC', DESIGN % ((48, '"0.1", "2"', 3) if chk.quick() else (64, '"0.05", "0.25", "1", "4"', 5)))
    cases = [price_case(r, m) for m in METHODS for _ in range(chk.n(90, 1200))]
    chk.validate('HestonTrace', pmap(record, cases), cfg=TRACE, chunk=600)


def n02(chk):
    r = chk.rng
    warm()
    chk.design('HestonMC', DESIGN % (48, '"0.5"', chk.n(2, 4)))
    chk.validate('HestonTrace', pmap(record, [smile_case(r) for _ in range(chk.n(120, 1500))], chunk=2), cfg=TRACE, chunk=400)


# ---------------------------------------------------------------- surfaces with fitted smiles
def heston_surface_case(r):
    from harness import fx
    case = fx.surface_case(r)
    i = case['inp']
    i['smile'] = r.choice(METHODS[:2] + METHODS[3:] * 2 + METHODS[2:3])
    i['events'] = [dict(e, rows=e['rows'][:2]) for e in i['events'][:3]]
    case['tags'] = case['tags'][:-1] + [i['smile']]
    if r.random() < .15:
        # wings far below the money: no model fits such a smile
        for row in i['vals']:
            atm = 1.2 * next(float(v) for c, v in zip(i['cols'], row) if c['k'] == 'atm')
            for j, c in enumerate(i['cols']):
                row[j] = num({'butterfly': -.4, 'riskreversal': .02, 'call': .6, 'put': .6}.get(c['k'], 1.) * atm)
        case['tags'].append('frown')
    return case


def n03(chk):
    from harness import fx
    r = chk.rng
    warm()
    chk.design('HestonMC', DESIGN % (48, '"0.5"', chk.n(2, 4)))
    chk.validate('HestonSurfaceTrace', pmap(fx.record, [heston_surface_case(r) for _ in range(chk.n(56, 700))], chunk=1), cfg='CONSTANTS Nodes = 48\nSPECIFICATION HTraceSpec\n', chunk=300)


# ---------------------------------------------------------------- cosine series
def do_cos(inp):
    from frm.pricing_engine import cosine_method_generic as g
    f = lambda k: float(inp[k])
    if inp['op'] == 'range':
        if inp['model'] == 'gbm':
            a, b = g.get_cos_truncation_range('geomentric_brownion_motion', f('L'), (f('mu'), f('sigma'), f('tau')))
        else:
            a, b = g.get_cos_truncation_range('heston', f('L'), dict(tau=f('tau'), mu=f('r') - f('q'), var0=f('v0'), vv=f('vv'), kappa=f('kappa'), theta=f('theta'), rho=f('rho')))
        return dict(ok=True, a=num(a), b=num(b))
    w = {k: float(v) for k, v in inp['law'].items()}
    cf = lambda u: w['p'] * np.exp(1j * u * w['m1'] - .5 * (u * w['s1']) ** 2) + (1 - w['p']) * np.exp(1j * u * w['m2'] - .5 * (u * w['s2']) ** 2)
    kw = {} if inp['plain'] else dict(N=inp['N'])
    F, cdf, pdf, mass, pts = g.cos_method(f('p'), cf, f('dt'), f('a'), f('b'), **kw)
    return dict(ok=True, F=num(F), cdf=nums(cdf), pdf=nums(pdf), mass=num(mass), pts=nums(pts))


def record_cos(case):
    st, v = guarded(lambda: do_cos(case['inp']), seconds=60)
    return dict(inp=case['inp'], out=v if st == 'ok' else dict(ok=False, err=v), tags=case['tags'])


def recover_case(r):
    s1, s2 = (r.choice([.05, 1., 20.]) * r.uniform(.8, 1.25) for _ in '12')
    s2 = s1 * r.uniform(.5, 2)
    m1 = r.choice([0, 1, -1, 100]) * s1 * r.uniform(.5, 2)
    m2 = m1 + r.uniform(-2, 2) * s1
    p = r.choice([1., .5, r.random()])
    if p == 1.:
        m2, s2 = m1, s1
    wide = r.choice([6, 6, 6, 7, 8, 9, 3])
    a, b = min(m1 - wide * s1, m2 - wide * s2), max(m1 + wide * s1, m2 + wide * s2)
    sm = min(s1, s2)
    on = r.random() < .75
    n = r.choice([300, 400, 600]) if on else r.choice([800, 1200])
    n = max(n, int((b - a) / sm * 12))
    dt = (b - a) / n * (1 if r.random() < .5 else r.uniform(.9, 1))
    x = a + r.randrange(n // 4, 3 * n // 4) * dt if on else r.uniform(a + .1 * (b - a), b - .1 * (b - a))
    if on:
        x = float(np.arange(a, b + dt, dt)[r.randrange(0, n)])
    if r.random() < .08:
        x, dt = r.choice([(a - dt, dt), (b + dt, dt), (x, -dt), (x, 0.), (x, 1.5 * (b - a))])
    top = max(p / s1, 0) + max(1 - p, 0) / s2
    return dict(inp=dict(op='recover', law=dict(p=num(p), m1=num(m1), s1=num(s1), m2=num(m2), s2=num(s2)), a=num(a), b=num(b), dt=num(dt), p=num(x), top=num(.4 * top), N=r.choice([160, 200, 256, max(20, int(3 * (b - a) / sm))]), plain=r.random() < .5 and (b - a) / sm < 40,
                         grid=on), tags=['density', 'point on the grid' if on else 'point between'])


def range_case(r):
    L = num(r.choice([6, 10, 12.5]))
    if r.random() < .3:
        return dict(inp=dict(op='range', model='gbm', L=L, mu=num(r.uniform(-.1, .1)), sigma=num(r.uniform(.01, .8)), tau=num(r.choice([.02, .5, 1, 7.3]))), tags=['range', 'gbm'])
    return dict(inp=dict(op='range', model='heston', L=L, **{k: num(v) for k, v in rand_model(r).items()}), tags=['range', 'heston'])


def n04(chk):
    r = chk.rng
    warm()
    chk.design('HestonMC', DESIGN % (48, '"0.5"', chk.n(2, 4)))
    cases = [recover_case(r) for _ in range(chk.n(250, 4000))] + [range_case(r) for _ in range(chk.n(400, 6000))]
    chk.validate('CosSeriesTrace', pmap(record_cos, cases), cfg=TRACE, chunk=1000)
