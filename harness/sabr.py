"""SABR smiles: volatilities, levels and fits."""
import math

import numpy as np

from harness.vlib import guarded, num, nums, pmap

DESIGN = 'CONSTANTS Betas = {%s}\nRhos = {%s}\nNus = {%s}\nMaxUp = %d\nSPECIFICATION Spec\nINVARIANTS Positive Continuous Scales Mirror Flat Through\n'


def do(inp):
    from frm.pricing_engine import sabr as s
    f = lambda k: float(inp[k])
    if inp['op'] == 'vol':
        sm, n = inp['smiles'], len(inp['smiles'])
        col = lambda k: float(sm[0][k]) if n == 1 and inp['plain'] else np.array([float(x[k]) for x in sm])
        ks = [float(k) for k in inp['ks']]
        v = s.calc_sln_vol_for_strike_from_sabr_params(tau=col('tau'), F=col('F'), alpha=col('alpha'), beta=col('beta'), rho=col('rho'), volvol=col('nu'),
                                                       K=ks[0] if len(ks) == 1 and inp['plain'] else np.array(ks), ln_shift=f('shift') if inp['plain'] else np.array([f('shift')]))
        return dict(ok=True, scalar=isinstance(v, float), v=nums(np.atleast_1d(v)))
    kw = {} if f('shift') == 0 and inp['plain'] else dict(ln_shift=f('shift'))
    if inp['op'] == 'alpha':
        return dict(ok=True, alpha=num(s.solve_alpha_from_sln_vol(tau=f('tau'), F=f('F'), beta=f('beta'), rho=f('rho'), volvol=f('nu'), vol_sln_atm=f('v'), **kw)))
    ks, vs = np.array([float(k) for k in inp['ks']]), np.array([float(v) for v in inp['vols']])
    keep = ks.copy(), vs.copy()
    if inp['beta'] != 'none':
        kw['beta_overide'] = f('beta')
    (a, b, r, n), res = s.fit_sabr_params_to_sln_smile(tau=f('tau'), F=f('F'), K=ks, vols_sln=vs, **kw)
    return dict(ok=True, alpha=num(a), beta=num(b), rho=num(r), nu=num(n), sse=num(res.fun), untouched=bool((keep[0] == ks).all() and (keep[1] == vs).all()))


def record(case):
    st, v = guarded(lambda: do(case['inp']), seconds=60)
    return dict(inp=case['inp'], out=v if st == 'ok' else dict(ok=False, err=v), tags=case['tags'])


def rand_smile(r, shift, calm=False):
    F = r.choice([.003, .01, .035, .08]) * r.uniform(.8, 1.2)
    if shift > .005 and r.random() < .3:
        F = -r.uniform(0, .8) * shift
    beta = r.choice([0., .5, 1., r.random()])
    vol = r.uniform(.08, .6)
    nu = r.choice([.05, .2, .4, .8]) * r.uniform(.8, 1.2)
    rho = r.choice([r.uniform(-.6, .6), r.uniform(-.6, .6), r.uniform(-.75, .75)]) if calm else r.choice([0., r.uniform(-.95, .95), r.uniform(-.5, .5)])
    tau = r.choice([.1, .5, 1, 3, 10, 20]) * r.uniform(.9, 1.1)
    if calm:
        tau, nu = min(tau, 5.), min(nu, .6)
    out = dict(tau=tau, F=F, alpha=vol * (F + shift) ** (1 - beta), beta=beta, rho=rho, nu=nu)
    return {k: float(repr(round(v, 12))) for k, v in out.items()}, vol


def strike(r, m, vol, shift, w=2.):
    f = m['F'] + shift
    x = r.choice([r.uniform(-w, w), r.uniform(-w, w), r.uniform(-.05, .05), 0., 10 ** r.uniform(-9, -3) * r.choice([1, -1])])
    return m['F'] if x == 0 else f * math.exp(x * vol * math.sqrt(min(m['tau'], 4.))) - shift


SHIFTS = [0., 0., .01, .03]


def vol_case(r):
    shift = r.choice(SHIFTS)
    kind = r.choice(['one', 'strikes', 'smiles', 'both'])
    n = r.choice([2, 3, 7])
    sm = [rand_smile(r, shift) for _ in range(n if kind in ('smiles', 'both') else 1)]
    if kind == 'smiles':
        f = min(m['F'] for m, _ in sm)
        ks = [max(f, strike(r, *sm[0], shift))]
    elif kind == 'both':
        ks = [strike(r, *m, shift) for m in sm]
    else:
        ks = [strike(r, *sm[0], shift) for _ in range(n if kind == 'strikes' else 1)]
    return dict(inp=dict(op='vol', shift=num(shift), smiles=[{k: num(v) for k, v in m.items()} for m, _ in sm], ks=nums(ks), plain=r.random() < .5), tags=['volatility', kind])


def alpha_case(r):
    shift = r.choice(SHIFTS)
    while True:
        m, vol = rand_smile(r, shift)
        # the expansion is used where its correction is moderate
        d = [1 + m['tau'] * ((1 - m['beta']) ** 2 / 24 * (x * vol) ** 2 + .25 * m['rho'] * m['beta'] * m['nu'] * x * vol + (2 - 3 * m['rho'] ** 2) / 24 * m['nu'] ** 2) for x in (0, .5, 1, 1.5, 2)]
        if min(d) > .5:
            break
    return dict(inp=dict(op='alpha', shift=num(shift), v=num(vol), plain=r.random() < .5, **{k: num(v) for k, v in m.items()}), tags=['level'])


def fit_case(r):
    from harness.sabr import hagan
    shift = r.choice(SHIFTS)
    m, vol = rand_smile(r, shift, calm=True)
    n = r.choice([5, 7, 9])
    f = m['F'] + shift
    xs = sorted([0.] + [r.uniform(.2, 1.8) * s for s in ([-1, 1] * 5)[:n - 1]])
    ks = [m['F'] if x == 0 else f * math.exp(x * vol * math.sqrt(m['tau'])) - shift for x in xs]
    exact = r.random() < .7 and m['tau'] < 2
    vs = [hagan(m, shift, k) * (1 if exact else 1 + r.uniform(-.03, .03)) for k in ks]
    atms = 1
    if r.random() < .1:
        i = xs.index(0.)
        if r.random() < .5:
            ks.pop(i), vs.pop(i)
            atms = 0
        else:
            ks.append(ks[i]), vs.append(vs[i])
            atms = 2
    atm = vs[xs.index(0.)] if atms == 1 else 0
    return dict(inp=dict(op='fit', shift=num(shift), tau=num(m['tau']), F=num(m['F']), ks=nums(ks), vols=nums(vs), beta=r.choice(['none', num(m['beta']), num(m['beta'])]), exact=exact, atms=atms, atm=num(atm), plain=r.random() < .5), tags=['fit', 'exact' if exact else 'noisy'])


def hagan(m, shift, K):
    """Only to generate smiles."""
    f, k, b = m['F'] + shift, K + shift, 1 - m['beta']
    w, L = (f * k) ** (b / 2), math.log(f / k)
    z = m['nu'] / m['alpha'] * w * L
    x = 1. if abs(z) < 1e-7 else z / math.log((math.sqrt(1 - 2 * m['rho'] * z + z * z) + z - m['rho']) / (1 - m['rho']))
    return m['alpha'] * x / w / (1 + b * b / 24 * L * L + b ** 4 / 1920 * L ** 4) * (1 + m['tau'] * (b * b / 24 * m['alpha'] ** 2 / w ** 2 + .25 * m['rho'] * m['beta'] * m['nu'] * m['alpha'] / w + (2 - 3 * m['rho'] ** 2) / 24 * m['nu'] ** 2))


def design(chk):
    chk.design('SabrMC', DESIGN % (('"0", "0.5", "1"', '"-0.5", "0", "0.6"', '"0.1", "0.4"', 6) if chk.quick() else ('"0", "0.3", "0.5", "0.9", "1"', '"-0.9", "-0.5", "0", "0.3", "0.8"', '"0.01", "0.1", "0.3", "0.6"', 10)))


def a01(chk):
    design(chk)
    chk.validate('SabrTrace', pmap(record, [vol_case(chk.rng) for _ in range(chk.n(3000, 40000))]), chunk=8000)


def a02(chk):
    r = chk.rng
    design(chk)
    chk.validate('SabrTrace', pmap(record, [alpha_case(r) for _ in range(chk.n(1500, 20000))] + [fit_case(r) for _ in range(chk.n(400, 6000))]), chunk=8000)
