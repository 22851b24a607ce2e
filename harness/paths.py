"""Random draws and simulated paths (GBM, Heston, Clewlow-Strickland)."""
import itertools

import numpy as np

from harness.vlib import guarded, num, pmap

METH = {'qe': 'quadratic_exponential', 'absorb': 'euler_with_absorption_of_volatility_process', 'reflect': 'euler_with_reflection_of_volatility_process'}


def crowded(inp):
    """The shocks in a larger call, and where they are in it."""
    z = np.array(inp['z'], dtype=float)
    n = inp.get('crowd', 0)
    if not n:
        return z.copy(), slice(None)
    extra = np.random.default_rng(n).normal(.3, 1.2, size=z.shape[:2] + (n,))
    k = inp['front']
    return np.concatenate([extra[:, :, :k], z, extra[:, :, k:]], axis=2), slice(k, k + z.shape[2])


def crowd(r):
    n = r.choice([0] * 12 + [3, 130, 600, 1100, 5000])
    return dict(crowd=n, front=r.randint(0, n))


def rec(x):
    """An array as nested sequences of reals, whatever its rank."""
    a = np.asarray(x, dtype=float)
    if a.ndim == 0:
        return num(a)
    return [rec(v) for v in a]


def do(inp):
    op = inp['op']
    if op in ('draws', 'moments', 'refuse'):
        from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs as gen
        f = lambda seed: np.asarray(gen(nb_steps=inp['steps'], nb_rand_vars=inp['nvars'], nb_simulations=inp['sims'], apply_antithetic_variates=inp['anti'], random_seed=seed))
        z = f(inp['seed'])
        if op == 'moments':
            y = z[:, :, ::2] if inp['anti'] else z
            s, v, n = y.shape
            cross = [float((y[1:] * y[:-1]).mean()) if s > 1 else 0.0, float((y[:, 1:] * y[:, :-1]).mean()) if v > 1 else 0.0,
                     float((y[:, :, 1:] * y[:, :, :-1]).mean()), float((y * f(inp['seed'] + 1)[:, :, ::(2 if inp['anti'] else 1)]).mean())]
            return dict(mean=num(z.mean()), var=num((y ** 2).mean()), cross=[num(q) for q in cross], frac=num((abs(y) < 1).mean()))
        # draws that are not the mirror of another one
        y = z[:, :, list(range(0, z.shape[2] - z.shape[2] % 2, 2)) + ([z.shape[2] - 1] if z.shape[2] % 2 else [])] if inp['anti'] else z
        y = np.abs(y).flatten()
        again = f(inp['seed'])
        return dict(z=rec(z), again=rec(again), other=rec(f(inp['other'])), repeats=int(len(y) - len(set(y.tolist()))))
    if op == 'corr':
        from frm.pricing_engine.monte_carlo_generic import normal_corr
        C, z = np.array(inp['C'], dtype=float), np.array(inp['z'], dtype=float)
        if inp['cube']:
            k = len(z) // inp['cube']
            cube = np.stack([z[i * k:(i + 1) * k] for i in range(inp['cube'])], axis=2)      # [step][variable][simulation]
            y = np.asarray(normal_corr(C, cube))
            y = np.concatenate([y[:, :, i] for i in range(inp['cube'])])
        else:
            y = np.asarray(normal_corr(C, z))
        return dict(y=rec(y))
    if op == 'gbm':
        from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
        a = lambda k: np.array(inp[k], dtype=float)
        mu, s = a('mu'), a('s')
        if inp['flat']:
            mu, s = mu[:, 0], s[:, 0]
        z, mine = crowded(inp)
        return dict(x=rec(np.asarray(simulate_gbm_path(initial_px=a('x0'), drift=mu, forward_volatility=s, timestep_length=a('dt'), rand_nbs=z))[:, :, mine]))
    if op == 'heston':
        from frm.pricing_engine import heston as hs
        h = {k: float(v) for k, v in inp['h'].items()}
        z = np.array(inp['z'], dtype=float)
        kw = dict(S0=float(inp['S0']), mu=h['mu'], var0=float(inp['V0']), vv=h['eps'], kappa=h['kappa'], theta=h['theta'], rho=h['rho'], tau=float(inp['tau']), method=METH[inp['meth']])
        if inp['scalar']:
            x = np.stack([np.asarray(hs.heston_simulate_scalar(rand_nbs=z[:, :, k].copy(), **kw)) for k in range(z.shape[2])], axis=2)
        else:
            z, mine = crowded(inp)
            x = np.asarray(hs.heston_simulate(rand_nbs=z, **kw))[:, :, mine]
        return dict(x=rec(x))
    if op == 'cs':
        from frm.pricing_engine import clewlow_strickland_1_factor as cs
        old = getattr(cs, 'MAX_SIMULATIONS_PER_LOOP', None)      # a tuning constant: without it, calls are made as they are
        try:
            if inp['loop'] and old is not None:
                cs.MAX_SIMULATIONS_PER_LOOP = inp['loop'] * inp['T'] * inp['m']
            xs = []
            for r in inp['runs']:
                f = np.array([[float(i), float(v)] for i, v in enumerate(r['f'])] + [[len(r['f']) + 3.0, 9.0]] * r['extra'])
                xs.append(rec(cs.clewlow_strickland_1_factor_simulate(forward_curve=f, nb_simulations=inp['sims'], segments_per_day=inp['m'], T=inp['T'], alpha=float(r['a']), sigma=float(r['s']))))
        finally:
            if old is not None:
                cs.MAX_SIMULATIONS_PER_LOOP = old
        return dict(x=xs)


def record(case):
    st, v = guarded(lambda: do(case['inp']), 60)
    return dict(inp=case['inp'], out=dict(ok=True, **v) if st == 'ok' else dict(ok=False, err=v), tags=case['tags'])


def z3(r, a, b, n, wide=1.0):
    return [[[num(r.gauss(0, wide)) for _ in range(n)] for _ in range(b)] for _ in range(a)]


def draws_case(r):
    steps, nv = r.randint(1, 5), r.randint(1, 3)
    anti = r.random() < .6
    sims = r.randint(2 if anti else 1, 9)
    if r.random() < .08:
        steps, nv, sims = r.randint(1, 2), 1, r.randint(60, 400)
    seed = r.randint(0, 10 ** 6)
    return dict(inp=dict(op='draws', steps=steps, nvars=nv, sims=sims, anti=anti, seed=seed, other=seed + r.choice([1, 7, 10, 1000, 4096, 65536, 10 ** 5, 10 ** 6, 2 ** 24, 2 ** 31])), tags=['draws', f'antithetic={anti}', 'odd' if sims % 2 else 'even'])


def moments_case(r):
    steps, nv, anti = r.choice([(1, 1), (4, 2), (10, 1), (3, 3)]) + (r.random() < .5,)
    sims = 2 * r.randint(1000, 4000)
    return dict(inp=dict(op='moments', steps=steps, nvars=nv, sims=sims, anti=anti, seed=r.randint(0, 10 ** 6), n=(max(1, steps - 1) * max(1, nv - 1)) * (sims // 2 if anti else sims) - 10), tags=['moments'])


def refuse_case(r):
    if r.random() < .5:
        return dict(inp=dict(op='refuse', steps=r.randint(1, 9), nvars=r.randint(1, 3), sims=1, anti=True, seed=0), tags=['refuse'])
    k = r.choice(['steps', 'nvars', 'sims'])
    return dict(inp={**dict(op='refuse', steps=2, nvars=2, sims=4, anti=False, seed=0), k: r.choice([0, -1])}, tags=['refuse'])


def corr_case(r):
    d = r.choice([2, 2, 3, 4])
    A = np.array([[r.gauss(0, 1) for _ in range(d + 2)] for _ in range(d)])
    S = A @ A.T
    C = S / np.sqrt(np.outer(np.diag(S), np.diag(S)))
    if r.random() < .1:
        C = np.eye(d)
    if d == 2:
        p = r.choice([r.uniform(-.99, .99), .999, -.95])
        C = np.array([[1, p], [p, 1]])
    cube = r.choice([0, 2, 3])
    z = [[num(float(i == j)) for i in range(d)] for j in range(d)] + [[num(r.gauss(0, 1)) for _ in range(d)] for _ in range(r.randint(1, 4))]
    while cube and len(z) % cube:
        z.append([num(r.gauss(0, 1)) for _ in range(d)])
    return dict(inp=dict(op='corr', C=rec(C), z=z, cube=cube), tags=['corr', f'd={d}'])


def gbm_case(r):
    nv, n, ns = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 4, 5, 6] * 10 + [40, 130]), r.randint(1, 4)
    dt = [num(r.choice([1 / 365, .25, 1, r.uniform(.001, 2)])) for _ in range(n)]
    mk = lambda lo, hi: [[num(r.choice([0.0, r.uniform(lo, hi), r.uniform(lo, hi)])) for _ in range(nv)] for _ in range(n)]
    return dict(inp=dict(op='gbm', x0=[num(r.choice([.65, 1.1, 110., r.uniform(.1, 50)])) for _ in range(nv)], mu=mk(-.2, .2), s=mk(0, .8), dt=dt,
                         z=z3(r, n, nv, ns, min(1.5, 5 / n)), **crowd(r), flat=nv == 1 and r.random() < .7), tags=['gbm', f'underlyings={nv}', f'steps={n}'])


def heston_case(r):
    n, ns = r.choice([1, 2, 3, 4, 5, 6, 7] * 10 + [40, 130]), r.randint(1, 4)
    h = dict(mu=r.choice([0.0, r.uniform(-.1, .1)]), kappa=r.choice([.3, 1.5, r.uniform(.1, 5)]), theta=r.uniform(.004, .2), eps=r.choice([.1, .3, 1, r.uniform(.05, 1.5)]), rho=r.choice([0.0, r.uniform(-.98, .98)]))
    meth = r.choice(['qe', 'qe', 'absorb', 'reflect'])
    return dict(inp=dict(op='heston', h={k: num(v) for k, v in h.items()}, S0=num(r.choice([1., .66, 110.])), V0=num(r.choice([0.0, .04, .01, r.uniform(.001, .3)])), tau=num(r.choice([.02, .5, 1, 2, 10])),
                         z=z3(r, n, 2, ns, 1.3), **crowd(r), meth=meth, scalar=r.random() < .4), tags=['heston', meth, f'steps={n}'])


def cs_case(r):
    T, m, sims = r.randint(1, 5), r.choice([1, 1, 2, 3, 4]), r.randint(1, 9)
    if r.random() < .03:
        T, m, sims = r.randint(1, 2), 1, r.choice([120, 300])
    loop = r.choice([0, 0, 1, 2, 3, 4])
    a = num(r.choice([0.06, .5, r.uniform(.001, .9)]))
    runs = []
    for k in range(r.randint(1, 3)):
        runs.append(dict(a=a if m > 1 else num(r.choice([.06, 0.0, r.uniform(.001, .9)])), s=num(0.0 if k and r.random() < .2 else r.choice([.04, .2, r.uniform(.005, .5)])),
                         f=[num(r.uniform(20, 60)) for _ in range(T + 1)], extra=r.choice([0, 1])))
    if r.random() < .1:
        runs[0]['s'] = num(0.0)
    return dict(inp=dict(op='cs', T=T, m=m, sims=sims, loop=loop, runs=runs), tags=['cs', f'segments={m}', 'loops' if loop and loop < sims else 'one loop', f'runs={len(runs)}'])


MC = '''CONSTANTS Steps = %d
NParams = %d
Dts = {%s}
Vols = {"0", "0.04", "0.3"}
SPECIFICATION Spec
INVARIANTS NonNegative Matched EulerMean GbmMartingale CsFlat CsOne
'''


def design(chk):
    chk.design('PathsMC', MC % (chk.n(2, 3), chk.n(2, 4), chk.n('"0.25"', '"0.02", "0.25"')))


def go(chk, cases, **kw):
    chk.validate('PathsTrace', pmap(record, cases), chunk=4000, **kw)


def m01(chk):
    r = chk.rng
    design(chk)
    go(chk, [draws_case(r) for _ in range(chk.n(500, 6000))] + [moments_case(r) for _ in range(chk.n(40, 400))] + [refuse_case(r) for _ in range(20)] + [corr_case(r) for _ in range(chk.n(400, 4000))])


def m02(chk):
    r = chk.rng
    design(chk)
    go(chk, [gbm_case(r) for _ in range(chk.n(1200, 15000))])


def m03(chk):
    r = chk.rng
    design(chk)
    go(chk, [heston_case(r) for _ in range(chk.n(1000, 12000))])


def m04(chk):
    r = chk.rng
    design(chk)
    go(chk, [cs_case(r) for _ in range(chk.n(400, 5000))])
