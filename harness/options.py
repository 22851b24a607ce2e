"""European option pricing, greeks, strikes from deltas, implied and converted volatilities."""
import math

import numpy as np
import pandas as pd

from harness.vlib import guarded, num, nums, pmap


def vlen(rows, key, how):
    """A column of the rows in one of its accepted forms; one value for all rows is given as a scalar."""
    xs = [float(r[key]) for r in rows]
    if how == 'scalar':
        return xs[0]
    return {'list': list, 'array': np.array, 'series': lambda v: pd.Series(v).values, 'one': lambda v: np.array(v[:1])}[how](xs)


def columns(res, n):
    cols = {}
    for k in ('price', 'intrinsic', 'time'):
        if k in res:
            cols[k] = nums(np.atleast_1d(res[k]))
    for k, p in (('analytical_greeks', 'a_'), ('numerical_greeks', 'n_')):
        if k in res:
            for c in res[k].columns:
                cols[p + c] = nums(res[k][c])
    return cols


def call(inp):
    from frm.pricing_engine import black76_bachelier as bb, garman_kohlhagen as gk, volatility_generic as vg
    rows, how, op = inp['rows'], inp['how'], inp['op']
    g = lambda k: vlen(rows, k, how.get(k, 'array'))
    flags = {k: True for k in inp.get('flags', [])}
    if op == 'gk':
        kw = dict(S0=g('S'), tau=g('tau'), r_d=g('rd'), r_f=g('rf'), cp=g('cp'), K=g('K'), vol=g('v'))
        if rows[0]['F'] != 'none':
            kw['F'] = g('F')
        return columns(gk.garman_kohlhagen_price(**kw, **flags), len(rows))
    if op == 'b76':
        return columns(bb.black76_price(F=g('F'), tau=g('tau'), cp=g('cp'), K=g('K'), vol_sln=g('v'), ln_shift=g('sh'), annuity_factor=g('ann'), **flags), len(rows))
    if op == 'bach':
        return columns(bb.bachelier_price(F=g('F'), tau=g('tau'), cp=g('cp'), K=g('K'), vol_n=g('v'), annuity_factor=g('ann'), **flags), len(rows))
    r = {k: (float(v) if v != 'none' else None) for k, v in rows[0].items()}
    if op == 'strike':
        kw = dict(S0=r['S'], tau=r['tau'], r_d=r['rd'], r_f=r['rf'], vol=g('v'), signed_delta=g('d'), delta_convention=inp['conv'])
        if r['F'] is not None:
            kw['F'] = r['F']
        if inp['atm'] != 'forward' or inp['explicit']:
            kw['atm_delta_convention'] = inp['atm']
        return dict(K=nums(np.atleast_1d(gk.garman_kohlhagen_solve_strike_from_delta(**kw))))
    if op == 'gkvol':
        v = gk.garman_kohlhagen_solve_implied_vol(S0=r['S'], tau=r['tau'], r_d=r['rd'], r_f=r['rf'], cp=int(r['cp']), K=r['K'], X=float(inp['X']), vol_guess=float(inp['guess']))
    elif op in ('b76vol', 'unattainable') and inp['model'] == 'b76':
        v = bb.black76_solve_implied_vol(F=g('F'), tau=g('tau'), cp=g('cp'), K=g('K'), ln_shift=g('sh'), X=float(inp['X']), annuity_factor=g('ann'), **inp['guess'])
    elif op in ('bachvol', 'unattainable'):
        v = bb.bachelier_solve_implied_vol(F=g('F'), tau=g('tau'), cp=g('cp'), K=g('K'), X=float(inp['X']), annuity_factor=g('ann'), **inp['guess'])
    elif op == 'b2n':
        v = bb.black76_sln_to_normal_vol(F=r['F'], tau=r['tau'], K=r['K'], vol_sln=r['v'], ln_shift=r['sh'])
    elif op == 'approx':
        v = bb.black76_sln_to_normal_vol_analytical(F=r['F'], tau=r['tau'], K=r['K'], vol_sln=r['v'], ln_shift=r['sh'])
    elif op == 'n2b':
        v = bb.normal_vol_to_black76_sln(F=r['F'], tau=r['tau'], K=r['K'], vol_n=r['v'], ln_shift=r['sh'])
    elif op == 'shift':
        v = bb.shift_black76_vol(F=r['F'], tau=r['tau'], K=r['K'], vol_sln=r['v'], from_ln_shift=r['sh'], to_ln_shift=float(inp['to']))
    elif op == 'fwdvol':
        v = vg.forward_volatility(g('t1'), g('v1'), g('t2'), g('v2'))
    elif op == 'flat':
        v = vg.flat_forward_interp(g('t1'), g('v1'), g('t2'), g('v2'), g('t'))
    return dict(vol=nums(np.atleast_1d(v).flatten()))


def record(case):
    inp = case['inp']
    st, v = guarded(lambda: call(inp))
    return dict(inp={k: w for k, w in inp.items() if k not in ('how', 'guess')}, out=dict(ok=True, cols=v) if st == 'ok' else dict(ok=False, err=v, cols={}),
                tags=case['tags'], raw=inp)


# ------------------------------------------------------------------ inputs
def ncdf(x):
    return .5 * math.erfc(-x / math.sqrt(2))


def ln_value(cp, f, k, s):
    d1 = math.log(f / k) / s + s / 2
    return cp * (f * ncdf(cp * d1) - k * ncdf(cp * (d1 - s)))


def n_value(cp, f, k, s):
    d = (f - k) / s
    return cp * (f - k) * ncdf(cp * d) + s * math.exp(-d * d / 2) / math.sqrt(2 * math.pi)


def fx_rows(rng, n, common, fwd, expired=True):
    S = rng.choice([.65, 1.1, 1.3, 7.2, 110., 1400., .0069, .00072])
    base = dict(S=S, tau=rng.choice([.01, .1, .25, 1, 2, 5, 10, rng.uniform(.01, 12)]), rd=rng.uniform(-.02, .12), rf=rng.uniform(-.02, .12))
    if rng.random() < .1:
        base['rd'] = base['rf']
    if rng.random() < .1:
        base['rd'] = base['rf'] = 0.0
    basis = rng.uniform(-.03, .03)
    rows = []
    for _ in range(n):
        m = dict(base)
        for k in common:
            if k == 'S':
                m['S'] = S * rng.uniform(.8, 1.25)
            elif k == 'tau':
                m['tau'] = rng.choice([.02, .25, 1, 3, rng.uniform(.01, 12)] + ([0.0] if expired else []))
            elif k == 'rd':
                m['rd'] = rng.uniform(-.02, .12)
            elif k == 'rf':
                m['rf'] = rng.uniform(-.02, .12)
        m['v'] = rng.choice([.05, .1, .2, rng.uniform(.02, .9)])
        m['cp'] = rng.choice([1, -1])
        f = m['S'] * math.exp((m['rd'] - m['rf'] + (basis if fwd else 0)) * m['tau'])
        z = rng.choice([0, rng.uniform(-1, 1), rng.uniform(-3, 3)])
        m['K'] = f if z == 0 and rng.random() < .5 else f * math.exp(z * m['v'] * math.sqrt(m['tau'] or 1))
        if m['tau'] == 0 and rng.random() < .2:
            m['K'] = m['S']
        m['F'] = f if fwd else 'none'
        rows.append(m)
    return rows


def srow(m):
    return {k: (v if k == 'cp' or v == 'none' else num(v)) for k, v in m.items()}


def forms(rng, common, always, n):
    how = {}
    for k in always:
        how[k] = rng.choice(['list', 'array', 'series']) if n > 1 or rng.random() < .5 else 'scalar'
    for k in common:
        how[k] = how.get(k) or (rng.choice(['array', 'array', 'list']))
    return how


WANT = {'gk': dict(analytical_greeks=['a_spot_delta', 'a_forward_delta', 'a_vega', 'a_theta', 'a_gamma', 'a_rho'],
                   numerical_greeks=['n_spot_delta', 'n_forward_delta', 'n_vega', 'n_theta', 'n_gamma', 'n_rho'], intrinsic_time_split=['intrinsic', 'time']),
        'b76': dict(analytical_greeks=['a_delta', 'a_vega'], numerical_greeks=['n_delta', 'n_vega'], intrinsic_time_split=['intrinsic', 'time']),
        'bach': dict(analytical_greeks=['a_delta', 'a_vega', 'a_theta'], intrinsic_time_split=['intrinsic', 'time'])}


def gk_case(rng, flags):
    n = rng.choice([1, 1, 2, 3, 6] * 8 + [40, 250])
    fwd = rng.random() < .35
    greeks = any('greeks' in f for f in flags)
    common = [k for k in ('S', 'tau', 'rd', 'rf') if n > 1 and rng.random() < .5]
    rows = fx_rows(rng, n, common, fwd, expired=not greeks)
    how = {k: 'scalar' if k not in common else rng.choice(['array', 'list']) for k in ('S', 'tau', 'rd', 'rf')}
    for k in ('cp', 'K', 'v'):
        how[k] = 'scalar' if n == 1 and rng.random() < .5 else rng.choice(['array', 'list'])
    if n == 1 and not greeks and rng.random() < .15:
        rows[0]['tau'] = 0.0
    how['F'] = 'scalar' if n == 1 else 'array'
    want = sum((WANT['gk'][f] for f in flags), ['price'])
    if fwd:
        want = [w for w in want if w != 'n_theta']
    if 'numerical_greeks' in flags:
        for m in rows:
            m['v'] = max(m['v'], .03)
    return dict(inp=dict(op='gk', rows=[srow(m) for m in rows], how=how, flags=flags, want=want, scale=num(rows[0]['S']), drop=['n_theta'] if fwd else []),
                tags=['gk', 'market forward' if fwd else 'parity forward'] + flags)


def rate_rows(rng, n, common, model, expired=True):
    base = dict(F=rng.choice([.0005, .02, .045, rng.uniform(.001, .09), 1.2, 95.]), tau=rng.choice([.02, .25, 1, 5, 20, rng.uniform(.01, 25)]))
    ann = rng.choice([1.0, .2431, rng.uniform(.01, 9)])
    sh = rng.choice([0, 0, .01, .02, .03]) if model == 'b76' and base['F'] < .5 else 0.0
    rows = []
    for _ in range(n):
        b = dict(base)
        if 'F' in common:
            b['F'] = base['F'] * rng.uniform(.7, 1.4)
            b['tau'] = rng.choice([.02, .25, 1, 5, rng.uniform(.01, 25)] + ([0.0] if expired else []))
        b['ann'] = rng.uniform(.01, 9) if 'ann' in common else ann
        b['sh'] = sh
        if model == 'bach' and rng.random() < .2 and base['F'] < .5 and 'F' in common:
            b['F'] = -b['F']
        b['cp'] = rng.choice([1, -1])
        z = rng.choice([0, rng.uniform(-1, 1), rng.uniform(-3, 3)])
        if model == 'b76':
            b['v'] = rng.choice([.2, rng.uniform(.02, 1.2)])
            b['K'] = b['F'] if z == 0 else (b['F'] + sh) * math.exp(z * b['v'] * math.sqrt(b['tau'] or 1)) - sh
        else:
            b['v'] = abs(base['F']) * rng.uniform(.02, 1) if base['F'] > .5 else rng.uniform(.001, .02)
            b['K'] = b['F'] if z == 0 else b['F'] + z * b['v'] * math.sqrt(b['tau'] or 1)
        rows.append(b)
    return rows


def rate_case(rng, model, flags):
    n = rng.choice([1, 1, 2, 3, 6] * 8 + [40, 250])
    greeks = any('greeks' in f for f in flags)
    common = [k for k in ('F', 'ann') if n > 1 and rng.random() < .5]
    rows = rate_rows(rng, n, common, model, expired=not greeks)
    if n == 1 and not greeks and rng.random() < .15:
        rows[0]['tau'] = 0.0
    vec = lambda: rng.choice(['array', 'list'])
    how = dict(F=vec() if 'F' in common else 'scalar', tau=vec() if 'F' in common else 'scalar', ann=vec() if 'ann' in common else 'scalar', sh='scalar')
    for k in ('cp', 'K', 'v'):
        how[k] = 'scalar' if n == 1 and rng.random() < .5 else vec()
    if 'numerical_greeks' in flags:
        for b in rows:
            b['v'] = max(b['v'], .03)
    return dict(inp=dict(op=model, rows=[srow(b) for b in rows], how=how, flags=[f for f in flags if f in WANT[model]],
                         want=sum((WANT[model].get(f, []) for f in flags), ['price']), scale=num(abs(rows[0]['F']) * max(1, rows[0]['ann']))), tags=[model] + flags)


def strike_case(rng):
    n = rng.choice([1, 2, 5, 5, 3])
    fwd = rng.random() < .4
    m = fx_rows(rng, 1, [], fwd)[0]
    m['tau'] = max(.003, min(m['tau'], 5))
    conv = rng.choice(['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward'])
    atm = rng.choice(['forward', 'forward', 'per_delta_convention'])
    if fwd:
        m['F'] = m['S'] * math.exp((m['rd'] - m['rf'] + rng.uniform(-.02, .02)) * m['tau'])
    spot = math.exp(-m['rf'] * m['tau']) if conv.endswith('spot') else 1.
    rows = []
    f = m['F'] if fwd else m['S'] * math.exp((m['rd'] - m['rf']) * m['tau'])
    while len(rows) < n:
        r = dict(m)
        r['v'] = rng.choice([.08, .12, rng.uniform(.03, .5)])
        d = rng.choice([.5, .5, .25, .1, .05, rng.uniform(.02, .49)])
        cp = rng.choice([1, -1])
        s = r['v'] * math.sqrt(r['tau'])
        if d >= .97 * spot or s > .8:
            continue
        if conv.startswith('premium') and cp == 1 and d != .5:
            best = max(spot * x * ncdf(-math.log(x) / s - s / 2) for x in (math.exp(z * s) for z in [i / 10 - 4 for i in range(81)]))
            if d > best * .97:
                continue
        r['cp'], r['d'] = cp, cp * d
        del r['K']
        rows.append(r)
    how = dict(v='scalar' if n == 1 and rng.random() < .5 else rng.choice(['array', 'list']))
    how['d'] = how['v']
    return dict(inp=dict(op='strike', rows=[srow(r) for r in rows], how=how, conv=conv, atm=atm, explicit=rng.random() < .5, want=['K'], scale=num(m['S'])), tags=[conv, 'atm ' + atm])


def gkvol_case(rng):
    m = fx_rows(rng, 1, [], False, expired=False)[0]
    m['tau'] = max(.02, min(m['tau'], 5))
    m['v'] = rng.choice([rng.uniform(.03, .8), rng.uniform(.03, .8), rng.uniform(.8, 1.9)])
    f = m['S'] * math.exp((m['rd'] - m['rf']) * m['tau'])
    s = m['v'] * math.sqrt(m['tau'])
    m['K'] = f * math.exp(rng.uniform(-2.5, 2.5) * s)
    A, B = m['S'] * math.exp(-m['rf'] * m['tau']), m['K'] * math.exp(-m['rd'] * m['tau'])
    x = math.exp(-m['rd'] * m['tau']) * ln_value(m['cp'], f, m['K'], s)
    lo, hi = max(0, m['cp'] * (A - B)), A if m['cp'] == 1 else B
    tag = 'attainable'
    k = rng.random()
    if k < .06:
        x, tag = hi * rng.choice([1.02, 1.5]), 'above the bound'
    elif k < .12 and lo > .02 * m['S']:
        x, tag = lo - .01 * m['S'], 'below the bound'
    return dict(inp=dict(op='gkvol', rows=[srow(m)], how={}, X=num(x), guess=num(rng.choice([.1, m['v'], .05, .4])), want=['vol'], scale=num(m['S'])), tags=['gkvol', tag])


def ratevol_case(rng, model):
    n = rng.choice([1, 1, 2, 4])
    b = rate_rows(rng, 1, [], model, expired=False)[0]
    if b['F'] > .5 and model == 'bach':
        b['F'] = .03
    b['v'] = rng.uniform(.05, 1) if model == 'b76' and rng.random() < .85 else rng.uniform(1, 8) * min(1, .5 / math.sqrt(b['tau'])) if model == 'b76' else rng.uniform(.001, .02)
    b['cp'] = rng.choice([1, -1])
    rows, total = [], 0
    for _ in range(n):
        r = dict(b)
        if n > 1:
            r['F'] *= rng.uniform(.8, 1.2)
            r['tau'] *= rng.uniform(.5, 1.5)
            r['ann'] = rng.uniform(.2, 4)
        s = r['v'] * math.sqrt(r['tau'])
        z = rng.uniform(-2, 2)
        if n > 1 and rows:
            r['K'] = rows[0]['K']
        elif model == 'b76':
            r['K'] = (r['F'] + r['sh']) * math.exp(z * s) - r['sh']
        else:
            r['K'] = r['F'] + z * s
        total += r['ann'] * (ln_value(r['cp'], r['F'] + r['sh'], r['K'] + r['sh'], s) if model == 'b76' else n_value(r['cp'], r['F'], r['K'], s))
        rows.append(r)
    if total < 1e-9:
        return ratevol_case(rng, model)
    op, x = model + 'vol', total
    if rng.random() < .06:
        hi = sum(r['ann'] * (((r['F'] + r['sh']) if r['cp'] == 1 else (r['K'] + r['sh'])) if model == 'b76' else 1e6) for r in rows)
        lo = sum(r['ann'] * max(0, r['cp'] * (r['F'] - r['K'])) for r in rows)
        if model == 'b76' and rng.random() < .5:
            op, x = 'unattainable', hi * 1.1
        elif lo > 0:
            op, x = 'unattainable', lo * .9
    how = {k: 'array' if n > 1 else rng.choice(['scalar', 'array']) for k in ('F', 'tau', 'ann')}
    how['tau'] = how['F']
    how.update(cp='scalar', K='scalar', sh='scalar')
    g = rng.choice([{}, {'vol_sln_guess' if model == 'b76' else 'vol_n_guess': rng.choice([.05, .3] if model == 'b76' else [.003, .02])}])
    return dict(inp=dict(op=op, model=model, rows=[srow(r) for r in rows], how=how, X=num(x), guess=g, want=['vol'], scale='1.0'), tags=[op, model])


def conv_case(rng):
    op = rng.choice(['b2n', 'n2b', 'shift', 'approx'])
    F, tau, sh = rng.uniform(.005, .08), rng.choice([.05, .25, 1, 2, 5, 10, 20]), rng.choice([0, .01, .02, .03])
    v = rng.uniform(.1, .6)
    s = v * math.sqrt(tau)
    atm = rng.random() < .12
    K = F if atm else (F + sh) * math.exp(rng.uniform(-2, 2) * s) - sh
    r = dict(F=F, tau=tau, K=K, v=v, sh=sh, cp=1, ann=1.0)
    inp = dict(op=op, how={}, want=['vol'], scale='1.0', to='0.0', X='0.0')
    if op == 'approx':
        if s > .5:
            return conv_case(rng)
        from scipy.optimize import brentq
        cp = 1 if K >= F else -1
        p = ln_value(cp, F + sh, K + sh, s)
        inp['X'] = num(brentq(lambda x: n_value(cp, F, K, x * math.sqrt(tau)) - p, 1e-6, 1, xtol=1e-14))
    if op == 'b2n' or op == 'approx':
        pass
    elif op == 'n2b':
        r['v'] = v * (F + sh) * rng.uniform(.7, 1.1)
        s2 = r['v'] * math.sqrt(tau)
        if not atm:
            r['K'] = F + rng.uniform(-2, 2) * s2
        if r['K'] + sh < .002 or s2 > .6 * (F + sh):
            return conv_case(rng)
    else:
        to = rng.choice([0, .01, .02, .03, .04])
        if r['K'] + to < .002 or F + to < .002 or abs(math.log((F + to) / (K + to))) > 3.5:
            return conv_case(rng)
        p = ln_value(1 if K >= F else -1, F + sh, K + sh, s)
        if p > .5 * min(F + to, K + to):
            return conv_case(rng)
        inp['to'] = num(to)
        # a volatility in the supported range must exist
        cp = 1 if K >= F else -1
        q = lambda x: ln_value(cp, F + to, K + to, x * math.sqrt(tau))
        if not (q(.002) < p * .99 and p * 1.01 < q(9.9)):
            return conv_case(rng)
    inp['rows'] = [srow(r)]
    cp = 1 if r['K'] >= r['F'] else -1
    value = n_value(cp, F, r['K'], r['v'] * math.sqrt(tau)) if op == 'n2b' else ln_value(cp, F + sh, r['K'] + sh, s)
    if value < 1e-7:
        return conv_case(rng)
    return dict(inp=inp, tags=[op, 'at the money' if atm else 'off the money'])


def time_case(rng):
    op = rng.choice(['fwdvol', 'flat'])
    n = rng.choice([1, 1, 2, 5] * 10 + [60, 300])
    rows = []
    bad = op == 'fwdvol' and rng.random() < .15
    for _ in range(n):
        t1 = rng.choice([0.0, .1, 1, rng.uniform(.01, 5)]) if op == 'fwdvol' else rng.uniform(.01, 5)
        t2 = t1 + rng.choice([.01, .5, 1, rng.uniform(.01, 5)])
        v1 = rng.uniform(.03, .6)
        v2 = math.sqrt((v1 * v1 * t1 + rng.choice([0.0001, .2, rng.uniform(.001, .6)]) ** 2 * (t2 - t1)) / t2)
        if rng.random() < .1:
            t2 = t1 = max(t1, .1)
            v2 = v1 if op == 'flat' else v2
        t = rng.choice([t1, t2, rng.uniform(t1, t2), rng.uniform(t1, t2), t1 * .7, t2 * 1.3])
        rows.append(dict(t1=t1, v1=v1, t2=t2, v2=v2, t=t))
    if bad:
        r = rng.choice(rows)
        if rng.random() < .4:
            r['t2'], r['v2'] = r['t1'] + .5, math.sqrt((r['v1'] ** 2 * r['t1'] - 10 ** rng.uniform(-8, -3.1)) / (r['t1'] + .5)) if r['v1'] ** 2 * r['t1'] > .001 else .0001
            if r['t1'] == 0:
                r['t1'], r['v1'] = 1., .3
        elif rng.random() < .5:
            r['t2'] = r['t1'] - .01
        else:
            r['t1'], r['t2'], r['v1'], r['v2'] = 1., 1.5, .3, .2
    how = {k: 'scalar' if n == 1 and rng.random() < .5 else 'array' for k in ('t1',)}
    how = {k: how['t1'] for k in ('t1', 'v1', 't2', 'v2', 't')}
    return dict(inp=dict(op=op, rows=[srow(r) for r in rows], how=how, want=['vol'], scale='1.0'), tags=[op, 'refused' if bad else 'valid'])


MC = ('SPECIFICATION Spec\nCONSTANTS Strikes = {%s}\n Vols = {"0.1", "0.3"}\n Taus = {"0.25", "2"}\n Rates = {"0.03", "-0.01"}\n Shifts = {"0", "0.4"}\n MaxMoves = %d\n'
      'INVARIANTS Parity Bounds SameAsForward Greeks Bach Atm PremiumAdjusted Variance\n')


def design(chk):
    chk.design('OptionsMC', MC % (chk.n('"1.1", "1.3"', '"0.9", "1.1", "1.3"'), chk.n(1, 3)))


def go(chk, cases, label=None):
    out = pmap(record, cases)
    for c in out:
        for k in c['inp'].pop('drop', []):
            c['out']['cols'].pop(k, None)
    chk.validate('OptionsTrace', out, label=label, chunk=6000)


def g01(chk):
    design(chk)
    r = chk.rng
    go(chk, [gk_case(r, [f for f in ('intrinsic_time_split',) if r.random() < .7]) for _ in range(chk.n(2500, 30000))])


def g02(chk):
    design(chk)
    r = chk.rng
    cases = []
    for _ in range(chk.n(700, 10000)):
        f = r.choice([['analytical_greeks'], ['numerical_greeks'], ['analytical_greeks', 'numerical_greeks'], ['analytical_greeks', 'intrinsic_time_split']])
        cases.append(gk_case(r, f))
        cases.append(rate_case(r, 'b76', f))
        if f != ['numerical_greeks']:
            cases.append(rate_case(r, 'bach', [x for x in f if x != 'numerical_greeks']))
    go(chk, cases)


def g03(chk):
    design(chk)
    r = chk.rng
    go(chk, [strike_case(r) for _ in range(chk.n(2000, 20000))])


def g04(chk):
    design(chk)
    r = chk.rng
    n = chk.n(500, 5000)
    go(chk, [gkvol_case(r) for _ in range(n)] + [ratevol_case(r, 'b76') for _ in range(n)] + [ratevol_case(r, 'bach') for _ in range(n)] + [conv_case(r) for _ in range(2 * n)])


def g05(chk):
    design(chk)
    r = chk.rng
    go(chk, [rate_case(r, r.choice(['b76', 'bach']), [f for f in ('intrinsic_time_split',) if r.random() < .7]) for _ in range(chk.n(2500, 30000))])


def v01(chk):
    design(chk)
    r = chk.rng
    go(chk, [time_case(r) for _ in range(chk.n(2500, 30000))])
