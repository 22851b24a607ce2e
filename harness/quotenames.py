"""Names of cap/floor volatility quotes."""
import random

from harness.vlib import guarded, num, pmap

PLAIN = ['tenor', 'termination_date', 'settlement_date', 'effective_date', 'last_optionlet_expiry_date', 'term_years', 'F', 'beta', 'date', 'strike_type']
CASES = [str, str.upper, str.lower, str.title]


def q01(chk):
    ns = [5000, -5000, 10000, -10000, 1250, -1250, 100, -25, 2900, 2400, 30500, -11300, 700, 50, 5700, -300, 20000] + ([] if chk.quick() else [1, -1, 75, 999, 123456, -5, 350, 45000, -5800, 11500, 1150, 2950])
    gen = chk.generate('QuoteNamesMC', 'SPECIFICATION Spec\nCONSTANTS Above = {%s}\n Below = {%s}\nINVARIANTS OneNameEach OneMeaningEach NamesStay Emitted\n' % (
        ', '.join(str(n) for n in ns if n > 0), ', '.join(str(-n) for n in ns if n < 0)))
    from frm.term_structures import interest_rate_option_helpers as h
    rng = chk.rng
    atms = [g for g in gen if g['kind'] == 'atm']
    dist = [g for g in gen if g['kind'] == 'distance']
    strikes = [g for g in gen if g['kind'] == 'strike']
    jobs = []

    def style(g):
        return {**g, 'text': rng.choice(CASES)(g['text'])}
    for g in dist:
        jobs.append(('relative', [style(g)], [style(rng.choice(atms))], rng.sample(PLAIN, 3)))
    for g in strikes:
        jobs.append(('absolute', [style(g)], [], rng.sample(PLAIN, 3)))
    for g in atms:
        for f in CASES:
            jobs.append(('atm', [], [{**g, 'text': f(g['text'])}], rng.sample(PLAIN, 3)))
    for _ in range(chk.n(3000, 30000)):
        kind = rng.choice(['relative', 'relative', 'absolute', 'atm'])
        pool = strikes if kind == 'absolute' else dist
        pick, seen = [], set()
        for g in rng.sample(pool, rng.choice([1, 2, 5, 7])):
            if g['n'] not in seen:
                seen.add(g['n'])
                pick.append(style(g))
        k = 0 if kind == 'absolute' else rng.choice([1] * 8 + [0, 2])
        jobs.append((kind, pick, [style(g) for g in rng.sample(atms, k)], rng.sample(PLAIN, rng.choice([0, 1, 4]))))
    jobs = [j + (rng.random(),) for j in jobs]

    def one(job):
        kind, pick, at, plain, order = job
        names = [g['text'] for g in pick + at] + plain
        if len(set(names)) < len(names):
            return []
        random.Random(order).shuffle(names)
        keep = list(names)
        fn = {'relative': h.standardise_relative_quote_col_names, 'absolute': h.standardise_absolute_quote_col_names, 'atm': h.standardise_atmf_quote_col_names}[kind]
        st, v = guarded(lambda: fn(col_names=names))
        if kind != 'absolute' and len(at) != 1:
            return [] if st == 'err' and v == 'AssertionError' else [('quotes without exactly one at the money are refused', str(v))]
        if st != 'ok':
            return [('names are read', v)]
        bad = []
        want = {g['text']: g['name'] for g in (at if kind == 'atm' else pick + at)}
        new, val = (v, {}) if kind == 'atm' else v
        if dict(new) != want:
            bad.append(('each quote gets its name', str(new)))
        if kind != 'atm':
            exact = {g['name']: g['n'] / 1e6 for g in pick}
            exact.update({'atmf': 0} if kind == 'relative' else {})
            if set(val) != set(exact) or any(abs(float(val[x]) - exact[x]) > 1e-9 for x in exact):
                bad.append(('each name has its distance or strike', str(val)))
        if names != keep:
            bad.append(('the names given are left as they were', str(names)))
        return bad
    for job, bad in zip(jobs, pmap(one, jobs)):
        chk.traces += 1
        chk.tags[job[0]] += 1
        for clause, got in bad:
            chk.compare(dict(kind=job[0], names=[g['text'] for g in job[1] + job[2]] + job[3], got=got, tags=[job[0]]), False, clause, 'QuoteNamesMC')
    chk.samples.append(dict(kind=jobs[0][0], names=[g['text'] for g in jobs[0][1] + jobs[0][2]]))
