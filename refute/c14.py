from .lib import *


def gen(rng, n):
    kind = rng.choice(['dyn', 'ada', 'sta', 'fit'])
    K = size(rng, 1, 4, 8)
    signs = [rng.choice(['<=', '!=']) for _ in range(K)]
    val = lambda: rng.choice([0, 0.0, -1.5, -2, 1, 2.5, 0.25, -0.25, 3, rng.uniform(-5, 5)])
    c = {'kind': kind, 'signs': signs, 'calls': [], 'cut': sorted(rng.sample([0.5, 1.0, 2.0, 3.5, 4.0], rng.randint(0, 3)))}
    for _ in range(rng.randint(1, 4)):
        v = [val() for _ in range(K)]
        if rng.random() < .3:
            v = [-abs(x) if s == '<=' else 0 for x, s in zip(v, signs)]
        c['calls'].append([v, rng.randint(0, 5), rng.random() < .5])
    c['par'] = [rng.choice([1, 0.5, 3]), rng.choice([0.5, 1, 2]), rng.choice([2, 1, 1.5]), rng.choice([2, 1, 3, 1.5])]
    c['bad'] = rng.choice([None, None, None, 'sign', 'count'])
    c['badsign'] = rng.choice(['>=', '==', '<', 'optimise', '', '=<', '>'])
    c['coef'] = [[rng.choice([1, 2, 0.5, 10, 3]) for _ in range(6)] for _ in range(K)]
    c['grow'] = [rng.randrange(K), rng.choice([0.5, 1, 1e-3])]
    c['best'] = rng.random() < .5
    c['pen'] = rng.choice(['dyn', 'ada', 'sta'])
    return c


def viol(s, v):
    return abs(v) if s == '!=' else max(0, v)


def pkind(case):
    return case.get('pen', 'dyn') if case['kind'] == 'fit' else case['kind']


def build(case):
    import baumeva.ga as ga
    K = len(case['signs'])
    kind, par = pkind(case), case['par']
    b = [0] + case['cut'] + [1000]
    iv = [(b[i], b[i + 1]) for i in range(len(b) - 1)]
    if kind == 'dyn':
        return ga.DynamicPenalty(delta=par[0], c=par[1], alpha=par[2], betta=par[3]), iv
    if kind == 'ada':
        return ga.AdaptivePenalty(delta=par[0], betta_1=1.1 + par[1], betta_2=1.2 + par[2] * 2, betta=par[3]), iv
    eq = {i: list(iv) for i in range(K) if case['signs'][i] == '!='}
    ne = {i: list(iv) for i in range(K) if case['signs'][i] == '<='}
    co = lambda t: {i: [x * (1 if t == '!=' else 7) for x in case['coef'][i][:len(iv)]] for i in range(K) if case['signs'][i] == t}
    return ga.StaticPenalty(eq, co('!='), ne, co('<=')), iv


def call(p, case, signs, v, it, feas):
    if pkind(case) == 'dyn':
        return p.execute(list(signs), list(v), iter_generation=it)
    if pkind(case) == 'ada':
        return p.execute(conditionals=list(signs), values=list(v), iter_generation=it, best_individ={'feasible': feas} if it or case['best'] else None)
    return p.execute(conditionals=list(signs), values=list(v))


def check(case):
    import baumeva.ga as ga
    p, iv = build(case)
    signs = case['signs']
    K = len(signs)
    if case['kind'] == 'fit':
        return fit(case, p, iv)
    bounds = {x for t in iv for x in t} - {0}
    for v, it, feas in case['calls']:
        vs = [viol(s, x) for s, x in zip(signs, v)]
        if case['kind'] == 'sta' and any(x in bounds for x in vs):
            continue
        r = call(p, case, signs, v, it, feas)
        ok = all(x == 0 for x in vs)
        if case['kind'] == 'sta':
            e = 0
            for i, (s, x) in enumerate(zip(signs, vs)):
                if x > 0:
                    k = next(j for j, (a, b) in enumerate(iv) if a < x < b)
                    e += (case['coef'][i][k] * (1 if s == '!=' else 7) * x) ** 2
            need(close(r, e), 'static penalty of %s %s is %r, expected %r', signs, v, r, e)
            continue
        need(r >= 0, 'penalty %r is negative for %s %s', r, signs, v)
        if ok:
            need(r == 0, 'feasible values %s %s are penalised with %r', signs, v, r)
        elif it >= 1:
            need(r > 0, 'violation %s %s is not penalised in generation %d', signs, v, it)
        if it >= 1:
            i, d = case['grow']
            w = list(v)
            w[i] = vs[i] + d if signs[i] == '<=' or v[i] >= 0 else v[i] - d
            r2 = call(p, case, signs, w, it, feas)
            need(r2 > r, 'the penalty does not grow with violation %d: %s %s -> %s gives %r -> %r', i, signs, v, w, r, r2)
            need(call(p, case, signs, v, it, feas) == r, 'the penalty depends on earlier calls')
    v, it, feas = case['calls'][0]
    if case['kind'] == 'sta' and any(viol(s, x) in bounds for s, x in zip(signs, v)):
        v = [-1 if s == '<=' else 0 for s in signs]
    if case['bad'] == 'sign':
        s2 = list(signs)
        s2[case['grow'][0]] = case['badsign']
        rejected(lambda: call(p, case, s2, v, it, feas), 'unknown sign %r' % case['badsign'])
    if case['bad'] == 'count':
        rejected(lambda: call(p, case, signs, v + [0], it, feas), 'more values than conditions')
        rejected(lambda: call(p, case, signs, v[:-1], it, feas), 'fewer values than conditions')


def rejected(f, what):
    try:
        f()
    except Exception:
        return
    need(False, '%s accepted', what)


def fit(case, p, iv):
    import baumeva.ga as ga
    signs = case['signs']
    bounds = {x for t in iv for x in t} - {0}
    if pkind(case) == 'sta' and any(viol(s, x) in bounds for v, _, _ in case['calls'] for s, x in zip(signs, v)):
        return
    at = case['grow'][0]
    conds = list(signs)
    conds.insert(at, 'optimize')
    rows = [{'genotype': [i], 'score': None, 'obj_score': None, 'feasible': True, 'idx_individ': i} for i in range(len(case['calls']))]

    def obj(x):
        v = list(case['calls'][x[0]][0])
        v.insert(at, 3.25)
        return tuple(v)
    for target in (None, 1.0):
        f = ga.HyperbolaFitness(obj, obj_value=target, penalty=p, conditions=list(conds))
        d = ga.GaData(num_generations=4)
        d.idx_generation = case['calls'][0][1]
        d.best_solution = {'feasible': case['best'], 'score': 0}
        d.population = make_pop(ga.CatPopulation, snap(rows), num_individ=len(rows))
        f.execute(d)
        for r, (v, it, fe) in zip(d.population, case['calls']):
            ok = all(viol(s, x) == 0 for s, x in zip(signs, v))
            need(r['feasible'] is ok, 'values %s under %s: marked feasible=%r', v, signs, r['feasible'])
            need(r['obj_score'] == 3.25, 'objective value %r', r['obj_score'])
            plain = -3.25 if target is None else 1 / (1 + 2.25)
            if ok:
                need(close(r['score'], plain), 'feasible individual scored %r, unpenalised %r', r['score'], plain)
            elif d.idx_generation >= 1:
                need(r['score'] < plain, 'infeasible individual scored %r, unpenalised %r', r['score'], plain)
            pv = call(build(case)[0], dict(case, best=True), signs, v, d.idx_generation, case['best'])
            exp = -(3.25 + pv) if target is None else 1 / (1 + 2.25 + pv)
            need(close(r['score'], exp), 'scored %r, with the %s penalty %r of generation %d expected %r', r['score'], pkind(case), pv, d.idx_generation, exp)
    if case['bad'] == 'count':
        f = ga.HyperbolaFitness(lambda x: obj(x) + (0,), penalty=p, conditions=list(conds))
        d.population = make_pop(ga.CatPopulation, snap(rows), num_individ=len(rows))
        rejected(lambda: f.execute(d), 'too many values')
        f = ga.HyperbolaFitness(lambda x: obj(x)[:-1], penalty=p, conditions=list(conds))
        d.population = make_pop(ga.CatPopulation, snap(rows), num_individ=len(rows))
        rejected(lambda: f.execute(d), 'too few values')
    if case['bad'] == 'sign':
        c2 = list(conds)
        c2[c2.index(signs[0])] = case['badsign']
        def go():
            f = ga.HyperbolaFitness(obj, penalty=p, conditions=c2)
            d.population = make_pop(ga.CatPopulation, snap(rows), num_individ=len(rows))
            f.execute(d)
        rejected(go, 'unknown sign %r' % case['badsign'])
