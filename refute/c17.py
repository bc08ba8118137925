from .runs import *


def gen(rng, n):
    c = settings(rng, rng.choice(GAS))
    c['plan'] = rng.choice(['plain', 'const'])
    c['gens_n'] = rng.randint(1, 4)
    return c


def freeze(kw):
    return {k: snap(v) if k in ('gens', 'input_population', 'conditions') else v for k, v in kw.items()}


def check(case):
    import baumeva
    old = baumeva.generator.rnd_seed if hasattr(baumeva, 'generator') else None
    opt, kw, n = build(case)
    keep = freeze(kw)
    mine = {k: snap(v) if k in ('gens', 'input_population', 'conditions') else v for k, v in vars(opt).items()}
    res = []
    fresh = []
    from baumeva.global_generator import generator
    was = generator.rnd_seed
    try:
        generator.rnd_seed = case['seed']
        for r in range(2):
            with Trace() as t, quiet():
                data = opt.optimize()
            res.append(data)
            for k, v in keep.items():
                need(kw[k] == v if k in ('gens', 'input_population', 'conditions') else kw[k] is v, 'argument %s changed to %r', k, kw[k])
            now = vars(opt)
            need(set(now) == set(mine), 'the optimiser\'s settings changed: %s', sorted(set(now) ^ set(mine)))
            for k, v in mine.items():
                need(now[k] == v if k in ('gens', 'input_population', 'conditions') else now[k] is v, 'setting %s changed to %r', k, now[k])
            settings_used(case, kw, t, data)
        b = lambda d: (d.best_solution, [x for x in d.historical_best])
        need(strip(res[0].best_solution) == strip(res[1].best_solution), 'the second run of the same optimiser gave %s, the first %s', res[1].best_solution, res[0].best_solution)
        with quiet():
            o2, k2, _ = build(case)
            r3 = o2.optimize()
        need(strip(r3.best_solution) == strip(res[1].best_solution), 'a used optimiser gives %s, a new one %s', res[1].best_solution, r3.best_solution)
    finally:
        generator.rnd_seed = was
    # the fitness object leaves the caller's conditions alone
    import baumeva.ga as ga
    for cls in (ga.HyperbolaFitness, ga.VEGAHyperbolaFitness, ga.FFGAFitness):
        c = ['<=', 'optimize', '!=']
        f1 = cls(lambda x: (1, 2, 3), penalty=ga.DynamicPenalty(), conditions=c)
        need(c == ['<=', 'optimize', '!='], '%s changed the caller\'s conditions to %s', cls.__name__, c)
        cls(lambda x: (1, 2, 3), penalty=ga.DynamicPenalty(), conditions=c)


def strip(d):
    return json.dumps(d, sort_keys=True, default=str)


def settings_used(case, kw, t, data):
    first = {}
    for x in t.log:
        first.setdefault(x[0], x)
    need(data.num_generations == case['gens_n'] and data.children_percent == case['cp'], 'run data has %s generations, children percent %s', data.num_generations, data.children_percent)
    need(data.early_stop == (case['early'] if case['early'] is not None else case['gens_n']), 'early stop %r became %r', case['early'], data.early_stop)
    pop = data.population
    need(pop.num_individ == case['num'], 'population size parameter %r', pop.num_individ)
    need(pop.gens is kw['gens'] or pop.gens == kw['gens'], 'gene declarations became %r', pop.gens)

    def same(ph, attr, want):
        if ph in first and attr in first[ph][3]:
            got = first[ph][3][attr]
            need(got is want or (type(got) is type(want) and got == want), 'setting %s=%r reached %s as %r', attr, want, type(first[ph][1]).__name__, got)
    if case['ga'] != 'FFGA':
        same('sel', 'tournament_size', case['ts'])
    if 'mut' in first:
        same('mut', 'mutation_lvl', vars(type(first['mut'][1])(case['mut'])).get('mutation_lvl'))
    same('new', 'transfer_parents', case['tp'])
    same('fit', 'obj_value', kw['obj_value'])
    same('fit', 'input_data', kw['input_data'])
    same('fit', 'penalty', kw['penalty'])
    same('fit', 'obj_function', kw['obj_function'])
    if case['ga'] == 'VEGA':
        same('sel', 'num_objectives', 2)
