from .runs import *
import subprocess


def gen(rng, n):
    c = settings(rng, rng.choice(GAS))
    c['plan'] = rng.choice(['plain', 'const'])
    c['collector'] = rng.random() < .3
    c['rnd'] = rng.choice([0, 0, 1, -3, 42, rng.randrange(1 << 40)])
    c['other'] = rng.choice([1, 7, 0])
    c['proc'] = n % 60 == 7
    return c


def run(case):
    with quiet():
        if case['collector']:
            col, kw, n, setp, early = collector(case)
            setp()
            col.optimize()
            d = col.ga_data
        else:
            opt, kw, n = build(case)
            d = opt.optimize()
    return json.dumps([d.best_solution, d.historical_best, [x for x in d.population], d.idx_generation], sort_keys=True, default=str)


def check(case):
    from baumeva.global_generator import generator
    import baumeva.ga as ga
    was = generator.rnd_seed
    try:
        generator.rnd_seed = case['rnd']
        random.seed(case['seed'])
        a = run(case)
        random.seed(case['seed'] + 1)
        random.random()
        b = run(case)
        need(a == b, 'seed %r: two runs with the same settings differ:\n%s\n%s', case['rnd'], a[:300], b[:300])
        for s in (case['rnd'], case['other'], case['rnd']):
            generator.rnd_seed = s
            need(generator.rnd_seed == s, 'configured seed %r reads back as %r', s, generator.rnd_seed)
            for cls in (ga.BinaryPopulation, ga.BinaryGrayPopulation, ga.CatPopulation, ga.OrderCatPopulation):
                random.seed(999)
                p = cls()
                need(random.random() == random.Random(s).random(), 'creating a %s with seed %r did not seed the generator with it', cls.__name__, s)
        if case['proc']:
            outs = []
            for hs in ('1', '2'):
                env = dict(os.environ, PYTHONHASHSEED=hs, BAUM_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
                here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
                code = ('import sys,json; sys.path.insert(0,%r); from refute import c18; from baumeva.global_generator import generator; c=json.loads(sys.argv[1]); '
                        'generator.rnd_seed=c["rnd"]; print(c18.run(c))' % here)
                r = subprocess.run([sys.executable, '-c', code, json.dumps(case)], env=env, capture_output=True, text=True, timeout=15)
                need(r.returncode == 0, 'run in a new process failed: %s', r.stderr[-300:])
                outs.append(r.stdout)
            need(outs[0] == outs[1], 'seed %r: two processes give different results', case['rnd'])
    finally:
        generator.rnd_seed = was
