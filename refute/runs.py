"""running the optimisers with every phase recorded"""
from .lib import *
import contextlib
import io

GAS = ['BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA']


def classes():
    import baumeva.ga as ga
    out = {}
    for v in list(vars(ga).values()):
        if isinstance(v, type):
            for b in v.__mro__:
                if b.__module__.startswith('baumeva'):
                    out[b] = 1
    return list(out)


class Trace:
    """records the outermost phase calls: (phase, object, ga_data)"""

    def __enter__(self):
        import baumeva.ga as ga
        self.log, self.depth, self.undo = [], 0, []
        bases = [('fit', ga.BaseFitness, 'execute'), ('sel', ga.BaseSelection, 'execute'), ('cross', ga.BaseCrossover, 'execute'),
                 ('mut', ga.BaseMutation, 'execute'), ('new', ga.NewGeneration, 'execute'), ('upd', ga.GaData, 'update')]
        for c in classes():
            for ph, b, name in bases:
                if issubclass(c, b) and name in vars(c) and not getattr(vars(c)[name], '__isabstractmethod__', False):
                    self.wrap(c, name, ph)
        return self

    def wrap(self, c, name, ph):
        f = vars(c)[name]

        def w(obj, *a, **k):
            if self.depth == 0:
                d = obj if ph == 'upd' else (a[0] if a else k.get('ga_data'))
                self.log.append((ph, obj, d, self.look(ph, obj, d)))
            self.depth += 1
            try:
                r = f(obj, *a, **k)
            finally:
                self.depth -= 1
            if self.depth == 0 and ph == 'upd':
                self.log[-1] = self.log[-1][:3] + (obj.num_generation_no_improve,)
            return r
        setattr(c, name, w)
        self.undo.append((c, name, f))

    @staticmethod
    def look(ph, obj, d):
        """settings of a part at the moment it is used for the first time"""
        keep = ('tournament_size', 'mutation_lvl', 'transfer_parents', 'obj_value', 'input_data', 'penalty', 'obj_function', 'num_objectives')
        return {k: v for k, v in vars(obj).items() if k in keep}

    def __exit__(self, *a):
        for c, name, f in reversed(self.undo):
            setattr(c, name, f)


def settings(rng, name):
    num = rng.randint(5, 9)
    c = {'ga': name, 'num': num, 'gens_n': rng.randint(1, 7), 'early': rng.choice([None, 0, 1, 2, 3, 10]), 'cp': rng.choice([0.95, 0.5, 0.8, 1.0]),
         'ts': rng.randint(2, num - 1), 'mut': rng.choice(['weak', 'normal', 'strong', 0.5, 1.0]), 'tp': rng.choice(['best', 'random']),
         'gray': rng.random() < .5, 'seed': rng.randrange(1 << 20), 'plan': rng.choice(['const', 'plain', 'steps', 'decay']), 'data': rng.choice([None, 0, 3, '']),
         'user': rng.random() < .5, 'cond': rng.choice([None, None, 'dyn', 'ada']), 'at': rng.randint(1, 4), 'target': rng.choice([None, None, 1.0]), 'print': rng.random() < .2}
    if name == 'FFGA':
        c['tp'] = 'best'
        if c['cp'] == 1.0:
            c['cp'] = .95
    if name in ('VEGA', 'FFGA'):
        c['target'] = None if name == 'VEGA' or True else c['target']
        c['cond'] = rng.choice([None, None, 'dyn'])
    return c


def build(case, counter=None):
    import baumeva as b
    import baumeva.ga as ga
    name = case['ga']
    multi = name in ('VEGA', 'FFGA')
    n = [0]
    if name == 'CategoricalGA':
        gens = (['a', 'b', 'c'], (1, 9, 2), [5, 6], (0, 3, 1))
        row = lambda i: [['a', 'b', 'c'][i % 3], 1 + 2 * (i % 5), 5, i % 4]
        num = lambda x: sum(ord(v) if isinstance(v, str) else v for v in x)
    elif name == 'CombinatoryGA':
        gens = (1, 7, 6)
        row = lambda i: [(j + i) % 7 + 1 for j in range(6)]
        num = lambda x: sum((j + 1) * v for j, v in enumerate(x))
    else:
        gens = ((-2, 2, 0.5), (0, 3, 1))
        row = lambda i: [-2 + (i % 4), i % 3]
        num = lambda x: sum(v * v for v in x)
    user = [row(i) for i in range(2)] if case['user'] else None
    cond = pen = None
    if case['cond']:
        cond = ['optimize', '<='] if not multi else ['optimize', '<=', 'optimize']
        pen = ga.DynamicPenalty() if case['cond'] == 'dyn' else ga.AdaptivePenalty()
    plan, at = case['plan'], case['at']

    def f(*a):
        x = a[-1]
        n[0] += 1
        v = float(num(x))
        if plan == 'const':
            v = 1.0
        elif plan == 'steps':
            v = -float(n[0] // (case['num'] * at))
        elif plan == 'decay':
            v = -float(n[0]) if n[0] < case['num'] * at else v
        if multi:
            w = float(num([y - 1 for y in x])) if plan != 'const' else 2.0
            return (v, v - 3, w) if cond else (v, w)
        return (v, v - 3) if cond else v
    kw = dict(num_generations=case['gens_n'], num_individ=case['num'], gens=gens, obj_function=f, obj_value=case['target'], input_data=case['data'], penalty=pen, conditions=cond,
              children_percent=case['cp'], early_stop=case['early'], input_population=user, tournament_size=case['ts'], mutation_lvl=case['mut'], transfer_parents=case['tp'],
              is_print=case['print'])
    if name in ('BinaryGA', 'VEGA', 'FFGA'):
        kw['is_gray'] = case['gray']
    return getattr(b, name)(**kw), kw, n


def collector(case):
    """CollectorGA with the parts of the chosen optimiser"""
    import baumeva as b
    import baumeva.ga as ga
    opt, kw, n = build(case)
    name = case['ga']
    F = {'VEGA': ga.VEGAHyperbolaFitness, 'FFGA': ga.FFGAFitness}.get(name, ga.HyperbolaFitness)
    fit = F(kw['obj_function'], obj_value=kw['obj_value'], input_data=kw['input_data'], penalty=kw['penalty'], conditions=kw['conditions'])
    sel = ga.VEGATournamentSelection(2, case['ts']) if name == 'VEGA' else ga.BalancedSelection() if name == 'FFGA' else ga.TournamentSelection(case['ts'])
    cr = {'CategoricalGA': ga.UniformCrossover, 'CombinatoryGA': ga.OrderCrossover}.get(name, ga.OnePointCrossover)()
    mu = {'CategoricalGA': ga.CategoricalMutation, 'CombinatoryGA': ga.MovementMutation}.get(name, ga.BinStringMutation)(case['mut'])
    ng = (ga.MultiNewGeneration if name == 'FFGA' else ga.NewGeneration)(case['tp'])
    col = b.CollectorGA(fit, sel, cr, mu, ng, **({'storage': ga.MultiGaData} if name in ('VEGA', 'FFGA') else {}))
    P = {'CategoricalGA': ga.CatPopulation, 'CombinatoryGA': ga.OrderCatPopulation}.get(name, ga.BinaryGrayPopulation if case['gray'] else ga.BinaryPopulation)
    early = case['early'] if case['early'] is not None else case['gens_n']
    return col, kw, n, lambda: col.set_population(P, case['num'], case['gens_n'], kw['gens'], kw['input_population'], case['cp'], early), early


def quiet():
    return contextlib.redirect_stdout(io.StringIO())
