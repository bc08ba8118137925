"""Contracts of the parts as the optimisers see them, and the runs of the optimisers checked against them.

Every part (population.fill, fitness/selection/crossover/mutation/replacement .execute, GaData.update, print_best_solution) is replaced by its
contract; everything else of the optimisers is executed from the source.  `mode` says which property the obligations belong to."""
import inspect
from .common import *
import baumeva
from baumeva.ga import *
from baumeva.global_generator import generator
from pyvc.loops import HintInv
import baumeva.ga.ga_data as _gd

FILLED, EVALUATED, RECORDED, SELECTED, CROSSED, MUTATED, REPLACED = range(1, 8)
NAMES = {1: 'a new population', 2: 'evaluation', 3: 'bookkeeping', 4: 'selection', 5: 'crossover', 6: 'mutation', 7: 'replacement'}
ROLES = (('fitness', BaseFitness), ('selection', BaseSelection), ('crossover', BaseCrossover), ('mutation', BaseMutation), ('replacement', NewGeneration))
NEED = {'fitness': (FILLED, REPLACED), 'update': (EVALUATED,), 'selection': (RECORDED,), 'crossover': (SELECTED,), 'mutation': (CROSSED,),
        'replacement': (MUTATED,)}
GIVE = {'fitness': EVALUATED, 'update': RECORDED, 'selection': SELECTED, 'crossover': CROSSED, 'mutation': MUTATED, 'replacement': REPLACED}


def subclasses(c):
    out = [c]
    for d in c.__subclasses__():
        for x in subclasses(d):
            if x not in out:
                out.append(x)
    return [x for x in out if x.__module__.startswith('baumeva')]


class Run:
    """ghost state and contracts of one optimiser run"""

    def __init__(self, h, mode):
        self.h, self.e, self.mode = h, h.e, mode
        h.st.ghost['phase'] = Scal(num(0))
        h.st.ghost['gens'] = Scal(num(0))
        h.st.ghost['stall'] = Scal(num(0))
        self.want = {}        # settings: what the parts must have been given
        self.ga = None        # the run data of this run
        self.N = self.ES = None
        C = self.e.contracts
        for role, base in ROLES:
            for c in subclasses(base):
                f = vars(c).get('execute')
                if f is not None:
                    C[f] = self.part(role, f)
        for c in subclasses(BasePopulation):
            f = vars(c).get('fill')
            if f is not None:
                C[f] = self.fill
        for c in subclasses(GaData):
            if 'update' in vars(c):
                C[vars(c)['update']] = self.update
            if 'print_best_solution' in vars(c):
                C[vars(c)['print_best_solution']] = self.show
        self.e.hints['*'] = [self.hint]

    # ------------------------------------------------------------ helpers
    def ob(self, mode, st, goal, label, n):
        if self.mode == mode:
            self.e.obligation(st, goal, label, n)

    def g(self, st, name):
        return st.ghost[name].e

    def args(self, f, args, kw):
        b = inspect.signature(f).bind(*args, **kw)
        return list(b.arguments.values())

    def attr(self, st, r, *names):
        for a in names:
            r = self.e.getattr(st, r, a, None)
        return r

    def hint(self, eng, entry, node, k, K, forms, locs):
        """candidate loop invariants; those that are not inductive are dropped"""
        def bounds(S, kk):
            stall, gens = S.ghost['stall'].e, S.ghost['gens'].e
            return [stall >= 0, Implies(gens >= 1, stall <= gens - 1), Implies(gens < 1, stall == 0)]

        def agree(S, kk):
            if self.ga is None:
                return [T]
            v = self.e.getattr(S, self.ga, 'num_generation_no_improve', None)
            return [S.ghost['stall'].e == self.e.arith(v)]

        def going(S, kk):
            return [S.ghost['stall'].e <= self.ES]
        flags = []
        for key, f in forms.items():
            v0 = locs[key].get(entry)
            if key[0] == 'v' and isinstance(v0, Scal) and v0.e.sort() == BOOL:
                for nm, w in (('stopped', lambda v, s: v == s), ('running', lambda v, s: v != s)):
                    flags.append(HintInv('%s: %s' % (nm, key), lambda S, kk, l=locs[key], w=w: [w(l.get(S).e, S.ghost['stall'].e > self.ES)]))
        return flags + [HintInv('the stagnation counter is below the number of generations', bounds),
                HintInv('the recorded stagnation counter is the real one', agree),
                HintInv('the stagnation counter does not exceed early stop', going)]

    # ------------------------------------------------------------ contracts
    def fitness_init(self):
        """contract of BaseFitness.__init__: stores its arguments, the conditions as its own list"""
        f = vars(BaseFitness)['__init__']

        def contract(e, st, args, kw, n):
            sig = inspect.signature(f)
            b = sig.bind(*args, **kw).arguments
            me = args[0]
            for a in ('obj_function', 'obj_value', 'input_data', 'penalty'):
                e.put(st, me, a, b.get(a, NONE))
            c = b.get('conditions', NONE)
            w = self.want.get('conditions')
            if w is not None:
                self.ob('C17', st, e.identical(st, c, w) if w is NONE or c is NONE else e.eq(st, c, w), 'setting conditions reaches the part that uses it', n)
            return NONE
        self.e.contracts[f] = contract

    def fill(self, e, st, args, kw, n):
        pop = args[0]
        self.ob('C16', st, self.g(st, 'phase') == 0, 'the population is filled once, before the first generation', n)
        self.settings(st, pop, ('num_individ', 'gens', 'input_population'), n)
        self.seeded(st, n)
        if 'population' in self.want:
            self.ob('C17', st, z3.BoolVal(isinstance(pop, Ref) and pop.fam.cls is self.want['population']), 'the requested kind of population', n)
        m = e.sym('size', INT, n)
        self.h.assume(m >= 1)
        e.put(st, pop, '@', Seq('list', m, fresh_int('x'), AnyV('member')))
        st.ghost['phase'] = Scal(num(FILLED))
        st.ghost['pop'] = pop
        return NONE

    def settings(self, st, part, names, n):
        for a in names:
            w = self.want.get(a)
            if w is None:
                continue
            v = self.attr(st, part, a)
            if a == 'num_objectives':
                self.counted(st)
            if isinstance(w, (Ref, Opq)) or w is NONE:
                same = self.e.identical(st, v, w)
            else:
                same = self.e.eq(st, v, w)
            self.ob('C17', st, same, 'setting %s reaches the part that uses it' % a, n)

    def counted(self, st):
        """the length of a filtered sequence is the number of accepted positions"""
        e = self.e
        for f, K in e.filters:
            if f.cond is not None:
                x = fresh_int('ct')
                parts = f.cond.children() if z3.is_and(f.cond) else [f.cond]
                c = And(*[p for p in parts if not any(p.eq(b) for b in (f.kc >= 0, f.kc < K))])
                st.add(f.L(K) == e.summation_term(If(z3.substitute(c, (f.kc, x)), num(1), num(0)), x, K))

    def seeded(self, st, n):
        if self.mode == 'C18':
            self.e.obligation(st, self.seed_ok(st), 'the generator was seeded with the configured value before', n)

    def seed_ok(self, st):
        v = st.ghost.get('seeded')
        return F if v is None else self.e.eq(st, v, self.h.seed)

    def common(self, st, ga, n, what):
        e = self.e
        if self.ga is None:
            self.ga = ga
            fixed = z3.BoolVal(isinstance(ga, Ref) and ga.fam.arity == 0)
            self.ob('C16', st, fixed, 'one run data object', n)
        else:
            self.ob('C16', st, e.identical(st, ga, self.ga), 'all phases work on the same run data', n)
        p = st.ghost.get('pop')
        if p is not None:
            self.ob('C16', st, e.identical(st, self.attr(st, ga, 'population'), p), '%s works on the current population' % what, n)
        self.settings(st, ga, ('num_generations', 'early_stop', 'children_percent'), n)
        self.ob('C16', st, e.eq(st, self.attr(st, ga, 'num_generation_no_improve'), st.ghost['stall']), 'only the bookkeeping changes the stagnation counter', n)
        self.ob('C16', st, e.eq(st, self.attr(st, ga, 'idx_generation'), st.ghost['gens']), 'only the bookkeeping changes the generation number', n)

    def phase(self, st, role, n):
        p = self.g(st, 'phase')
        self.ob('C16', st, Or(*[p == x for x in NEED[role]]), '%s follows %s' % (role, ' or '.join(NAMES[x] for x in NEED[role])), n)
        st.ghost['phase'] = Scal(num(GIVE[role]))

    def part(self, role, f):
        def contract(e, st, args, kw, n):
            me, ga = self.args(f, args, kw)[:2]
            self.common(st, ga, n, role)
            self.phase(st, role, n)
            if role == 'fitness':
                self.settings(st, me, ('obj_function', 'obj_value', 'input_data', 'penalty'), n)
            if role == 'selection':
                self.ob('C16', st, self.g(st, 'stall') <= self.ES, 'no further generation once the stagnation counter exceeds early stop', n)
                self.ob('C16', st, self.g(st, 'gens') < self.N, 'no more than the requested generations', n)
                if isinstance(me, Ref) and issubclass(me.fam.cls, (TournamentSelection, VEGATournamentSelection)):
                    self.settings(st, me, ('tournament_size',), n)
                if isinstance(me, Ref) and me.fam.cls.__name__.startswith('VEGA'):
                    self.settings(st, me, ('num_objectives',), n)
                e.setattr(st, ga, 'parents', e.alloc(st, 'obj', n, 'parents', BasePopulation), n)
                self.reseed(st)
            if role == 'crossover':
                e.setattr(st, ga, 'children', e.alloc(st, 'obj', n, 'children', BasePopulation), n)
                self.reseed(st)
            if role == 'mutation':
                self.settings(st, me, ('mutation_lvl',), n)
            if role == 'replacement':
                self.settings(st, me, ('transfer_parents',), n)
                p = e.alloc(st, 'obj', n, 'next', BasePopulation)
                e.setattr(st, ga, 'population', p, n)
                st.ghost['pop'] = p
            self.seeded(st, n)
            return NONE
        return contract

    def reseed(self, st):
        """the part creates a population, which seeds the generator with the configured value (proved for BasePopulation.__init__)"""
        if self.mode == 'C18':
            st.ghost['seeded'] = self.h.seed

    def update(self, e, st, args, kw, n):
        ga = args[0]
        self.common(st, ga, n, 'update')
        self.phase(st, 'update', n)
        better = e.sym('improved', BOOL, n)
        stall, gens = self.g(st, 'stall'), self.g(st, 'gens')
        new = Scal(If(Or(gens == 0, better), num(0), stall + 1))
        st.ghost['stall'] = new
        st.ghost['gens'] = Scal(gens + 1)
        e.setattr(st, ga, 'num_generation_no_improve', new, n)
        e.setattr(st, ga, 'idx_generation', Scal(gens + 1), n)
        return NONE

    def show(self, e, st, args, kw, n):
        self.ob('C16', st, self.g(st, 'gens') >= 1, 'there is a solution to print', n)
        return NONE

    # ------------------------------------------------------------ postconditions
    def done(self, ret):
        h, st = self.h, self.h.st
        gens, stall = self.g(st, 'gens'), self.g(st, 'stall')
        if self.mode == 'C16':
            h.check(And(gens >= 1, gens <= self.N), 'at least one and at most the requested number of generations')
            h.check(self.g(st, 'phase') == RECORDED, 'the run ends with a recorded generation')
            h.check(Or(gens == self.N, stall >= self.ES), 'an early end only after the early-stop number of generations without improvement')
            if self.nostop:
                h.check(gens == self.N, 'without early stop all generations are run')
            h.check(self.e.identical(st, ret, self.ga), 'the run data that was recorded is handed back')
