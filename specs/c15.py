from .c13 import *
from .c13 import Env

from pyvc.loops import HintInv

KEYS = BIN_KEYS + ('rank',)


def update(first, cls):
    """the reported front after MultiGaData.update; some member has rank 1 (lemma minimal_exists: a finite strict order has a minimal element)"""
    def run():
        h = H('MultiGaData.update, %s generation, %s' % ('first' if first else 'later', cls.__name__))
        e = h.e
        N, L = h.int('N'), h.int('L')
        h.assume(And(N >= 1, L >= 0))
        mem = members(h, 'member', N, L, KEYS)
        z = h.int('best_ranked')
        h.assume(And(z >= 0, z < N, mem.R(z) == 1))
        h.forall_assume(lambda i: (T, mem.R(i) >= 1, [mem.R(i)]))
        pop = population(h, 'population', cls, N, mem, is_sorted=Scal(z3.BoolVal(False)))
        gen, stall, hl, bg = h.int('gen'), h.int('stall'), h.int('hist_len'), h.int('best_gen')
        h.assume(And(hl >= 0, stall >= 0, gen >= 0))
        hb = h.list('history', hl, lambda x: AnyV('front'))
        bs, own = NONE, []
        if not first:
            f = h.fam('old_best', 'dict', 0)
            on = h.int('old_front')
            h.assume(on >= 1)
            old = members(h, 'old', on, L, KEYS)
            ol = h.list('old_front_list', on, lambda x: Ref(old, (x,)))
            h.cell(f, 'pareto_set', ol)
            h.cell(f, 'idx_generation', Scal(bg))
            bs = Ref(f)
            own = fams_of(old) + [ol.fam]
        ga = h.obj('ga_data', MultiGaData, population=pop, idx_generation=Scal(gen), num_generation_no_improve=Scal(stall), early_stop=Scal(h.int('early')),
                   num_generations=Scal(h.int('total')), best_solution=bs, historical_best=hb)
        for p in h.positions(z):
            h.assume(p)
        pre = h.st.copy()
        h.method(ga, 'update')
        for p in h.positions(num(0)) + [fresh_int('at') == p for p in h.places(z)]:
            h.st.add(p)
        i, q = h.int('i'), h.int('q')
        front = h.get(ga, 'best_solution', 'pareto_set')
        ns = e.arith(h.get(ga, 'num_generation_no_improve'))
        F_ = h.len(front)
        h.check_scoped([i >= 0, i < N, mem.R(i) == 1], lambda: Or(*[And(p >= 0, p < F_, copy_of(h, h.item(front, p), mem, i)) for p in h.places(i)]), 'every member of rank one is in the front')
        h.check_scoped([q >= 0, q < F_], lambda: in_front(h, h.item(front, q), front, q, mem, N), 'only members of rank one are in the front')
        h.check_scoped([q >= 0, q < F_], lambda: fresh(h.item(front, q), fams_of(mem)), 'the front shares no storage with the population')
        h.check_scoped([q >= 0, q < F_], lambda: And(*[fresh(h.get(h.item(front, q), k), fams_of(mem)) for k in ('genotype', 'phenotype')]), 'the genes and values in the front are copies too')
        h.check(Or(ns == 0, ns == stall + 1), 'the stagnation counter is reset or grows by one')
        if first:
            h.check(ns == 0, 'the first front is an improvement')
        else:
            h.check_scoped([ns == 0], lambda: Not(e.eq(h.st, ol, front)), 'no improvement is claimed for an unchanged front')
            h.check_scoped([ns != 0], lambda: e.eq(h.st, ol, front), 'a different front is an improvement')
        h.check(e.eq(h.st, h.get(ga, 'best_solution', 'idx_generation'), Scal(If(ns == 0, gen, bg))), 'a new front is stamped with its generation')
        P = h.get(ga, 'population')
        h.check(h.len(P) == N, 'nobody joins or leaves the population')
        h.check_scoped([q >= 0, q < N], lambda: z3.BoolVal(isinstance(h.item(P, q), Ref) and h.item(P, q).fam is mem), 'the population keeps its members')
        h.check_scoped([i >= 0, i < q, q < N], lambda: e.arith(h.get(P, i, 'rank')) <= e.arith(h.get(P, q, 'rank')), 'the population is in rank order (C11 starts from that)')
        h.unchanged(fams_of(mem) + own, pre, 'no individual is altered')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'update-%s-%s' % (first, cls.__name__)
    return run


def alts(v):
    return v.alts if isinstance(v, Union) else [(T, v)]


def copy_of(h, v, mem, i):
    """v equals member i"""
    return h.e.eq(h.st, v, Ref(mem, (i,)))


def fresh(v, fams):
    return And(*[Not(g) for g, w in alts(v) if not isinstance(w, Ref) or w.fam in fams])


def in_front(h, v, front, q, mem, N):
    """the entry equals some member of rank one; the candidates are the positions the population was read from"""
    cands = {}
    for s in h.e.sigmas:
        cands[s(q)] = 1
    for f, _ in h.e.filters[:4]:
        for t in [f.mu(q)] + [s(f.mu(q)) for s in h.e.sigmas]:
            cands[t] = 1
    cands[q] = 1
    return Or(*[And(c >= 0, c < N, mem.R(c) == 1, copy_of(h, v, mem, c)) for c in list(cands)[:8]])


class Dominance:
    """dom(a, b): member a dominates member b; cnt(b, m): how many of the members 0..m-1 dominate b (both by definition)"""

    def __init__(self, h, V, M):
        self.h = h
        self.dom = dom = h.fun('dominates', INT, INT, BOOL)
        self.cnt = cnt = h.fun('dominators', INT, INT, INT)
        w, u = h.fun('smaller_at', INT, INT, INT), h.fun('larger_at', INT, INT, INT)
        h.forall_assume(lambda a, b, k: (And(dom(a, b), 0 <= k, k < M), V(a, k) <= V(b, k), [(dom(a, b), V(a, k)), (dom(a, b), V(b, k))]), 3)
        h.forall_assume(lambda a, b: (dom(a, b), And(w(a, b) >= 0, w(a, b) < M, V(a, w(a, b)) < V(b, w(a, b))), [dom(a, b)]), 2)
        h.forall_assume(lambda a, b, k: (And(Not(dom(a, b)), 0 <= k, k < M, V(a, k) < V(b, k)), And(u(a, b) >= 0, u(a, b) < M, V(a, u(a, b)) > V(b, u(a, b))),
                                         [(dom(a, b), V(a, k)), (dom(a, b), V(b, k))]), 3)
        h.forall_assume(lambda b: (T, cnt(b, num(0)) == 0, [cnt(b, num(0))]))
        h.forall_assume(lambda b, m: (m >= 0, cnt(b, m) >= 0, [cnt(b, m)]), 2)
        h.forall_assume(lambda b, m, n: (And(m >= 0, n == m + 1), cnt(b, n) == cnt(b, m) + If(dom(m, b), num(1), num(0)), [(cnt(b, n), cnt(b, m))]), 3)

    def hint(self, mem, N):
        """candidate loop invariants: how far the ranks have been counted; those that are not inductive are dropped"""
        cnt = self.cnt
        x = z3.Int('rank_of')
        rng = And(x >= 0, x < N)

        def val(S):
            c = S.heap.get((mem.id, 'rank'))
            return self.h.e.arith(c.at((x,)))

        def inv(name, f):
            return HintInv(name, lambda S, k: [Fact((x,), rng, val(S) == 1 + f(k), None)], cheap=True)

        def hint(eng, entry, node, k, K, forms, locs):
            if ('h', mem.id, 'rank') not in locs:
                return []
            if not eng.ks:
                return [inv('pairs counted up to the outer index', lambda k: If(x < k, cnt(x, N), cnt(x, k))),
                        inv('pairs below the outer index counted', lambda k: If(x < k, cnt(x, k), num(0))),
                        inv('members counted up to the outer index', lambda k: If(x < k, cnt(x, N), num(0)))]
            i = eng.ks[-1]
            out = [inv('pairs counted up to the inner index', lambda k: If(x < i, cnt(x, N), If(x == i, cnt(i, i + 1 + k), If(x < i + 1 + k, cnt(x, i + 1), cnt(x, i))))),
                   inv('pairs below counted up to the inner index', lambda k: If(x < k, cnt(x, i + 1), If(x < i, cnt(x, i), If(x == i, cnt(i, k), num(0))))),
                   inv('member counted up to the inner index', lambda k: If(x < i, cnt(x, N), If(x == i, cnt(i, k), num(0))))]
            return out
        return hint


def rank(fc, cls, ret, data, whole):
    """ranks after assign_ranks alone (phenotypes known, any conditions) or after the whole evaluation"""
    nm = '%s.%s on %s, objective returns a %s%s' % (fc.__name__, 'execute' if whole else 'assign_ranks', cls.__name__, ret, '' if data == 'none' else ', extra input')

    def run():
        h = H(nm)
        e = h.e
        d = {'object': 'object', 'zero': Scal(num(0)), 'none': NONE}[data]
        vega = fc is VEGAHyperbolaFitness
        env = Env(h, cls, KEYS, 'list' if vega else 'rank', ret, d)
        env.counting = False
        env.NV = env.M
        D = Dominance(h, env.V, env.M)
        e.hints['*'] = [D.hint(env.mem, env.N)]
        kw = {}
        if not whole:
            conds, c, p = conditional(h, env.M, True)
            kw = dict(penalty=h.obj('penalty', DynamicPenalty), conditions=conds)
            h.cell(env.mem, 'phenotype', Ref(env.pf, env.mem.xs))
        fit = h.call(fc, env.fn, input_data=NONE if d is NONE else env.data, **kw)
        pre = h.st.copy()
        h.method(fit, 'execute' if whole else 'assign_ranks', env.ga)
        i = h.int('i')
        m = Ref(env.mem, (i,))
        rng = [i >= 0, i < env.N]
        # a rank counted in a variable is a sum over the other members
        for f in list(e.sums.values()):
            if f.arity() == 2 and f.range() == INT:
                h.induct('counted so far', lambda t: Implies(And(*rng), f(i, t) == D.cnt(i, t)), num(0), env.N)
        h.check_scoped(rng, lambda: e.eq(h.st, h.get(m, 'rank'), Scal(1 + D.cnt(i, env.N))), 'the rank is one plus the number of dominating members')
        if whole and not vega:
            h.check_scoped(rng, lambda: e.eq(h.st, h.get(m, 'score'), Scal(1 / (1 + z3.ToReal(1 + D.cnt(i, env.N))))), 'the fitness belongs to the current rank')
        P = h.get(env.ga, 'population')
        h.check(h.len(P) == env.N, 'nobody joins or leaves')
        h.check_scoped(rng, lambda: e.identical(h.st, h.item(P, i), m), 'the order stays')
        h.unchanged([env.gf] + env.lists, pre, 'frame')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'rank-%s-%s-%s-%s-%s' % (fc.__name__, cls.__name__, ret, data, whole)
    return run


POPS = (BinaryPopulation, BinaryGrayPopulation)
CONTRACTS = [rank(f, c, r, d, w) for f in (FFGAFitness, VEGAHyperbolaFitness) for c, r, d in ((BinaryPopulation, 'tuple', 'none'), (BinaryGrayPopulation, 'list', 'zero'), (BinaryPopulation, 'list', 'object')) for w in (False, True)]
CONTRACTS += [update(f, c) for f in (True, False) for c in POPS]
