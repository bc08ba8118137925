from .common import *
from baumeva.ga import *


def update(first, keys, cls):
    def run():
        h = H('GaData.update, %s generation, %s' % ('first' if first else 'later', cls.__name__))
        e = h.e
        N, L = h.int('N'), h.int('L')
        h.assume(And(N >= 1, L >= 0))
        mem = members(h, 'member', N, L, keys)
        srt = z3.Bool('is_sorted')
        h.forall_assume(lambda i, j: (And(srt, 0 <= i, i < j, j < N), mem.S(i) <= mem.S(j), [(mem.S(i), mem.S(j))]), 2)
        pop = population(h, 'population', cls, N, mem, is_sorted=Scal(srt), num_individ=Scal(h.int('num')), rnd_seed=NONE)
        ng, stall, es = h.int('gen'), h.int('stall'), h.int('early')
        HB = [h.fun('hist%d' % k, INT, REAL) for k in range(3)]
        hl = h.int('hist_len')
        h.assume(hl >= 0)
        hists = [h.list('history%d' % k, hl, lambda x, k=k: Scal(HB[k](x))) for k in range(3)]
        bs = NONE
        oldbest = None
        if not first:
            oldbest = h.fam('old_best', 'dict', 0)
            for k in keys:
                if k in ('genotype', 'phenotype'):
                    h.cell(oldbest, k, h.list('old_best.' + k, L, lambda x: Scal(h.fun('ob.' + k, INT, Gene)(x))))
                elif k == 'feasible':
                    h.cell(oldbest, k, Scal(z3.Bool('ob.feasible')))
                else:
                    h.cell(oldbest, k, Scal(h.real('ob.' + k)))
            h.cell(oldbest, 'idx_generation', Scal(h.int('ob.gen')))
            bs = Ref(oldbest)
        B = h.real('ob.score')
        ga = h.obj('ga_data', GaData, population=pop, idx_generation=Scal(ng), num_generation_no_improve=Scal(stall), early_stop=Scal(es),
                   best_solution=bs, historical_best=hists[0], historical_mediocre=hists[1], historical_worst=hists[2])
        pre = h.st.copy()
        h.method(ga, 'update')
        st = h.st
        i, j = h.int('i'), h.int('j')
        best = h.get(ga, 'best_solution')
        sc = lambda v: e.arith(h.get(v, 'score'))
        # every score is at most the reported one
        h.check_scoped([i >= 0, i < N] + h.positions(i), lambda: sc(h.get(ga, 'best_solution')) >= mem.S(i), 'no member beats the reported best')
        w = h.e.sym('top', INT, None)
        top = h.get(h.get(ga, 'historical_best'), hl)
        bt, wt, mt = (e.arith(h.get(h.get(ga, a), hl)) for a in ('historical_best', 'historical_worst', 'historical_mediocre'))
        h.check_scoped([i >= 0, i < N] + h.positions(i), lambda: And(mem.S(i) <= bt, mem.S(i) >= wt), 'history gets the extremes of the generation')
        # the order of the population after the update
        P = h.get(ga, 'population')
        sc_at = lambda k: e.arith(h.get(P, k, 'score'))
        h.check_scoped([], lambda: And(h.len(P) == N, bt == sc_at(N - 1), wt == sc_at(num(0)), mt == sc_at(N / 2)), 'history entries are scores of members')
        h.check_scoped([i >= 0, i < j, j < N], lambda: sc_at(i) <= sc_at(j), 'the population is in score order')
        def isperm():
            m = h.item(P, i)
            return And(z3.BoolVal(isinstance(m, Ref) and m.fam is mem), m.idx[0] >= 0, m.idx[0] < N)
        h.check_scoped([i >= 0, i < N], isperm, 'the population keeps its members')
        def dist():
            return h.item(P, i).idx[0] != h.item(P, j).idx[0]
        h.check_scoped([i >= 0, i < j, j < N], dist, 'no member twice')
        for k, (a, f) in enumerate(zip(('historical_best', 'historical_mediocre', 'historical_worst'), HB)):
            hv = h.get(ga, a)
            h.check(h.len(hv) == hl + 1, a + ' grows by one entry')
            h.check_scoped([i >= 0, i < hl], lambda: e.eq(h.st, h.item(hv, i), Scal(f(i))), a + ' keeps earlier entries')
        h.check(e.eq(st, h.get(ga, 'idx_generation'), Scal(ng + 1)), 'generation number grows by one')
        better = bt > B if not first else T
        ns = h.get(ga, 'num_generation_no_improve')
        if first:
            h.check(e.eq(st, ns, Scal(stall)), 'stagnation counter unchanged in the first generation')
        else:
            h.check(e.eq(st, ns, Scal(If(better, num(0), stall + 1))), 'stagnation counter')
            h.check(Implies(Not(better), h.e.identical(st, best, Ref(oldbest))), 'best solution kept unless improved')
            h.unchanged([oldbest] + [h.get(Ref(oldbest), k).fam for k in keys if k in ('genotype', 'phenotype')], pre, 'frame')

        def newbest():
            v = h.get(ga, 'best_solution')
            alts = [a for a in (v.alts if isinstance(v, Union) else [(T, v)])]
            out = []
            for g, w in alts:
                if not first and isinstance(w, Ref) and w.fam is oldbest:
                    out.append(('a strict improvement replaces the best solution', Not(g)))
                    continue
                own = isinstance(w, Ref) and not w.fam.pre
                out.append(('own storage', z3.BoolVal(own)))
                b = h.item(P, N - 1)
                for k in keys:
                    x, y = h.get(w, k), h.get(b, k)
                    out.append((k + ' of the best member', Implies(g, e.eq(h.st, x, y))))
                    if k in ('genotype', 'phenotype'):
                        for _, z in (x.alts if isinstance(x, Union) else [(T, x)]):
                            out.append((k + ' has own storage', z3.BoolVal(isinstance(z, Ref) and not z.fam.pre)))
                out.append(('stamped with the generation', Implies(g, e.eq(h.st, h.get(w, 'idx_generation'), Scal(ng)))))
            return out
        h.check_scoped([better], newbest, 'new best')
        h.unchanged(fams_of(mem), pre, 'frame')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'update_%s_%s' % ('first' if first else 'later', cls.__name__)
    return run


CONTRACTS = [update(f, k, c) for f in (True, False) for k, c in ((BIN_KEYS, BinaryPopulation), (CAT_KEYS, CatPopulation))]


def fresh_run():
    h = H('GaData.__init__')
    e = h.e
    a = h.call(GaData, Scal(h.int('gens')), Scal(h.real('cp')), Scal(h.int('early')))
    b = h.call(GaData, Scal(h.int('gens2')), Scal(h.real('cp2')), Scal(h.int('early2')))
    for g, n, c, s in ((a, 'gens', 'cp', 'early'), (b, 'gens2', 'cp2', 'early2')):
        h.check(e.eq(h.st, h.get(g, 'idx_generation'), Scal(num(0))), 'generation number starts at 0')
        h.check(e.eq(h.st, h.get(g, 'num_generation_no_improve'), Scal(num(0))), 'stagnation counter starts at 0')
        h.check(e.identical(h.st, h.get(g, 'best_solution'), NONE), 'no best solution yet')
        h.check(e.eq(h.st, h.get(g, 'num_generations'), Scal(h.int(n))), 'number of generations stored')
        h.check(e.eq(h.st, h.get(g, 'children_percent'), Scal(h.real(c))), 'children percent stored')
        h.check(e.eq(h.st, h.get(g, 'early_stop'), Scal(h.int(s))), 'early stop stored')
        for k in ('historical_best', 'historical_mediocre', 'historical_worst'):
            h.check(h.len(h.get(g, k)) == 0, k + ' starts empty')
    hs = [h.get(g, k) for g in (a, b) for k in ('historical_best', 'historical_mediocre', 'historical_worst')]
    for i in range(6):
        for j in range(i):
            h.check(Not(e.identical(h.st, hs[i], hs[j])), 'every run has its own histories')
    h.no_raise()
    return h


fresh_run.cname = 'fresh_run'
CONTRACTS.append(fresh_run)
