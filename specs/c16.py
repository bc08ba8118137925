from .runs import *
from .runs import Run


def optimiser(cls, mode, given, stop, gray=None, after=None):
    def run():
        h = H('%s.optimize%s%s%s' % (cls.__name__, '' if given else ', optional settings left out', '' if stop else ', no early stop', {True: ', Gray', False: ', binary', None: ''}[gray]))
        e = h.e
        r = Run(h, mode)
        r.nostop = not stop
        N, I, ES, TS = h.int('num_generations'), h.int('num_individ'), h.int('early_stop'), h.int('tournament_size')
        cp, lvl, ng = h.real('children_percent'), h.real('mutation_lvl'), h.int('ngens')
        h.assume(And(N >= 1, I >= 1, ES >= 0, lvl >= 0, lvl <= 1, ng >= 1))
        multi = cls in (baumeva.VEGA, baumeva.FFGA)
        M = h.int('num_objectives')
        h.assume(M >= 1)

        def f(e, st, args, kw, n):
            return Seq('tuple', M, fresh_int('x'), AnyV('value')) if multi else AnyV('value')
        fn = Opq('objective', f)
        gens = h.list('gens', ng, lambda x: Scal(h.fun('gens', INT, Gene)(x)))
        kw = dict(num_generations=Scal(N), num_individ=Scal(I), gens=gens, obj_function=fn, children_percent=Scal(cp), tournament_size=Scal(TS),
                  mutation_lvl=Scal(lvl), is_print=Scal(z3.Bool('is_print')))
        tp = z3.Bool('random_parents')
        kw['transfer_parents'] = Union([(tp, Str('random')), (Not(tp), Str('best'))])
        kw['early_stop'] = Scal(ES) if stop else NONE
        own = [gens.fam]
        if given:
            pen = h.obj('penalty', DynamicPenalty)
            nc, cc = h.int('nconditions'), h.fun('condition', INT, Gene)
            h.assume(nc >= 2)
            conds = h.list('conditions', nc, lambda x: Scal(cc(x)))
            nu, ul = h.int('nuser'), h.int('user_len')
            h.assume(And(nu >= 1, nu <= I, ul >= 0))
            rows, _ = genes(h, 'user', ul)
            user = h.list('user_population', nu, lambda x: Ref(rows, (x,)))
            kw.update(obj_value=Scal(h.real('obj_value')), input_data=Opq('input_data', f), penalty=pen, conditions=conds, input_population=user)
            own += [conds.fam, rows, user.fam]
        else:
            kw.update(obj_value=NONE, input_data=NONE, penalty=NONE, conditions=NONE, input_population=NONE)
        if gray is not None:
            kw['is_gray'] = Scal(z3.BoolVal(gray))
        r.N, r.ES = N, (ES if stop else N)
        r.want = dict(kw)
        del r.want['is_print']
        r.want['early_stop'] = Scal(r.ES)
        r.fitness_init()
        if cls is baumeva.VEGA:
            r.want['num_objectives'] = h.method(conds, 'count', Str('optimize')) if given else Scal(M)
        opt = h.call(cls, **kw)
        pre = h.st.copy()
        ret = h.method(opt, 'optimize')
        r.done(ret)
        if after:
            after(h, r, opt, own, pre, r.want)
        h.no_raise()
        h.vacuity()
        return h
    run.cname = '%s-%s-%s-%s' % (cls.__name__, given, stop, gray)
    return run


def family(mode, stops=(True, False), after=None):
    out = []
    for c in (baumeva.BinaryGA, baumeva.CategoricalGA, baumeva.CombinatoryGA, baumeva.VEGA, baumeva.FFGA):
        for gray in ((True, False) if c in (baumeva.BinaryGA, baumeva.VEGA, baumeva.FFGA) else (None,)):
            for given in (True, False):
                for stop in stops:
                    out.append(optimiser(c, mode, given, stop, gray, after))
    return out


def collector(multi, mode='C16', after=None):
    def run():
        h = H('CollectorGA.set_population and optimize%s' % (', multi-objective storage' if multi else ''))
        e = h.e
        r = Run(h, mode)
        r.nostop = False
        N, I, ES = h.int('num_generations'), h.int('num_individ'), h.int('early_stop')
        cp, ng = h.real('children_percent'), h.int('ngens')
        h.assume(And(N >= 1, I >= 1, ES >= 0, ng >= 1))
        gens = h.list('gens', ng, lambda x: Scal(h.fun('gens', INT, Gene)(x)))
        nu, ul = h.int('nuser'), h.int('user_len')
        h.assume(And(nu >= 1, nu <= I, ul >= 0))
        rows, _ = genes(h, 'user', ul)
        user = h.list('user_population', nu, lambda x: Ref(rows, (x,)))
        parts = [h.obj('fitness', FFGAFitness if multi else HyperbolaFitness), h.obj('selection', BalancedSelection),
                 h.obj('crossover', OnePointCrossover), h.obj('mutation', BinStringMutation),
                 h.obj('replacement', MultiNewGeneration if multi else NewGeneration)]
        want = dict(num_generations=Scal(N), num_individ=Scal(I), gens=gens, input_population=user, children_percent=Scal(cp), early_stop=Scal(ES))
        r.want = dict(want, population=BinaryPopulation)
        r.N, r.ES = N, ES
        col = h.call(baumeva.CollectorGA, *parts, Py(MultiGaData if multi else GaData))
        pre = h.st.copy()
        h.method(col, 'set_population', Py(BinaryPopulation), Scal(I), Scal(N), gens, user, Scal(cp), Scal(ES))
        h.method(col, 'optimize')
        r.done(h.get(col, 'ga_data'))
        if after:
            after(h, r, col, [gens.fam, rows, user.fam], pre, dict(zip(('fitness', 'selection', 'crossover', 'mutation', 'new_generation'), parts)))
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'CollectorGA-%s' % multi
    return run


def counter(first):
    """the contract of update used above, single objective: what happens to the two counters"""
    def run():
        h = H('GaData.update counters, %s generation' % ('first' if first else 'later'))
        e = h.e
        N, L = h.int('N'), h.int('L')
        h.assume(And(N >= 1, L >= 0))
        mem = members(h, 'member', N, L, CAT_KEYS)
        pop = population(h, 'population', CatPopulation, N, mem, is_sorted=Scal(z3.BoolVal(False)))
        gen, stall, hl, B = h.int('gen'), h.int('stall'), h.int('hist_len'), h.real('best_score')
        h.assume(And(hl >= 0, stall >= 0, gen >= 0))
        hists = [h.list('history%d' % k, hl, lambda x, k=k: Scal(h.fun('hist%d' % k, INT, REAL)(x))) for k in range(3)]
        bs = NONE
        if not first:
            f = h.fam('old_best', 'dict', 0)
            h.cell(f, 'score', Scal(B))
            h.cell(f, 'idx_generation', Scal(h.int('best_gen')))
            bs = Ref(f)
        else:
            h.assume(And(stall == 0, gen == 0))
        ga = h.obj('ga_data', GaData, population=pop, idx_generation=Scal(gen), num_generation_no_improve=Scal(stall), early_stop=Scal(h.int('early')),
                   num_generations=Scal(h.int('total')), best_solution=bs, historical_best=hists[0], historical_mediocre=hists[1], historical_worst=hists[2])
        h.method(ga, 'update')
        counters(h, ga, gen, stall, first, mem)
        i = h.int('i')
        if not first:
            ns = e.arith(h.get(ga, 'num_generation_no_improve'))
            h.check_scoped([i >= 0, i < N, mem.S(i) > B] + h.positions(i), lambda: ns == 0, 'an improvement resets the stagnation counter')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'counter-%s' % first
    return run


def counters(h, ga, gen, stall, first, mem):
    e = h.e
    ns, g = e.arith(h.get(ga, 'num_generation_no_improve')), e.arith(h.get(ga, 'idx_generation'))
    h.check(g == gen + 1, 'the generation number grows by one')
    h.check(ns == 0 if first else Or(ns == 0, ns == stall + 1), 'the stagnation counter is reset or grows by one')
    h.check(And(e.eq(h.st, h.get(ga, 'early_stop'), Scal(h.int('early'))), e.eq(h.st, h.get(ga, 'num_generations'), Scal(h.int('total')))), 'the limits are unchanged')
    P = h.get(ga, 'population')
    h.check(h.len(P) == h.int('N'), 'the population stays')


def multi_counter(first):
    """the same for the multi-objective run data; some member has rank 1 (C15: a finite population has a non-dominated member)"""
    def run():
        h = H('MultiGaData.update counters, %s generation' % ('first' if first else 'later'))
        e = h.e
        N, L = h.int('N'), h.int('L')
        h.assume(And(N >= 1, L >= 0))
        keys = BIN_KEYS + ('rank',)
        mem = members(h, 'member', N, L, keys)
        z = h.int('best_ranked')
        h.assume(And(z >= 0, z < N, mem.R(z) == 1))
        h.forall_assume(lambda i: (T, mem.R(i) >= 1, [mem.R(i)]))
        pop = population(h, 'population', BinaryPopulation, N, mem, is_sorted=Scal(z3.BoolVal(False)))
        gen, stall, hl = h.int('gen'), h.int('stall'), h.int('hist_len')
        h.assume(And(hl >= 0, stall >= 0, gen >= 0))
        hb = h.list('history', hl, lambda x: AnyV('front'))
        bs = NONE
        if not first:
            f = h.fam('old_best', 'dict', 0)
            on = h.int('old_front')
            h.assume(on >= 1)
            old = members(h, 'old', on, L, keys)
            h.cell(f, 'pareto_set', h.list('old_front_list', on, lambda x: Ref(old, (x,))))
            h.cell(f, 'idx_generation', Scal(h.int('best_gen')))
            bs = Ref(f)
        else:
            h.assume(And(stall == 0, gen == 0))
        ga = h.obj('ga_data', MultiGaData, population=pop, idx_generation=Scal(gen), num_generation_no_improve=Scal(stall), early_stop=Scal(h.int('early')),
                   num_generations=Scal(h.int('total')), best_solution=bs, historical_best=hb)
        h.positions(z)
        for p in h.positions(z):
            h.assume(p)
        h.method(ga, 'update')
        for p in h.positions(z, num(0)) + [fresh_int('at') == p for p in h.places(z)]:
            h.st.add(p)
        counters(h, ga, gen, stall, first, mem)
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'multi_counter-%s' % first
    return run


def printing(multi):
    """print_best_solution changes nothing and does not fail after at least one recorded generation"""
    def run():
        cls = MultiGaData if multi else GaData
        h = H('%s.print_best_solution' % cls.__name__)
        L = h.int('L')
        h.assume(L >= 0)
        f = h.fam('best', 'dict', 0)
        own = [f]
        if multi:
            on = h.int('front')
            h.assume(on >= 0)
            old = members(h, 'member', on, L, BIN_KEYS + ('rank',))
            lst = h.list('front_list', on, lambda x: Ref(old, (x,)))
            h.cell(f, 'pareto_set', lst)
            own += fams_of(old) + [lst.fam]
        else:
            for k in ('genotype', 'phenotype'):
                v = h.list('best.' + k, L, lambda x: Scal(h.fun('b.' + k, INT, Gene)(x)))
                h.cell(f, k, v)
                own.append(v.fam)
            for k in ('score', 'obj_score'):
                h.cell(f, k, Scal(h.real('b.' + k)))
            h.cell(f, 'feasible', Scal(z3.Bool('b.feasible')))
        h.cell(f, 'idx_generation', Scal(h.int('b.gen')))
        ga = h.obj('ga_data', cls, best_solution=Ref(f), idx_generation=Scal(h.int('gen')), num_generation_no_improve=Scal(h.int('stall')),
                   early_stop=Scal(h.int('early')), num_generations=Scal(h.int('total')))
        pre = h.st.copy()
        h.method(ga, 'print_best_solution')
        h.unchanged(own + [ga.fam], pre, 'printing changes nothing')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'print-%s' % multi
    return run


CONTRACTS = family('C16') + [collector(m) for m in (False, True)] + [counter(f) for f in (True, False)] + [multi_counter(f) for f in (True, False)] + \
    [printing(m) for m in (False, True)]
