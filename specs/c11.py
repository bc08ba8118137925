from .common import *
from baumeva.ga import *


def prestate(h, cls, keys, multi):
    N, n, L, C = (h.int(x) for x in ('N', 'num_individ', 'L', 'nchildren'))
    h.assume(And(N >= 1, N >= n, L >= 0, C >= 0))
    if not multi:
        # children never outnumber the requested size; without any child the population has its regular size
        h.assume(And(C <= n, n >= 1, Or(C >= 1, N >= n + 1)))
    mk = keys + (('rank',) if multi else ())
    mem = members(h, 'member', N, L, mk)
    kid = members(h, 'child', C, L, mk)
    srt = z3.Bool('is_sorted')
    if multi:
        h.forall_assume(lambda i, j: (And(0 <= i, i < j, j < N), mem.R(i) <= mem.R(j), [(mem.R(i), mem.R(j))]), 2)
        h.forall_assume(lambda i: (And(0 <= i, i < N), mem.R(i) >= 1, [mem.R(i)]))
    else:
        h.forall_assume(lambda i, j: (And(srt, 0 <= i, i < j, j < N), mem.S(i) <= mem.S(j), [(mem.S(i), mem.S(j))]), 2)
    # children are not evaluated yet
    for k in ('score', 'obj_score') + (('phenotype',) if 'phenotype' in keys else ()):
        h.cell(kid, k, NONE)
    pop = population(h, 'population', cls, N, mem, num_individ=Scal(n), is_sorted=Scal(srt), rnd_seed=NONE, is_phenotype=Scal(z3.BoolVal('phenotype' in keys)))
    ch = population(h, 'children', cls, C, kid, is_sorted=Scal(F), rnd_seed=NONE, is_phenotype=Scal(z3.BoolVal('phenotype' in keys)))
    return N, n, L, C, mem, kid, pop, ch


def replace(cls, keys, multi, mode):
    nm = '%s.execute on %s, transfer of the %s' % ('MultiNewGeneration' if multi else 'NewGeneration', cls.__name__, mode)

    def run():
        h = H(nm)
        e = h.e
        N, n, L, C, mem, kid, pop, ch = prestate(h, cls, keys, multi)
        ga = h.obj('ga_data', MultiGaData if multi else GaData, population=pop, children=ch, parents=NONE, children_percent=Scal(h.real('cp')),
                   idx_generation=Scal(h.int('gen')))
        op = h.call(MultiNewGeneration if multi else NewGeneration, Str(mode))
        pre = h.st.copy()
        h.method(op, 'execute', ga)
        P = h.get(ga, 'population')
        i, j, q = h.int('i'), h.int('j'), h.int('q')
        D = h.len(P)
        if not multi:
            h.check(D == n + 1, 'the new population has one more member than requested')
        h.check_scoped([i >= 0, i < C], lambda: Or(*[And(p >= 0, p < D, same_ref(h.item(P, p), kid, i)) for p in (i, D - C + i)]), 'every child is kept')
        if multi:
            h.check_scoped([i >= 0, i < N, mem.R(i) == 1], lambda: Or(*[And(p >= 0, p < D, same_ref(h.item(P, p), mem, i)) for pl in [i] + h.places(i) for p in (C + pl, pl)]), 'every non-dominated individual is kept')
        else:
            h.check_scoped([i >= 0, i < N] + h.positions(i), lambda: Or(*[And(p >= 0, p < D, member_with(h.item(P, p), mem, N, lambda t: mem.S(t) >= mem.S(i))) for p in (D - 1, C, num(0))]),
                           'a best individual is kept')
        h.check_scoped([q >= 0, q < D], lambda: Or(member_with(h.item(P, q), mem, N, lambda t: T), member_with(h.item(P, q), kid, C, lambda t: T)), 'only children and old members')
        # no child is kept twice: the positions outside the block of children hold old members
        h.check_scoped([q >= 0, q < D, i >= 0, i < D, i < q], lambda: Not(And(child(h.item(P, i), kid), e.identical(h.st, h.item(P, i), h.item(P, q)))), 'no child twice')
        h.check(e.eq(h.st, h.get(P, 'num_individ'), Scal(n)), 'requested size unchanged')
        h.check(z3.BoolVal(isinstance(P, Ref) and P.fam.cls is cls), 'kind of population unchanged')
        h.check(Not(e.truth(h.st, h.get(P, 'is_sorted'))), 'not marked as sorted')
        h.unchanged(fams_of(mem) + fams_of(kid), pre, 'no individual is altered')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'replace-%s-%s-%s' % (multi, cls.__name__, mode)
    return run


def alts(v):
    return v.alts if isinstance(v, Union) else [(T, v)]


def same_ref(v, fam, i):
    return Or(*[And(g, w.idx[0] == i) for g, w in alts(v) if isinstance(w, Ref) and w.fam is fam])


def member_with(v, fam, N, cond):
    return Or(*[And(g, w.idx[0] >= 0, w.idx[0] < N, cond(w.idx[0])) for g, w in alts(v) if isinstance(w, Ref) and w.fam is fam])


def child(v, kid):
    return Or(*[g for g, w in alts(v) if isinstance(w, Ref) and w.fam is kid])


CONTRACTS = [replace(c, k, False, m) for m in ('best', 'random')
             for c, k in ((BinaryPopulation, BIN_KEYS), (BinaryGrayPopulation, BIN_KEYS), (CatPopulation, CAT_KEYS), (OrderCatPopulation, CAT_KEYS))]
CONTRACTS += [replace(c, BIN_KEYS, True, 'best') for c in (BinaryPopulation, BinaryGrayPopulation)]
