from .common import *
from baumeva.ga import *


def mut_env(h, popcls, keys, minlen=3, t=''):
    """children 0..C-1 with L(i) genes, arbitrary other fields; parents and population that must not change"""
    N, P, C = h.int(t + 'N'), h.int(t + 'P'), h.int(t + 'C')
    L = h.fun(t + 'L', INT, INT)
    Lm = h.fun(t + 'Lm', INT, INT)
    for c in (N >= 0, P >= 0, C >= 0):
        h.assume(c)
    h.forall_assume(lambda q: (T, And(L(q) >= minlen, Lm(q) >= 0), [L(q)]))
    mem = members(h, t + 'member', N, Lm, keys)
    par = members(h, t + 'parent', P, Lm, keys)
    ch = members(h, t + 'child', C, L, keys)
    pop = population(h, t + 'population', popcls, N, mem)
    pars = population(h, t + 'parents', popcls, P, par)
    chs = population(h, t + 'children', popcls, C, ch)
    ga = h.obj(t + 'ga_data', GaData, population=pop, parents=pars, children=chs)
    return ga, mem, par, ch, pop, pars, chs, C, L


def rest_unchanged(h, ga, mem, par, ch, pop, pars, chs, C, pre, keys, pools=()):
    """frame: everything but the children's genes"""
    i, i2 = h.int('i'), h.int('i2')
    h.unchanged(fams_of(mem) + fams_of(par) + [pop.fam, pars.fam, ga.fam] + list(pools), pre, 'frame')
    for k in keys:
        if k != 'genotype':
            h.same_cell(ch, k, pre.heap[(ch.id, k)], h.st.heap[(ch.id, k)], 'frame')
    if hasattr(ch, 'pf'):
        h.unchanged([ch.pf], pre, 'frame')
    h.unchanged([chs.fam], pre, 'frame')

    def own():
        g, g2 = h.get(Ref(ch, (i,)), 'genotype'), h.get(Ref(ch, (i2,)), 'genotype')
        out = [('own gene list', Not(h.e.identical(h.st, g, g2)))]
        vs = [w for _, w in g.alts] if isinstance(g, Union) else [g]
        out.append(('gene list is not one of a parent or member', z3.BoolVal(all(isinstance(w, Ref) and w.fam not in (mem.gf, par.gf) for w in vs))))
        return out
    h.check_scoped([i >= 0, i < C, i2 >= 0, i2 < C, i != i2], own, 'child storage')
    h.no_raise()
    h.vacuity()


def levels(lvl):
    """a number or one of the named levels"""
    k = z3.Int('level_kind')
    return Union([(k == 0, Str('weak')), (k == 1, Str('normal')), (k == 2, Str('strong')), (And(k != 0, k != 1, k != 2), Scal(lvl))])


def contract(cls, again):
    def run():
        h = H('%s.execute%s' % (cls.__name__, ', used before' if again else ''))
        ga, mem, par, ch, pop, pars, chs, C, L = mut_env(h, OrderCatPopulation, CAT_KEYS)
        inv = h.fun('inv', INT, Gene, INT)
        h.forall_assume(lambda a, b: (And(b >= 0, b < L(a)), inv(a, ch.G(a, b)) == b, [ch.G(a, b)]), 2)
        lvl = h.real('lvl')
        h.assume(And(lvl >= 0, lvl <= 1))
        op = h.call(cls, levels(lvl))
        if again:
            h.earlier(op, 'execute', mut_env(h, OrderCatPopulation, CAT_KEYS, t='earlier ')[0])
        pre = h.st.copy()
        h.method(op, 'execute', ga)
        i, j, j2 = h.int('i'), h.int('j'), h.int('j2')

        def length():
            return h.len(h.get(Ref(ch, (i,)), 'genotype')) == L(i)
        h.check_scoped([i >= 0, i < C], length, 'same length')

        def item():
            v = h.e.as_gene(h.st, h.item(h.get(Ref(ch, (i,)), "genotype"), j))
            return And(inv(i, v) >= 0, inv(i, v) < L(i), ch.G(i, inv(i, v)) == v)
        h.check_scoped([i >= 0, i < C, j >= 0, j < L(i)], item, 'every item is an item of the ordering')

        def distinct():
            g = h.get(Ref(ch, (i,)), 'genotype')
            return Not(h.e.eq(h.st, h.item(g, j), h.item(g, j2)))
        h.check_scoped([i >= 0, i < C, j >= 0, j < j2, j2 < L(i)], distinct, 'no item twice')
        rest_unchanged(h, ga, mem, par, ch, pop, pars, chs, C, pre, CAT_KEYS)
        return h
    run.cname = '%s-%s' % (cls.__name__, again)
    return run


CONTRACTS = [contract(c, a) for c in (SwapMutation, InversionMutation, MovementMutation, ShiftMutation) for a in (False, True)]
