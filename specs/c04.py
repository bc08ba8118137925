from .common import *
from .c02 import mut_env, rest_unchanged, levels
from baumeva.ga import *


def pools(h, K, t=''):
    """gens: K declarations, each a list of distinct values or a (start, end, step) tuple with start <= end, step >= 1"""
    isl = h.fun(t + 'pool.islist', INT, BOOL)
    V = h.fun(t + 'pool.value', INT, INT, Gene)
    vinv = h.fun(t + 'pool.inv', INT, Gene, INT)
    n = h.fun(t + 'pool.len', INT, INT)
    a, b, s = (h.fun(t + 'pool.' + k, INT, INT) for k in ('start', 'end', 'step'))
    f = h.fam(t + 'pool', 'list', 1)
    f.range = And(f.xs[0] >= 0, f.xs[0] < K)
    x = fresh_int('pe')
    h.cell(f, '@', Seq('list', n(f.xs[0]), x, Scal(V(f.xs[0], x))))
    h.forall_assume(lambda q: (T, n(q) >= 1, [n(q)]))
    h.forall_assume(lambda q: (T, And(a(q) <= b(q), s(q) >= 1), [a(q)]))
    h.forall_assume(lambda q: (T, And(a(q) <= b(q), s(q) >= 1), [s(q)]))
    h.forall_assume(lambda p, q: (And(q >= 0, q < n(p)), vinv(p, V(p, q)) == q, [V(p, q)]), 2)

    def decl(x):
        return Union([(isl(x), Ref(f, (x,))), (Not(isl(x)), SeqC('tuple', [Scal(a(x)), Scal(b(x)), Scal(s(x))]))])
    gens = h.seq('tuple', K, decl)

    def inside(k, g):
        """gene value g lies in declaration k"""
        v = toint(g)
        return And(Implies(isl(k), And(vinv(k, g) >= 0, vinv(k, g) < n(k), V(k, vinv(k, g)) == g)),
                   Implies(Not(isl(k)), And(g == ofint(v), v >= a(k), v <= b(k), (v - a(k)) % s(k) == 0)))
    return gens, f, inside, isl, n, (a, b, s), V


def bit_env(h, t=''):
    e = h.e
    env = mut_env(h, BinaryPopulation, BIN_KEYS, 0, t)
    ch, pop, L = env[3], env[4], env[8]
    z, o = e.sc('0'), e.sc('1')
    h.forall_assume(lambda a, b: (And(b >= 0, b < L(a)), Or(ch.G(a, b) == z, ch.G(a, b) == o), [ch.G(a, b)]), 2)
    nb = h.fun(t + 'offset', INT, INT)
    ng = h.int(t + 'ngens')
    h.assume(And(ng >= 1, nb(ng) >= 1))
    ib = h.list(t + 'idx_bits', ng + 1, lambda x: Scal(nb(x)))
    h.cell(pop.fam, 'idx_bits', ib)
    return env + (ib, z, o)


def bits(again=False):
    h = H('BinStringMutation.execute%s' % (', used before' if again else ''))
    e = h.e
    ga, mem, par, ch, pop, pars, chs, C, L, ib, z, o = bit_env(h)
    lvl = h.real('lvl')
    h.assume(And(lvl >= 0, lvl <= 1))
    op = h.call(BinStringMutation, levels(lvl))
    if again:
        h.earlier(op, 'execute', bit_env(h, 'earlier ')[0])
    pre = h.st.copy()
    h.method(op, 'execute', ga)
    i, j = h.int('i'), h.int('j')

    def gene():
        v = h.item(h.get(Ref(ch, (i,)), 'genotype'), j)
        return Or(e.eq(h.st, v, Scal(z)), e.eq(h.st, v, Scal(o)))
    h.check_scoped([i >= 0, i < C], lambda: h.len(h.get(Ref(ch, (i,)), 'genotype')) == L(i), 'same number of bits')
    h.check_scoped([i >= 0, i < C, j >= 0, j < L(i)], gene, 'every gene is a bit')
    rest_unchanged(h, ga, mem, par, ch, pop, pars, chs, C, pre, BIN_KEYS, [ib.fam])
    return h


def cat_env(h, t=''):
    K = h.int(t + 'K')
    h.assume(K >= 1)
    N, P, C = h.int(t + 'N'), h.int(t + 'P'), h.int(t + 'C')
    for c in (N >= 0, P >= 0, C >= 0):
        h.assume(c)
    pl = pools(h, K, t)
    gens, inside = pl[0], pl[2]
    mem, par, ch = (members(h, t + nm, c, K, CAT_KEYS) for nm, c in (('member', N), ('parent', P), ('child', C)))
    pop = population(h, t + 'population', CatPopulation, N, mem, gens=gens)
    pars, chs = population(h, t + 'parents', CatPopulation, P, par), population(h, t + 'children', CatPopulation, C, ch)
    ga = h.obj(t + 'ga_data', GaData, population=pop, parents=pars, children=chs)
    h.forall_assume(lambda p, q: (And(q >= 0, q < K), inside(q, ch.G(p, q)), [ch.G(p, q)]), 2)
    return ga, mem, par, ch, pop, pars, chs, C, K, pl


def cats(again=False):
    h = H('CategoricalMutation.execute%s' % (', used before' if again else ''))
    e = h.e
    ga, mem, par, ch, pop, pars, chs, C, K, (gens, pf, inside, isl, n, (a, b, s), V) = cat_env(h)
    lvl = h.real('lvl')
    h.assume(And(lvl >= 0, lvl <= 1))
    op = h.call(CategoricalMutation, levels(lvl))
    if again:
        h.earlier(op, 'execute', cat_env(h, 'earlier ')[0])
    pre = h.st.copy()
    h.method(op, 'execute', ga)
    i, j = h.int('i'), h.int('j')

    def gene():
        v = h.item(h.get(Ref(ch, (i,)), 'genotype'), j)
        g = e.as_gene(h.st, v)
        single = Or(And(isl(j), n(j) == 1), And(Not(isl(j)), a(j) + s(j) > b(j)))
        return [('value of the declared pool', inside(j, g)), ('single-valued gene unchanged', Implies(single, g == ch.G(i, j)))]
    h.check_scoped([i >= 0, i < C], lambda: h.len(h.get(Ref(ch, (i,)), 'genotype')) == K, 'same number of genes')
    h.check_scoped([i >= 0, i < C, j >= 0, j < K], gene, 'gene')
    rest_unchanged(h, ga, mem, par, ch, pop, pars, chs, C, pre, CAT_KEYS, [pf])
    return h


def named(f, again):
    def run():
        return f(again)
    run.cname = '%s-%s' % (f.__name__, again)
    return run


CONTRACTS = [named(f, a) for f in (bits, cats) for a in (False, True)]
