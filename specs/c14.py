from .common import *
from .c13 import Env, PenaltyEnv, conditional, PEN
from baumeva.ga import *


class Conds:
    """n conditions with signs c(j) and values"""

    def __init__(self, h, bad=False):
        self.h = h
        e = h.e
        self.n = h.int('nconditions')
        self.c = h.fun('condition', INT, Gene)
        h.assume(self.n >= 0)
        self.le, self.ne = e.sc('<='), e.sc('!=')
        if not bad:
            h.forall_assume(lambda j: (And(j >= 0, j < self.n), Or(self.c(j) == self.le, self.c(j) == self.ne), [self.c(j)]))
        self.list = h.list('conditions', self.n, lambda x: Scal(self.c(x)))

    def values(self, name, n=None):
        v = self.h.fun(name, INT, REAL)
        return v, self.h.list(name + 's', self.n if n is None else n, lambda x: Scal(v(x)))

    def viol(self, v, j):
        return If(self.c(j) == self.ne, If(v(j) >= 0, v(j), -v(j)), If(v(j) > 0, v(j), z3.RealVal(0)))


def args_of(cls, h, conds, vals, gen, best):
    if cls is DynamicPenalty:
        return dict(conditionals=conds, values=vals, iter_generation=Scal(gen))
    if cls is AdaptivePenalty:
        return dict(conditionals=conds, values=vals, best_individ=best, iter_generation=Scal(gen))
    return dict(conditionals=conds, values=vals)


def make(h, cls):
    """a penalty with arbitrary valid parameters, in an arbitrary state left by earlier calls"""
    r = lambda n: Scal(h.real(n))
    if cls is DynamicPenalty:
        h.assume(And(*[h.real(x) > 0 for x in ('delta', 'c', 'alpha', 'betta')]))
        p = h.call(cls, r('delta'), r('c'), r('alpha'), r('betta'))
    else:
        h.assume(And(h.real('delta') > 0, h.real('betta') > 0, h.real('betta_1') > 1, h.real('betta_2') > 1, h.real('betta_1') != h.real('betta_2')))
        p = h.call(cls, r('delta'), r('betta_1'), r('betta_2'), r('betta'))
    used(h, p)
    return p


def used(h, p):
    h.e.setattr(h.st, p, 'penalty', Scal(h.real('last_penalty')), None)
    h.e.setattr(h.st, p, 'sum_conditional', Scal(h.real('last_sum')), None)


def sign(cls):
    def run():
        h = H('%s.execute: sign and growth' % cls.__name__)
        e = h.e
        pen = make(h, cls)
        C = Conds(h)
        v, vals = C.values('value')
        w, vals2 = C.values('other_value')
        n, gen, p, q = C.n, h.int('gen'), h.int('p'), h.int('q')
        h.assume(gen >= 0)
        feas, inf, grow = z3.Bools('feasible infeasible grown')
        h.forall_assume(lambda j: (And(feas, j >= 0, j < n), C.viol(v, j) == 0, [v(j)]))
        h.assume(Implies(inf, And(q >= 0, q < n, C.viol(v, q) > 0)))
        h.assume(Implies(grow, And(p >= 0, p < n, C.viol(w, p) > C.viol(v, p))))
        h.forall_assume(lambda j: (And(grow, j >= 0, j < n, j != p), w(j) == v(j), [w(j)]))
        bf = h.fam('best', 'dict', 0)
        h.cell(bf, 'feasible', Scal(z3.Bool('best_feasible')))
        best = Union([(gen == 0, NONE), (gen != 0, Ref(bf))])
        pre = h.st.copy()
        r1 = e.arith(h.method(pen, 'execute', **args_of(cls, h, C.list, vals, gen, best)))
        h.check(e.eq(h.st, h.get(pen, 'penalty'), Scal(r1)), 'the penalty is recorded')
        r2 = e.arith(h.method(pen, 'execute', **args_of(cls, h, C.list, vals2, gen, best)))
        h.no_raise()
        S = h.sums()
        for s in S:
            nm = 'sum of violations'
            h.induct(nm + ' >= 0', lambda t: s(t) >= 0, num(0), n)
            h.induct(nm + ' = 0 without violations', lambda t: Implies(feas, s(t) == 0), num(0), n)
            h.induct(nm + ' > 0 with one', lambda t: Implies(And(inf, t > q), s(t) > 0), num(0), n)
        for a in S:
            for b in S:
                if a.eq(b):
                    continue
                if h.induct('sums agree before the grown violation', lambda t: Implies(And(grow, t <= p), a(t) == b(t)), num(0), n):
                    h.induct('sums differ after it', lambda t: Implies(And(grow, t > p), a(t) < b(t)), num(0), n)
        h.check(And(r1 >= 0, r2 >= 0), 'never negative')
        h.check(Implies(feas, r1 == 0), 'zero for feasible values')
        h.check(Implies(And(inf, gen >= 1), r1 > 0), 'positive for violations from the second generation on')
        h.check(Implies(And(grow, gen >= 1), r2 > r1), 'grows with every single violation')
        h.unchanged([C.list.fam, vals.fam, vals2.fam, bf], pre, 'frame')
        h.vacuity()
        return h
    run.cname = 'sign-' + cls.__name__
    return run


def tables(h, C):
    """interval tables and coefficients of the static penalty; keys of a table: the conditions of its kind"""
    out = []
    for nm, sg in (('equality', C.ne), ('inequality', C.le)):
        E = h.fun(nm + '.intervals', INT, INT)
        lo, hi, co = (h.fun(nm + x, INT, INT, REAL) for x in ('.lo', '.hi', '.coef'))
        h.forall_assume(lambda j: (T, E(j) >= 0, [E(j)]))
        size = h.int(nm + '.size')
        h.assume(size >= 0)
        maps = []
        for what in ('intervals', 'coef'):
            f = h.fam('%s_%s' % (nm, what), 'list', 1)
            y = fresh_int('y')
            x = f.xs[0]
            body = SeqC('tuple', [Scal(lo(x, y)), Scal(hi(x, y))]) if what == 'intervals' else Scal(co(x, y))
            h.cell(f, '@', Seq('list', E(x), y, body))
            k = fresh_int('k')
            maps.append((f, MapV(k, And(k >= 0, k < C.n, C.c(k) == sg), Ref(f, (k,)), size)))
        out.append((E, lo, hi, co, maps))
    return out


def static():
    h = H('StaticPenalty.execute: value')
    e = h.e
    C = Conds(h)
    v, vals = C.values('value')
    n = C.n
    (E1, lo1, hi1, co1, m1), (E2, lo2, hi2, co2, m2) = tables(h, C)
    g = h.fun('interval_of', INT, INT)
    x = lambda j: C.viol(v, j)
    eq = lambda j: C.c(j) == C.ne
    E = lambda j: If(eq(j), E1(j), E2(j))
    inside = lambda j, t: And(If(eq(j), lo1(j, t), lo2(j, t)) < x(j), x(j) < If(eq(j), hi1(j, t), hi2(j, t)))
    h.forall_assume(lambda j: (And(j >= 0, j < n, x(j) > 0), And(g(j) >= 0, g(j) < E(j), inside(j, g(j))), [v(j)]))
    for lo, hi, sg in ((lo1, hi1, C.ne), (lo2, hi2, C.le)):
        h.forall_assume(lambda j, t: (And(j >= 0, j < n, x(j) > 0, t >= 0, t < E(j), t != g(j), C.c(j) == sg), Not(inside(j, t)), [lo(j, t), hi(j, t)]), 2)
    pen = h.call(StaticPenalty, m1[0][1], m1[1][1], m2[0][1], m2[1][1])
    used(h, pen)
    term = lambda j: If(x(j) > 0, (If(eq(j), co1(j, g(j)), co2(j, g(j))) * x(j)) * (If(eq(j), co1(j, g(j)), co2(j, g(j))) * x(j)), z3.RealVal(0))
    T_ = h.fun('expected_sum', INT, REAL)
    h.assume(T_(num(0)) == 0)
    h.forall_assume(lambda a, b: (And(b == a + 1, a >= 0), T_(b) == T_(a) + term(a), [(T_(a), T_(b))]), 2)
    pre = h.st.copy()
    r = e.arith(h.method(pen, 'execute', conditionals=C.list, values=vals))
    h.no_raise()
    for s in h.sums():
        h.induct('sum of squares of coefficient times violation', lambda t: s(t) == T_(t), num(0), n)
    h.check(r == T_(n), 'the penalty is the sum of squares of coefficient times violation')
    h.check(e.eq(h.st, h.get(pen, 'penalty'), Scal(r)), 'the penalty is recorded')
    feas = z3.Bool('feasible')
    h.forall_assume(lambda j: (And(feas, j >= 0, j < n), x(j) == 0, [v(j)]))
    h.induct('the sum is zero without violations', lambda t: Implies(feas, T_(t) == 0), num(0), n, soft=False)
    h.check(Implies(feas, r == 0), 'zero for feasible values')
    h.unchanged([C.list.fam, vals.fam] + [m[0] for m in m1 + m2], pre, 'frame')
    h.vacuity()
    return h


static.cname = 'static'


def reject(cls, what):
    def run():
        h = H('%s.execute rejects %s' % (cls.__name__, what))
        e = h.e
        C = Conds(h, True)
        if cls is StaticPenalty:
            (_, _, _, _, m1), (_, _, _, _, m2) = tables(h, C)
            pen = h.call(StaticPenalty, m1[0][1], m1[1][1], m2[0][1], m2[1][1])
            used(h, pen)
        else:
            pen = make(h, cls)
        nv = C.n
        if what == 'unknown signs':
            b = h.int('bad_at')
            h.assume(And(b >= 0, b < C.n, C.c(b) != C.le, C.c(b) != C.ne))
        else:
            nv = h.int('nvalues')
            h.assume(And(nv >= 0, nv != C.n))
        v, vals = C.values('value', nv)
        gen = h.int('gen')
        h.assume(gen >= 0)
        bf = h.fam('best', 'dict', 0)
        h.cell(bf, 'feasible', Scal(z3.Bool('best_feasible')))
        e.sinks[0] = []
        try:
            h.method(pen, 'execute', **args_of(cls, h, C.list, vals, gen, Ref(bf)))
            h.check(F, 'no penalty is returned')
        except Dead:
            h.check(T, 'no penalty is returned')
        return h
    run.cname = 'reject-%s-%s' % (cls.__name__, what)
    return run


def flag(cls, keys, pen):
    def run():
        h = H('HyperbolaFitness.execute on %s, %s penalty: feasibility' % (cls.__name__, pen))
        e = h.e
        n = h.int('nconditions')
        env = Env(h, cls, keys, False, 'tuple', NONE, n)
        conds, c, p = conditional(h, n, False)
        pe = PenaltyEnv(env, PEN[pen], c, p, n)
        fit = h.call(HyperbolaFitness, env.fn, obj_value=NONE, penalty=pe.obj, conditions=conds)
        h.method(fit, 'execute', env.ga)
        i, q, i0 = h.int('i'), h.int('q'), h.int('i0')
        le = e.sc('<=')
        holds = lambda i, q: If(c(q) == le, env.V(i, q) <= 0, env.V(i, q) == 0)
        ok = z3.Bool('all_hold')
        h.forall_assume(lambda q: (And(ok, q >= 0, q < n, q != p), holds(i0, q), [env.V(i0, q)]))
        feasible = lambda i: e.truth(h.st, h.get(Ref(env.mem, (i,)), 'feasible'))
        rng = [i >= 0, i < env.N, env.fresh(i)]
        # position of condition q among the values without the optimised one
        pos = h.int('pos')
        h.check_scoped(rng + [q >= 0, q < n, q != p, pos == If(q < p, q, q - 1), h.real('value_there') == env.V(i, pos)], lambda: Implies(feasible(i), holds(i, q)), 'marked feasible only if every condition holds')
        h.check_scoped([i0 >= 0, i0 < env.N, env.fresh(i0), ok], lambda: feasible(i0), 'marked feasible if every condition holds')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'flag-%s-%s' % (cls.__name__, pen)
    return run


CONTRACTS = [sign(DynamicPenalty), sign(AdaptivePenalty), static]
CONTRACTS += [reject(c, w) for c in (DynamicPenalty, AdaptivePenalty, StaticPenalty) for w in ('unknown signs', 'mismatched numbers of values')]
CONTRACTS += [flag(c, k, p) for c, k in ((BinaryPopulation, BIN_KEYS), (BinaryGrayPopulation, BIN_KEYS), (CatPopulation, CAT_KEYS), (OrderCatPopulation, CAT_KEYS))
              for p in ('dynamic', 'adaptive', 'static')]
