from .common import *
from baumeva.ga import *
from pyvc.loops import HintInv


def parents(h, P, at, dom, mem, N, keys):
    """both parents of a pair are independent copies of different members; the number of a member is its position"""
    e = h.e

    def copyof(v):
        out = []
        t = e.arith(h.get(v, 'idx_individ'))
        out.append(('is numbered as a member', And(t >= 0, t < N)))
        m = Ref(mem, (t,))
        for k in keys:
            a, b = h.get(v, k), h.get(m, k)
            out.append((k + ' as in the member', e.eq(h.st, a, b)))
            if any(isinstance(w, Ref) for _, w in (a.alts if isinstance(a, Union) else [(T, a)])):
                out.append((k + ' has own storage', own(a)))
        out.append(('own storage', own(v)))
        return out
    for r in (0, 1):
        h.check_scoped(dom, lambda: copyof(h.item(P, at(r))), 'parent %d of a pair' % r)
    h.check_scoped(dom, lambda: Not(e.eq(h.st, h.get(h.item(P, at(0)), 'idx_individ'), h.get(h.item(P, at(1)), 'idx_individ'))), 'the parents of a pair are different members')
    p1, p2 = h.int('p1'), h.int('p2')
    h.check_scoped([p1 >= 0, p1 < p2, p2 < h.len(P)], lambda: [
        ('individuals', Not(e.identical(h.st, h.item(P, p1), h.item(P, p2)))),
        ('gene lists', Not(e.identical(h.st, h.get(h.item(P, p1), 'genotype'), h.get(h.item(P, p2), 'genotype'))))], 'parents share no storage')


def own(v):
    return z3.BoolVal(all(isinstance(w, Ref) and not w.fam.pre for _, w in (v.alts if isinstance(v, Union) else [(T, v)])))


def winner(h, v, mem, S, N, ts):
    """the parent's member t is part of ts different members none of which scores better.  The members of its tournament are
    read off the term that computes t (any sample occurring there is tried)."""
    from pyvc.core import _apps
    e = h.e
    t = e.arith(h.get(v, 'idx_individ'))
    j, j2 = h.int('tj'), h.int('tj2')

    def tries(t):
        cands = []
        for a in _apps(t):
            if a.decl().name().startswith('smp~') and not any(a.children()[:-1] == c.children()[:-1] and a.decl().eq(c.decl()) for c in cands):
                cands.append(a)
        for c in cands:
            W = lambda x, c=c: c.decl()(*(c.children()[:-1] + [x]))
            yield [('tournament of members', Implies(And(j >= 0, j < ts), And(W(j) >= 0, W(j) < N))),
                   ('tournament members are different', Implies(And(j >= 0, j < j2, j2 < ts), W(j) != W(j2))),
                   ('the parent takes part', Or(*[And(x.children()[-1] >= 0, x.children()[-1] < ts, W(x.children()[-1]) == t) for x in [a for a in _apps(t) if a.decl().eq(c.decl())]])),
                   ('nobody in the tournament scores better', Implies(And(j >= 0, j < ts), S(W(j)) <= S(t)))]
    return by_cases(h, t, tries)[1] or [('winner of a tournament', F)]


def by_cases(h, t, tries, guard=T, depth=3):
    """(proved?, goals): the first of the candidate witnesses that proves everything; where none does, the cases the term t
    distinguishes each get their own witness"""
    best = None
    for goals in tries(t):
        goals = [(l, Implies(guard, g) if not z3.is_true(guard) else g) for l, g in goals]
        best = best or goals
        if all(h.provable(g) for _, g in goals):
            return True, goals
    # first the decisions between differently computed choices
    ites = sorted([a for a in subterms(t) if z3.is_app_of(a, z3.Z3_OP_ITE)], key=lambda a: drawn(h, a.arg(1)) == drawn(h, a.arg(2)))
    if not ites or not depth:
        return False, best
    c = ites[0].arg(0)
    out = []
    for g, v in ((c, T), (Not(c), F)):
        g = And(guard, g)
        if h.provable(Not(g)):
            continue
        ok, goals = by_cases(h, z3.simplify(z3.substitute(t, (c, v))), tries, g, depth - 1)
        if not ok:
            return False, best or goals
        out += goals
    return True, out


def drawn(h, t):
    """the random choices a term is computed from"""
    return {a.decl().name() for a in subterms(t) if z3.is_app(a) and (a.decl().name().startswith('smp~') or a.decl().name() in h.e.draws)}


def subterms(t):
    """outermost first"""
    todo, seen = [t], set()
    while todo:
        a = todo.pop(0)
        if a.get_id() in seen:
            continue
        seen.add(a.get_id())
        yield a
        todo += a.children()


def frame(h, ga, pop, mem, N, pre, also=()):
    e = h.e
    i = h.int('fi')
    h.check(e.identical(h.st, h.get(ga, 'population'), pop), 'the population is not replaced')
    h.check(h.len(pop) == N, 'population size unchanged')
    h.check_scoped([i >= 0, i < N], lambda: e.identical(h.st, h.item(pop, i), Ref(mem, (i,))), 'members stay in place')
    h.check_scoped([i >= 0, i < N], lambda: e.eq(h.st, h.get(Ref(mem, (i,)), 'idx_individ'), Scal(i)), 'members are renumbered')
    for f in fams_of(mem) + ([mem.sf] if hasattr(mem, 'sf') else []):
        for (fid, k), c in list(h.st.heap.items()):
            if fid == f.id and not (f is mem and (k == 'idx_individ' or k in also)):
                h.same_cell(f, k, pre.heap.get((fid, k)), c, 'frame')


def scored(h, multi, cls, keys, t=''):
    """a population with (per objective) scores"""
    N, n, L, m = h.int(t + 'N'), h.int(t + 'num_individ'), h.int(t + 'L'), h.int('m')
    cp = h.real(t + 'children_percent')
    h.assume(And(N >= n, L >= 0, cp >= 0, n >= 0, m >= 1))
    mem = members(h, t + 'member', N, L, keys if not multi else tuple(k for k in keys if k not in ('score', 'obj_score')))
    x = mem.xs[0]
    if multi:
        S = h.fun(t + 'member.score', INT, INT, REAL)
        sf = h.fam(t + 'member.scores', 'list', 1)
        sf.range = And(sf.xs[0] >= 0, sf.xs[0] < N)
        y = fresh_int('so')
        h.cell(sf, '@', Seq('list', m, y, Scal(S(sf.xs[0], y))))
        h.cell(mem, 'score', Ref(sf, (x,)))
        mem.sf = sf
    else:
        S = lambda i, o: mem.S(i)
    pop = population(h, t + 'population', cls, N, mem, num_individ=Scal(n), is_sorted=Scal(z3.Bool(t + 'is_sorted')), rnd_seed=NONE)
    ga = h.obj(t + 'ga_data', MultiGaData if multi else GaData, population=pop, parents=NONE, children=NONE, children_percent=Scal(cp))
    return N, n, L, m, cp, mem, S, pop, ga


def tourn(multi, cls=BinaryPopulation, keys=BIN_KEYS, again=False):
    def run():
        h = H(('VEGATournamentSelection' if multi else 'TournamentSelection') + '.execute on ' + cls.__name__ + (', used before' if again else ''))
        e = h.e
        ts = h.int('tsize')
        N, n, L, m, cp, mem, S, pop, ga = scored(h, multi, cls, keys)
        op = h.call(VEGATournamentSelection, Scal(m), Scal(ts)) if multi else h.call(TournamentSelection, Scal(ts))
        if again:
            h.earlier(op, 'execute', scored(h, multi, cls, keys, 'earlier ')[-1])
        pre = h.st.copy()
        h.method(op, 'execute', ga)
        for s, exc, where in e.sinks[0]:
            e.obligation(s, Or(ts < 2, ts >= n), 'rejected only for a bad tournament size (%s at %s)' % (exc.__name__, where))
        e.sinks[0] = []
        h.check(And(ts >= 2, ts < n), 'bad tournament sizes are rejected')
        P = h.get(ga, 'parents')
        k = z3.ToInt(cp * z3.ToReal(n) / z3.ToReal(m)) if multi else z3.ToInt(cp * z3.ToReal(n))
        total = 2 * k * m if multi else 2 * k
        h.check(h.len(P) == total, 'number of parents')
        q = h.int('pair')
        o = h.int('objective')
        dom = [q >= 0, q < k] + ([o >= 0, o < m] if multi else [])
        at = lambda r: 2 * (q + (o * k if multi else 0)) + r
        parents(h, P, at, dom, mem, N, keys)
        for r in (0, 1):
            h.check_scoped(dom, lambda: winner(h, h.item(P, at(r)), mem, lambda i: S(i, o), N, ts), 'parent %d of a pair' % r)
        frame(h, ga, pop, mem, N, pre)
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'tourn%d_%s-%s' % (multi, cls.__name__, again)
    return run


CONTRACTS = [tourn(False), tourn(False, CatPopulation, CAT_KEYS), tourn(False, OrderCatPopulation, CAT_KEYS), tourn(True), tourn(True, CatPopulation, CAT_KEYS),
             tourn(False, again=True), tourn(True, again=True)]
