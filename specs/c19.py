from .c10 import *
from .c10 import Ties, pats_of, any_rank, is_number, roulette, searching, total_of
from .c09 import scored, parents, frame


def vega_balanced(cls, keys, again=False):
    def run():
        h = H('VEGABalancedSelection.execute on %s%s' % (cls.__name__, ', used before' if again else ''))
        e = h.e
        e.opaque_div = True
        N, n, L, m, cp, mem, S, pop, ga = scored(h, True, cls, keys)
        h.assume(N >= 2)
        h.forall_assume(lambda i, o: (And(0 <= i, i < N), S(i, o) > 0, [S(i, o)]), 2)
        e.hints['*'] = [searching(N)]
        op = h.call(VEGABalancedSelection, Scal(m))
        if again:
            h.earlier(op, 'execute', scored(h, True, cls, keys, 'earlier ')[-1])
        pre = h.st.copy()
        h.method(op, 'execute', ga)
        P = h.get(ga, 'parents')
        k = z3.ToInt(e.divide(cp * z3.ToReal(n), z3.ToReal(m)))
        h.check(h.len(P) == 2 * k * m, 'number of parents')
        q, o = h.int('pair'), h.int('objective')
        dom = [q >= 0, q < k, o >= 0, o < m]
        at = lambda r: 2 * (q + o * k) + r
        for r in (0, 1):
            h.check_scoped(dom, lambda: roulette(h, h.item(P, at(r)), lambda x: S(x, o), N, (o,)), 'parent %d of a pair' % r)
        parents(h, P, at, dom, mem, N, keys)
        frame(h, ga, pop, mem, N, pre)
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'vbalanced-%s-%s' % (cls.__name__, again)
    return run


class VTies:
    """per objective o: the ties in an ascending arrangement T(o,0) <= .. <= T(o,N-1) of its scores"""

    def __init__(self, h, N, t=''):
        self.h, self.N, self.S = h, N, None
        self.T = Tf = h.fun(t + 'arranged', INT, INT, REAL)
        self.lo, self.hi = lo, hi = h.fun(t + 'tie_from', INT, INT, INT), h.fun(t + 'tie_to', INT, INT, INT)
        h.forall_assume(lambda o: (T, And(lo(o, num(0)) == 0, hi(o, N - 1) == N), [lo(o, num(0)), hi(o, N - 1)]))
        h.forall_assume(lambda x, y, o: (And(0 <= x, y == x + 1, y < N), lo(o, y) == If(Tf(o, x) == Tf(o, y), lo(o, x), y), [(lo(o, x), lo(o, y)), (Tf(o, x), Tf(o, y))]), 3)
        h.forall_assume(lambda x, y, o: (And(0 <= x, y == x + 1, y < N), hi(o, x) == If(Tf(o, x) == Tf(o, y), hi(o, y), y), [(hi(o, x), hi(o, y)), (Tf(o, x), Tf(o, y))]), 3)
        o, p = z3.Int(t + 'any objective'), z3.Int(t + 'tied')
        h.induct('a tie starts at or before its members', lambda x: And(lo(o, x) >= 0, lo(o, x) <= x), num(0), N - 1, soft=False, params=(o,), pats=lambda x: [lo(o, x)])
        h.induct('a tie ends after its members', lambda t: And(hi(o, N - 1 - t) > N - 1 - t, hi(o, N - 1 - t) <= N), num(0), N - 1, soft=False, params=(o,))
        h.forall_assume(lambda x, o: (And(0 <= x, x < N), And(hi(o, x) > x, hi(o, x) <= N), [hi(o, x)]), 2)
        h.induct('tied positions have the same tie', lambda y: Implies(And(lo(o, y) <= p, p <= y, p >= 0), And(lo(o, p) == lo(o, y), hi(o, p) == hi(o, y), Tf(o, p) == Tf(o, y))), num(0), N - 1, soft=False,
                 params=(o, p), pats=lambda y: [(lo(o, p), lo(o, y))])
        h.induct('earlier ties end before', lambda y: Implies(And(0 <= p, lo(o, p) <= p, p < lo(o, y)), hi(o, p) <= lo(o, y)), num(0), N - 1, soft=False, params=(o, p), pats=lambda y: [(hi(o, p), lo(o, y))])

    def R(self, o, x):
        return z3.ToReal(self.lo(o, x) + 1 + self.hi(o, x)) / 2

    def order(self, e):
        """the arrangement the code sorts into, as functions (objective, position) -> member and back.  T is defined from the first sort made"""
        if self.first is None:
            if not e.sigmas:
                return None
            i = z3.Int('i')
            sg = e.sigmas[-1](i)
            self.first = sg.decl(), e.inverse[sg.decl().name()](i).decl()
        d, t = self.first
        if d.arity() > 2:
            return None
        ap = lambda f: (lambda o, x: f(o, x) if f.arity() == 2 else f(x))
        return ap(d), ap(t)

    def define(self, e, S):
        so = self.order(e)
        if so:
            o, y = z3.Int('def_o'), z3.Int('def_y')
            e.S.facts.append(Fact((o, y), And(y >= 0, y < self.N), self.T(o, y) == S(so[0](o, y), o), [self.T(o, y)] + ([so[0](o, y)] if self.first[0].arity() == 2 else [])))
        return so

    first = None

    def hint(self, mem, S):
        lo, hi, N = self.lo, self.hi, self.N
        x = z3.Int('ranked')

        def hint(eng, entry, node, k, K, forms, locs):
            out = []
            if not eng.ks:
                return out
            so = self.define(eng, S)
            if not so:
                return out
            o = eng.ks[0]

            def done(st, k, c):
                v = rank_of(eng, st, mem, so[0](o, x), o)
                return [Fact((x,), And(x >= 0, x < N, c(k)), is_number(v, self.R(o, x)), [lo(o, x), hi(o, x), so[0](o, x)])]
            ranks = [key for key in locs if key[0] == 'h' and any(isinstance(w, Ref) and w.fam.id == key[1] for _, w in alts(entry.heap[mem.id, 'rank'].at((x,))))]
            if ranks and len(eng.ks) == 1:
                out.append(HintInv('closed ties have average ranks', lambda st, k: done(st, k, lambda k: And(x < k, Or(hi(o, x) < k, k == N, hi(o, x) == lo(o, x) + 1)))))
                def each(st, k, full=lambda st, k: k == N):
                    v = rank_of(eng, st, mem, x, o)
                    return [Fact((x,), And(x >= 0, x < N, full(st, k)), is_number(v, self.R(o, so[1](o, x))), pats_of(v, x) or [so[1](o, x)])]
                out.append(HintInv('every member has the rank of its position', each))
            if len(eng.ks) == 1:
                for key, f in forms.items():
                    if isinstance(f, RecF) and key[0] == 'v' and isinstance(f.v0, Scal) and f.v0.e.sort() == INT:
                        l = locs[key]
                        for nm, g in (('one plus tied before', lambda k: If(k == 0, num(1), k - lo(o, k - 1))),):
                            out.append(HintInv('%s: %s' % (nm, key), lambda st, k, l=l, g=g: [Fact((), And(k >= 0, k <= N), eng.arith(l.get(st)) == g(k))]))
            if K is None:
                # whole ties at a time
                for key, f in forms.items():
                    l = locs[key]
                    v0 = l.get(entry)
                    if key[0] != 'v' or not (isinstance(v0, Scal) and v0.e.sort() == INT) or not isinstance(f, (RecF, SumF, Lin)):
                        continue
                    num_of = lambda st, l=l: eng.arith(l.get(st))
                    if isinstance(f, (RecF, SumF)):
                        out.append(HintInv('starts a tie: %s' % (key,), lambda st, k, v=num_of: [And(v(st) >= 0, v(st) <= N, Or(v(st) == N, lo(o, v(st)) == v(st)))]))
                        if ranks and len(eng.ks) == 1:
                            out.append(HintInv('ranked below: %s' % (key,), lambda st, k, v=num_of: done(st, k, lambda k: x < v(st))))
                            out.append(HintInv('every member ranked: %s' % (key,), lambda st, k, v=num_of: each(st, k, lambda st, k: v(st) >= N)))
                    for nm, u in entry.frames[-1].vars.items():
                        if isinstance(u, Scal) and u.e.sort() == INT and ('v', len(entry.frames) - 1, nm) not in forms:
                            out.append(HintInv('within the tie of %s: %s' % (nm, key), lambda st, k, v=num_of, u=u: [And(v(st) > u.e, v(st) <= N, lo(o, v(st) - 1) == u.e)]))
            return out
        return hint


def alts(v):
    return v.alts if isinstance(v, Union) else [(T, v)]


def rank_of(e, st, mem, t, o):
    """entry o of the rank list of member t"""
    out = []
    for g, w in alts(prune(st.heap[mem.id, 'rank'].at((t,)))):
        if isinstance(w, Ref):
            for g2, q in alts(prune(st.heap[w.fam.id, '@'].at(w.idx))):
                if isinstance(q, (Seq, SeqC)):
                    for g3, u in alts(prune(seq_get(q, o))):
                        out.append((And(g, g2, g3, o >= 0, o < seq_len(q)), u))
    return mk_union(out) if out else NONE


def vega_ranked(cls, keys, again=False):
    def run():
        h = H('VEGARankedSelection.execute on %s%s' % (cls.__name__, ', used before' if again else ''))
        e = h.e
        e.opaque_div = True
        N, n, L, m, cp, mem, S, pop, ga = scored(h, True, cls, keys)
        h.assume(N >= 2)
        any_rank(h, mem)
        op = h.call(VEGARankedSelection, Scal(m))
        if again:
            old = scored(h, True, cls, keys, 'earlier ')
            any_rank(h, old[5], 'earlier ')
            h.earlier(op, 'execute', old[-1])
            e.sigmas.clear()
        ties = VTies(h, N)
        e.hints['*'] = [ties.hint(mem, S), searching(N)]
        pre = h.st.copy()
        h.method(op, 'execute', ga)
        P = h.get(ga, 'parents')
        k = z3.ToInt(e.divide(cp * z3.ToReal(n), z3.ToReal(m)))
        h.check(h.len(P) == 2 * k * m, 'number of parents')
        q, o = h.int('pair'), h.int('objective')
        dom = [q >= 0, q < k, o >= 0, o < m]
        at = lambda r: 2 * (q + o * k) + r
        so = ties.define(e, S)
        h.check(bool(so), 'the members are arranged')
        sg, ta = so
        i, j = h.int('i'), h.int('j')
        h.check_scoped([o >= 0, o < m, i >= 0, i < j, j < N], lambda: And(sg(o, i) >= 0, sg(o, i) < N, sg(o, i) != sg(o, j), S(sg(o, i), o) <= S(sg(o, j), o)), 'arranged in ascending order of the scores of the objective')
        W = lambda x: ties.R(o, ta(o, x))
        A = total_of(h, W, N, (o,))
        for f in [f for f in e.sums.values() if f.arity() == 2 and f.range() == REAL]:
            h.induct('accumulated ranks', lambda t: Implies(And(o >= 0, o < m), f(o, t) == A(t)), num(0), N, params=(o,), pats=lambda t: [f(o, t)])
        e.S.retire({ties.lo(o, o).decl().name(), ties.hi(o, o).decl().name()})
        for r in (0, 1):
            h.check_scoped(dom, lambda: roulette(h, h.item(P, at(r)), W, N, (o,)), 'parent %d of a pair' % r)
        parents(h, P, at, dom, mem, N, keys)
        frame(h, ga, pop, mem, N, pre, ('rank',))
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'vranked-%s-%s' % (cls.__name__, again)
    return run


KINDS = ((BinaryPopulation, BIN_KEYS), (CatPopulation, CAT_KEYS))
CONTRACTS = [f(c, k) for f in (vega_balanced, vega_ranked) for c, k in KINDS] + [f(BinaryPopulation, BIN_KEYS, True) for f in (vega_balanced, vega_ranked)]
