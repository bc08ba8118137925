import ast
from .common import *
from baumeva.ga import *
from pyvc.loops import HintInv, RecF, SumF, Lin
from pyvc.core import Fact, _apps
from .c09 import scored, parents, frame, own, by_cases


def roulette(h, v, W, N, ks=()):
    """the member t chosen for the parent owns the interval of cumulative shares  [sum W below t / total, sum W up to t / total)
    that contains one of the random numbers its choice was computed from"""
    from pyvc.core import _apps
    e = h.e
    t = e.arith(h.get(v, 'idx_individ'))
    A = total_of(h, W, N, ks)
    total = A(N)
    def tries(t):
        cands = [a for a in _apps(t) if e.draws.get(a.decl().name(), ('',))[0] == 'unit']
        if not cands:
            # chosen by a search: the numbers drawn in the iterations that chose it
            for kind, r, _, _ in e.draws.values():
                if kind == 'unit':
                    cands += [r.decl()(*a.children()) for a in _apps(t) if [c.sort() for c in a.children()] == [c.sort() for c in r.children()]]
            cands = list({c.get_id(): c for c in cands}.values())[:6]
        # the shares around the places the choice is computed from increase; the weights as the code added them up are those of the property
        for f in [f for f in e.sums.values() if f.range() == REAL and f.arity() == len(ks) + 1]:
            g = lambda x: f(*ks, x)
            h.note(g(N) > 0)
            h.note(e.divide(g(N), g(N)) >= 1)
            for w in [a for a in _apps(t) if a.sort() == INT and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args()][:2]:
                for x in (w, w - 1, If(w >= 0, w, num(0))):
                    h.note(Implies(And(x >= 0, x < N), e.divide(g(x), g(N)) < e.divide(g(x + 1), g(N))))
        for r in cands:
            yield [('the share interval of the member starts at or below the random number', e.divide(A(t), total) <= r),
                   ('the share interval of the member ends above the random number', r < e.divide(A(t + 1), total))]

    return by_cases(h, t, tries)[1] or [('chosen by a random number', F)]


def total_of(h, W, N, ks=()):
    """m -> sum of W(0) .. W(m-1)"""
    x = fresh_int('w')
    # ks: what the weights depend on besides the member
    h.e.ks += list(ks)
    try:
        h.e.summation(h.st, W(x), x, N)
        t = h.e.summation_term(W(x), x, z3.Int('Am'))
    finally:
        del h.e.ks[len(h.e.ks) - len(ks):]
    return lambda m: sub_e(t, [(z3.Int('Am'), m)])


def balanced(cls, keys, again=False):
    def run():
        h = H('BalancedSelection.execute on %s%s' % (cls.__name__, ', used before' if again else ''))
        e = h.e
        e.opaque_div = True
        N, n, L, m, cp, mem, S, pop, ga = scored(h, False, cls, keys)
        h.assume(N >= 2)
        h.forall_assume(lambda i: (And(0 <= i, i < N), mem.S(i) > 0, [mem.S(i)]))
        e.hints['*'] = [searching(N)]
        op = h.call(BalancedSelection)
        if again:
            h.earlier(op, 'execute', scored(h, False, cls, keys, 'earlier ')[-1])
        pre = h.st.copy()
        h.method(op, 'execute', ga)
        P = h.get(ga, 'parents')
        k = z3.ToInt(cp * z3.ToReal(n))
        h.check(h.len(P) == 2 * k, 'number of parents')
        q = h.int('pair')
        dom = [q >= 0, q < k]
        at = lambda r: 2 * q + r
        for r in (0, 1):
            h.check_scoped(dom, lambda: roulette(h, h.item(P, at(r)), mem.S, N), 'parent %d of a pair' % r)
        parents(h, P, at, dom, mem, N, keys)
        frame(h, ga, pop, mem, N, pre)
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'balanced-%s-%s' % (cls.__name__, again)
    return run


def is_number(v, e):
    real = lambda t: z3.ToReal(t) if t.sort() == INT else t
    return Or(*[And(g, real(w.e) == e) for g, w in (v.alts if isinstance(v, Union) else [(T, v)]) if isinstance(w, Scal)])


def pats_of(v, x):
    ts = [t for g, w in (v.alts if isinstance(v, Union) else [(T, v)]) for t in [g] + ([w.e] if isinstance(w, Scal) else [])]
    return [t for t in ts if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(b.eq(x) for b in t.children())]


def any_rank(h, mem, t=''):
    """the members may have ranks left over from earlier, or none"""
    has, r = h.fun(t + 'has_rank', INT, BOOL), h.fun(t + 'rank', INT, REAL)
    x = mem.xs[0]
    h.cell(mem, 'rank', mk_union([(has(x), Scal(r(x))), (Not(has(x)), MISS)]))


class Ties:
    """positions lo(x) .. hi(x)-1 of a sequence S(0) <= .. <= S(N-1) that are tied with x (by definition), and the average R of the ranks lo+1 .. hi"""

    def __init__(self, h, S, N, t=''):
        self.h, self.S, self.N = h, S, N
        self.lo, self.hi = lo, hi = h.fun(t + 'tie_from', INT, INT), h.fun(t + 'tie_to', INT, INT)
        h.assume(And(lo(num(0)) == 0, hi(N - 1) == N))
        h.forall_assume(lambda x, y: (And(0 <= x, y == x + 1, y < N), lo(y) == If(S(x) == S(y), lo(x), y), [(lo(x), lo(y)), (S(x), S(y))]), 2)
        h.forall_assume(lambda x, y: (And(0 <= x, y == x + 1, y < N), hi(x) == If(S(x) == S(y), hi(y), y), [(hi(x), hi(y)), (S(x), S(y))]), 2)
        pl = lambda x: [lo(x)]
        h.induct('a tie starts at or before its members', lambda x: And(lo(x) >= 0, lo(x) <= x), num(0), N - 1, soft=False, pats=pl)
        # downwards: x = N-1-t
        h.induct('a tie ends after its members', lambda t: And(hi(N - 1 - t) > N - 1 - t, hi(N - 1 - t) <= N), num(0), N - 1, soft=False)
        h.forall_assume(lambda x: (And(0 <= x, x < N), And(hi(x) > x, hi(x) <= N), [hi(x)]))
        p = z3.Int(t + 'tied')
        h.induct('tied positions have the same tie', lambda y: Implies(And(lo(y) <= p, p <= y, p >= 0), And(lo(p) == lo(y), hi(p) == hi(y), S(p) == S(y))), num(0), N - 1, soft=False,
                 params=(p,), pats=lambda y: [(lo(p), lo(y))])
        h.induct('earlier ties end before', lambda y: Implies(And(0 <= p, lo(p) <= p, p < lo(y)), hi(p) <= lo(y)), num(0), N - 1, soft=False, params=(p,), pats=lambda y: [(hi(p), lo(y))])

    def R(self, x):
        return z3.ToReal(self.lo(x) + 1 + self.hi(x)) / 2


    def hint(self, mem):
        lo, hi, N = self.lo, self.hi, self.N
        x = z3.Int('ranked')

        def done(S, k, c):
            v = S.heap[mem.id, 'rank'].at((x,))
            return [Fact((x,), And(x >= 0, x < N, c(k)), is_number(v, self.R(x)), [lo(x), hi(x)] + pats_of(v, x))]

        def hint(eng, entry, node, k, K, forms, locs):
            out = []
            if ('h', mem.id, 'rank') in locs and not eng.ks:
                out.append(HintInv('closed ties have average ranks', lambda S, k: done(S, k, lambda k: And(x < k, Or(hi(x) < k, k == N, hi(x) == lo(x) + 1)))))
            for key, f in forms.items():
                if isinstance(f, RecF) and key[0] == 'v' and isinstance(f.v0, Scal) and f.v0.e.sort() == INT:
                    l = locs[key]
                    for nm, g in (('one plus tied before', lambda k: If(k == 0, num(1), k - lo(k - 1))),):
                        out.append(HintInv('%s: %s' % (nm, key), lambda S, k, l=l, g=g: [Fact((), And(k >= 0, k <= N), eng.arith(l.get(S)) == g(k))]))
            if K is None:
                # whole ties at a time
                for key, f in forms.items():
                    l = locs[key]
                    v0 = l.get(entry)
                    if key[0] != 'v' or not (isinstance(v0, Scal) and v0.e.sort() == INT) or not isinstance(f, (RecF, SumF, Lin)):
                        continue
                    num_of = lambda S, l=l: eng.arith(l.get(S))
                    if isinstance(f, (RecF, SumF)):
                        out.append(HintInv('starts a tie: %s' % (key,), lambda S, k, v=num_of: [And(v(S) >= 0, v(S) <= N, Or(v(S) == N, lo(v(S)) == v(S)))]))
                        if ('h', mem.id, 'rank') in locs:
                            out.append(HintInv('ranked below: %s' % (key,), lambda S, k, v=num_of: done(S, k, lambda k: x < v(S))))
                    for nm, u in entry.frames[-1].vars.items():
                        if isinstance(u, Scal) and u.e.sort() == INT and ('v', len(entry.frames) - 1, nm) not in forms:
                            out.append(HintInv('within the tie of %s: %s' % (nm, key), lambda S, k, v=num_of, u=u: [And(v(S) > u.e, v(S) <= N, lo(v(S) - 1) == u.e)]))
            return out
        return hint


def searching(N):
    """a search through the cumulative shares has not passed the random number yet"""
    def hint(eng, entry, node, k, K, forms, locs):
        if K is None or not any(isinstance(b, (ast.Return, ast.Break)) for b in ast.walk(node)):
            return []
        rs = [r for kind, r, _, _ in eng.draws.values() if kind == 'unit'][-2:]
        ds = [f for f in eng.sums.values() if f.range() == REAL][:3]
        def share(d, k):
            o = eng.ks[:d.arity() - 1]
            return eng.divide(d(*o, k), d(*o, N))
        return [HintInv('searching up to the random number %d %d' % (i, j), lambda S, k, r=r, d=d: [Fact((), And(k >= 0, k <= N), share(d, k) <= r)])
                for i, d in enumerate(ds) for j, r in enumerate(rs) if len(eng.ks) >= d.arity() - 1]
    return hint


def ranked(cls, keys, again=False):
    def run():
        h = H('RankedSelection.execute on %s%s' % (cls.__name__, ', used before' if again else ''))
        e = h.e
        e.opaque_div = True
        N, n, L, m, cp, mem, S, pop, ga = scored(h, False, cls, keys)
        h.assume(N >= 2)
        h.forall_assume(lambda i, j: (And(0 <= i, i < j, j < N), mem.S(i) <= mem.S(j), [(mem.S(i), mem.S(j))]), 2)
        any_rank(h, mem)
        ties = Ties(h, mem.S, N)
        e.hints['*'] = [ties.hint(mem), searching(N)]
        op = h.call(RankedSelection)
        if again:
            old = scored(h, False, cls, keys, 'earlier ')
            any_rank(h, old[5], 'earlier ')
            h.earlier(op, 'execute', old[-1])
        pre = h.st.copy()
        h.method(op, 'execute', ga)
        P = h.get(ga, 'parents')
        k = z3.ToInt(cp * z3.ToReal(n))
        h.check(h.len(P) == 2 * k, 'number of parents')
        q = h.int('pair')
        dom = [q >= 0, q < k]
        at = lambda r: 2 * q + r
        x = h.int('x')
        h.check_scoped([x >= 0, x < N], lambda: is_number(h.get(Ref(mem, (x,)), 'rank'), ties.R(x)), 'the rank of a member is the average position of its tie')
        W = ties.R
        A = total_of(h, W, N)
        for f in h.sums(REAL):
            h.induct('accumulated ranks', lambda t: f(t) == A(t), num(0), N)
        e.S.retire({ties.lo(num(0)).decl().name(), ties.hi(num(0)).decl().name()})
        for r in (0, 1):
            h.check_scoped(dom, lambda: roulette(h, h.item(P, at(r)), W, N), 'parent %d of a pair' % r)
        parents(h, P, at, dom, mem, N, keys)
        frame(h, ga, pop, mem, N, pre, ('rank',))
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'ranked-%s-%s' % (cls.__name__, again)
    return run


KINDS = ((BinaryPopulation, BIN_KEYS), (CatPopulation, CAT_KEYS), (OrderCatPopulation, CAT_KEYS))
CONTRACTS = [f(c, k) for f in (balanced, ranked) for c, k in KINDS] + [f(BinaryPopulation, BIN_KEYS, True) for f in (balanced, ranked)]
