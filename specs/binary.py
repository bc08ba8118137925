"""Binary and Gray coding: gene declarations, the grid they stand for, and reading words."""
from .common import *
from pyvc import bits
from pyvc.engine import apps_of
from pyvc.loops import HintInv
from baumeva.ga import *


def gray_hints(e):
    """Gray decoding: with g = v xor v // 2, the number shifted k times is shr(g, k) and the part decoded is v xor shr(v, k)"""
    def hint(eng, entry, node, k, K, forms, locs):
        ls = [(key, l) for key, l in locs.items() if isinstance(l.get(entry), Scal) and l.get(entry).e.sort() == INT]
        ws = [l.get(entry).e for _, l in ls]
        out = []
        for gi, g in enumerate([w for w in ws if not z3.is_int_value(simp(w))][:2]):
            bits.gray_axioms(eng)
            v = bits.ginv(g)
            for key, l in ls:
                for nm, term in (('rest', lambda g, v, kk: bits.shr(g, kk)), ('rest1', lambda g, v, kk: bits.shr(g, simp(kk + 1))),
                                 ('part', lambda g, v, kk: bits.xor(v, bits.shr(v, kk))),
                                 ('part1', lambda g, v, kk: bits.xor(v, bits.shr(v, simp(kk + 1))))):
                    def fn(S, kk, l=l, term=term, g=g, v=v):
                        w = l.get(S)
                        return [Fact((), T, w.e == term(g, v, kk))] if isinstance(w, Scal) and w.e.sort() == INT else []
                    out.append(HintInv('%s %s %d' % (key, nm, gi), fn, always=True, cheap=True))
        return out
    e.hints.setdefault('*', []).append(hint)


class Genes:
    """K genes (low, high, step) with low < high and 0 < step <= high - low.
    whole: high - low is q steps for a whole number q; then NB(i) is the least number of bits with 2**NB - 1 >= q and
    off(i) the number of bits before gene i"""

    def __init__(self, h, K, whole=True):
        e = self.e = h.e
        self.h, self.K = h, K
        e.opaque_div = True
        lo, hi, sp = self.lo, self.hi, self.sp = [h.fun(x, INT, REAL) for x in ('low', 'high', 'step')]
        for f in (lo, sp):
            h.forall_assume(lambda i: (T, And(lo(i) < hi(i), sp(i) > 0, sp(i) <= hi(i) - lo(i)), [f(i)]))
        self.gens = h.seq('tuple', K, lambda i: SeqC('tuple', [Scal(lo(i)), Scal(hi(i)), Scal(sp(i))]))
        self.NB, self.off = h.fun('NB', INT, INT), h.fun('off', INT, INT)
        NB, off = self.NB, self.off
        e.divide(hi(num(0)), sp(num(0)))
        if whole:
            q = self.q = h.fun('q', INT, INT)
            # high - low = q * step, hence (high - low) / step = q   (rdiv_mul)
            h.forall_assume(lambda i: (T, And(e.rdiv(hi(i) - lo(i), sp(i)) == z3.ToReal(q(i)), q(i) >= 1), [sp(i)]))
            h.forall_assume(lambda i: (T, And(NB(i) >= 1, e.pow2(NB(i)) - 1 >= q(i), e.pow2(NB(i) - 1) - 1 < q(i)), [NB(i)]))
        else:
            # one gene, its number of bits is read off the individuals
            self.gens = SeqC('tuple', [SeqC('tuple', [Scal(lo(num(0))), Scal(hi(num(0))), Scal(sp(num(0)))])])
            h.assume(NB(num(0)) >= 0)
        self.whole = whole
        h.assume(off(num(0)) == 0)
        h.forall_assume(lambda i, j: (j == i + 1, Implies(i >= 0, off(j) == off(i) + NB(i)), [(off(i), off(j))]), 2)
        h.forall_assume(lambda i, j: (And(0 <= i, i < j), And(off(i) >= 0, off(i) + NB(i) <= off(j)), [(off(i), off(j))]), 2)
        gray_hints(e)

    def points(self, i):
        """number of intervals of gene i"""
        return self.e.pow2(self.NB(i)) - 1

    def spacing(self, i):
        return self.e.rdiv(self.hi(i) - self.lo(i), z3.ToReal(self.points(i)))

    def offsets(self):
        """running totals of bits are off"""
        h = self.h
        if not self.whole:
            return
        for f in h.sums(INT):
            any(h.induct('bits before a gene', lambda t: f(t) == self.off(t), num(0), self.K, pats=lambda t: [f(t)], free=free) for free in (True, False))

    def observe(self, pop):
        h = self.h
        if self.whole:
            return self.offsets()
        # the same number of bits in all individuals of one gene: NB names it
        h.assume(self.NB(num(0)) == h.len(h.get(h.item(pop, num(0)), 'genotype')))

    def word(self, name, digit):
        """V(i, j, m): the number whose binary digits are digit(i, j, 0) .. digit(i, j, m - 1)"""
        h, e = self.h, self.e
        V = h.fun(name, INT, INT, INT, INT)
        d = lambda a, b, m: bits.b2i(digit(a, b, m) == e.sc('1'))
        h.forall_assume(lambda a, b: (T, V(a, b, num(0)) == 0, [V(a, b, num(0))]), 2)
        h.forall_assume(lambda a, b, m, q: (q == m + 1, Implies(m >= 0, V(a, b, q) == 2 * V(a, b, m) + d(a, b, m)), [(V(a, b, m), V(a, b, q))]), 4)
        h.forall_assume(lambda a, b, m: (m >= 0, And(V(a, b, m) >= 0, V(a, b, m) < e.pow2(m)), [V(a, b, m)]), 3)
        return V

    def read(self, V, guard, ix):
        """the numbers the code reads from digits are the ones V speaks about"""
        h = self.h
        done = set()
        wx, j = (ix, ix[-1]) if self.whole else (ix[:-1], num(0))
        for W, ks, n, el, g in reversed(h.e.words):
            if W.name() in done or len(ks) != len(wx):
                continue
            done.add(W.name())
            h.induct('number read from digits', lambda t: Implies(guard, W(*wx, t) == V(ix[0], j, t)), num(0), self.NB(j), params=wx, pats=lambda t: [W(*wx, t)])

    def recall(self, guard, ix):
        """reading digits gives back the number that was written there, whichever of the numbers written it was"""
        h = self.h
        done = set()
        out = []
        if not self.whole:
            ix = ix[:-1]
        j = ix[-1] if self.whole else num(0)
        for W, ks, n, el, g in reversed(h.e.words):
            if W.name() in done or len(ks) != len(ix):
                continue
            done.add(W.name())
            seen = set()
            for c, cks, cg in reversed(h.e.coded):
                if len(cks) != len(ix):
                    continue
                c = sub_e(c, list(zip(cks, ix)))
                if c.get_id() in seen:
                    continue
                seen.add(c.get_id())
                NB = self.NB(j)
                if h.induct('digits written and read', lambda t: Implies(guard, W(*ix, t) == bits.shr(c, NB - t)), num(0), NB, params=ix, pats=lambda t: [W(*ix, t)]):
                    out.append((c, j))
        return out

    def nearest(self, c, x, j):
        """|x / d - c| <= 1/2 with d > 0 implies |c * d - x| <= d / 2  (rdiv_round)"""
        e = self.e
        d = self.spacing(j)
        u, t = z3.ToReal(c), e.rdiv(x, d)
        p = e.times(u, d)
        self.h.assume(Implies(And(d > 0, 2 * (u - t) <= 1, 2 * (t - u) <= 1), And(2 * (p - x) <= d, 2 * (x - p) <= d)))

    def steps(self, v, index, j):
        """index * spacing in v: first the spacing, then the index"""
        h, e = self.h, self.e
        d = self.spacing(j)
        for a in apps_of(v, e.scale):
            u, w = a.children()
            if h.note(w == d):
                for c in index:
                    if h.note(u == z3.ToReal(c)):
                        break
