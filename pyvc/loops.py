"""Loops: guess a closed form of the state after k iterations, verify it inductively with the solver, continue with it.
The guess is only a proposal; a loop is summarised by a form only after the solver proved  S(0)=entry  and
S(k) --body--> S(k+1)  for arbitrary k."""
import z3
from .values import *
from .core import *
from .core import _apps
from .engine import ItV, DictView, pos

MAX_UNROLL = 8


class Loc:
    __slots__ = ('kind', 'a', 'b', 'c', 'd')

    def __init__(self, kind, a, b=None, c=None, d=None):
        self.kind, self.a, self.b, self.c, self.d = kind, a, b, c, d

    @property
    def key(self):
        if self.kind == 'v':
            return ('v', self.a, self.b)
        if self.kind == 'g':
            return ('g', self.a)
        if self.kind == 'c':
            return ('c', self.a.id, self.b, tuple(str(i) for i in self.c))
        return ('h', self.a.id, self.b)

    def get(self, st):
        if self.kind == 'v':
            return st.frames[self.a].vars.get(self.b, MISS)
        if self.kind == 'g':
            return st.ghost.get(self.a, MISS)
        c = st.heap.get((self.a.id, self.b))
        if self.kind == 'c':
            if c is None:
                return UNDEF
            return c.at(self.c)
        return c.body if c is not None else UNDEF

    def set(self, st, v, eng):
        if self.kind == 'v':
            st.frames[self.a].vars[self.b] = v
        elif self.kind == 'g':
            st.ghost[self.a] = v
        elif self.kind == 'c':
            k = (self.a.id, self.b)
            if self.a.arity == 0:
                st.heap[k] = Cell((), v)
            else:
                old = st.heap.get(k)
                cond = And(*[x == i for x, i in zip(self.a.xs, self.c)])
                st.heap[k] = Cell(self.a.xs, ite(cond, v, old.body if old is not None else UNDEF))
        else:
            st.heap[(self.a.id, self.b)] = Cell(self.a.xs, v)

    def __repr__(self):
        if self.kind in 'vg':
            return '%s:%s' % (self.b if self.kind == 'v' else self.a, self.kind)
        return '%s:%r.%s%s' % (self.kind, self.a, self.b, list(self.c) if self.kind == 'c' else '')


# ---------------------------------------------------------------------------------------------- forms
class Form:
    """closed form of one location"""
    rank = 0

    def at(self, k):
        raise NotImplementedError

    def local_facts(self, eng, k, R):
        """facts linking S(k) and S(k+1), valid by definition of the form's own functions"""
        return []

    def loop_facts(self, eng, k, Kf):
        """facts about S(t), 0<=t<=Kf, valid by definition"""
        return []


class Const(Form):
    def __init__(self, v):
        self.v = v

    def at(self, k):
        return self.v


class Over(Form):
    """overwritten in every iteration"""
    def __init__(self, v0, r, kc):
        self.v0, self.r, self.kc = v0, r, kc

    def at(self, k):
        k = simp(k)
        return ite(simp(k == 0), self.v0, subst(self.r, [(self.kc, simp(k - 1))]))


class Lin(Form):
    def __init__(self, v0, d):
        self.v0, self.d = v0, d

    def at(self, k):
        e, d = self.v0, self.d
        kk = z3.ToReal(k) if d.sort() == REAL else k
        t = simp(d * kk)
        if e.sort() != t.sort():
            e = z3.ToReal(e) if e.sort() == INT else e
            t = z3.ToReal(t) if t.sort() == INT else t
        return Scal(simp(e + t))


class SumF(Form):
    def __init__(self, v0, fn, d, kc):
        self.v0, self.fn, self.d, self.kc = v0, fn, d, kc

    def at(self, k):
        e, t = self.v0, self.fn(k)
        if lit0(k):
            return Scal(e)
        if e.sort() != t.sort():
            e = z3.ToReal(e) if e.sort() == INT else e
            t = z3.ToReal(t) if t.sort() == INT else t
        return Scal(simp(e + t)) if not lit0(e) else Scal(t)

    def local_facts(self, eng, k, R):
        a, b = self.fn(k + 1), self.fn(k)
        return [a == b + self.d]


def diff(a, b):
    """a - b with the subtraction pushed into case distinctions"""
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        c, p, q = a.children()
        return If(c, diff(p, b), diff(q, b))
    return simp(a - b)


def lit0(e):
    s = simp(e)
    return (z3.is_int_value(s) and s.as_long() == 0) or (z3.is_rational_value(s) and s.as_fraction() == 0)


def plain_positions(e):
    """If(0 <= t, t, t + n) read as t: a guess that positions do not count from the end"""
    memo = {}

    def go(t):
        r = memo.get(t.get_id())
        if r is None:
            if z3.is_app(t) and t.num_args():
                cs = [go(c) for c in t.children()]
                if z3.is_app_of(t, z3.Z3_OP_ITE) and cs[1].sort() == INT and any(simp(t.arg(0)).eq(simp(c)) for c in (t.arg(1) >= 0, num(0) <= t.arg(1))):
                    r = cs[1]
                else:
                    r = t.decl()(*cs) if not all(a.eq(b) for a, b in zip(cs, t.children())) else t
            else:
                r = t
            memo[t.get_id()] = r
        return r
    return simp(go(e))


def plain_value(v):
    return Scal(plain_positions(v.e)) if isinstance(v, Scal) else prune(v)


def branches(e):
    """the values a case distinction may have"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return branches(e.arg(1)) + branches(e.arg(2))
    return [e]


class AppendF(Form):
    """d elements appended in every iteration"""
    rank = 1

    def __init__(self, q0, d, vs, kc, piece=None):
        self.q0, self.d, self.vs, self.kc, self.piece = q0, d, vs, kc, piece

    def at(self, k):
        q0, d = self.q0, self.d
        n0 = seq_len(q0)
        x = fresh_int('ap')
        y = simp(x - n0)
        if d == 1:
            new = subst(self.vs[0], [(self.kc, y)])
        else:
            t = simp(y / d)
            if self.piece is not None:
                new = subst(subst(self.piece.body, [(self.piece.x, simp(y % d))]), [(self.kc, t)])
            else:
                new = subst(self.vs[-1], [(self.kc, t)])
                for j in range(d - 2, -1, -1):
                    new = ite(y % d == j, subst(self.vs[j], [(self.kc, t)]), new)
        if lit0(n0):
            body = new
        else:
            body = ite(x < n0, seq_get(q0, x), new)
        return Seq(q0.kind if q0.kind else 'list', simp(n0 + d * k), x, body)


class AccF(AppendF):
    """one number appended per iteration: the last one plus d(k)"""
    def __init__(self, q0, e0, fn, d, kc):
        self.fn, self.inc = fn, d
        e = simp(e0 + fn(simp(kc + 1))) if not lit0(e0) else fn(simp(kc + 1))
        AppendF.__init__(self, q0, 1, [Scal(e)], kc)

    def local_facts(self, eng, k, R):
        return [self.fn(simp(k + 1)) == self.fn(k) + self.inc, self.fn(num(0)) == 0]


class ConcatF(Form):
    """a piece of d(k) elements appended in iteration k; own(y) is the iteration that appended position y"""
    rank = 2

    def __init__(self, eng, q0, piece, d, kc, tag):
        self.eng, self.q0, self.piece, self.d, self.kc = eng, q0, piece, d, kc
        self.own = eng.ufun('own' + tag, [INT], INT)
        self.ks = list(eng.ks)
        if kc.get_id() in consts_in(d):
            self.mk = z3.Int('cc_m')
            self.st = eng.summation_term(d, kc, self.mk)

    def dd(self, i):
        return simp(sub_e(self.d, [(self.kc, i)]))

    def off(self, m):
        if self.kc.get_id() not in consts_in(self.d):
            return simp(self.d * m)
        if lit0(m):
            return num(0)
        return sub_e(self.st, [(self.mk, m)])

    def at(self, k):
        q0 = self.q0
        n0 = seq_len(q0)
        x = fresh_int('cc')
        y = simp(x - n0)
        o = self.own(y)
        new = subst(seq_get(self.piece, simp(y - self.off(o))), [(self.kc, o)])
        body = new if lit0(n0) else ite(x < n0, seq_get(q0, x), new)
        return Seq(q0.kind or 'list', simp(n0 + self.off(k)), x, body)

    def basic(self, k):
        y = z3.Int('cy~%d' % self.eng.pathid())
        o = self.own(y)
        return [Fact((), T, self.off(k) >= 0),
                Fact((y,), And(y >= 0, y < self.off(k)), And(o >= 0, o < k, self.off(o) <= y, y < self.off(o) + self.dd(o)), pats=[o])]

    def link(self, k):
        y = z3.Int('cl~%d' % self.eng.pathid())
        fs = [Fact((y,), And(self.off(k) <= y, y < self.off(k) + self.dd(k)), self.own(y) == k, pats=[self.own(y)])]
        if self.kc.get_id() in consts_in(self.d):
            fs.append(Fact((), T, self.off(simp(k + 1)) == self.off(k) + self.dd(k)))
        else:
            fs.append(Fact((), T, And(self.dd(k) >= 0, self.d * (k + 1) == self.d * k + self.d)))
        return fs

    def full(self, K):
        fs = self.basic(K)
        y, i = z3.Int('cy~%d' % self.eng.pathid()), z3.Int('ci~%d' % self.eng.pathid())
        if self.kc.get_id() in consts_in(self.d):
            of = self.off(i)
            fs.append(Fact((y, i), And(i >= 0, i < K, of <= y, y < of + self.dd(i)), self.own(y) == i, pats=[(self.own(y), of)]))
            fs.append(Fact((i,), And(i >= 0, i < K), And(of >= 0, of + self.dd(i) <= self.off(K)), pats=[of]))
        return fs

    def instances(self, app, i, K, pc):
        """ground instances at iteration i for the application own(.., t)"""
        args = app.children()
        sub = list(zip(self.ks, args[:-1]))
        t = args[-1]
        f = lambda e: sub_e(e, sub) if sub else e
        of, d = f(self.off(i)), f(self.dd(i))
        g = And(f(And(*pc)), i >= 0, i < f(K))
        return [Implies(And(g, of <= t, t < of + d), app == i), Implies(g, And(of >= 0, of + d <= f(self.off(K))))]


class FilterF(Form):
    """at most one element appended per iteration; accepted positions are enumerated by mu"""
    rank = 2

    def __init__(self, eng, q0, v, kc, tag):
        self.q0, self.v, self.kc = q0, v, kc
        self.L = eng.ufun('L' + tag, [INT], INT)
        self.mu = eng.ufun('mu' + tag, [INT], INT)
        self.rk = eng.ufun('rk' + tag, [INT], INT)
        eng.mu_inverse[self.mu(num(0)).decl().name()] = self.rk
        self.cond = None

    def at(self, k):
        q0 = self.q0
        n0 = seq_len(q0)
        x = fresh_int('fl')
        y = simp(x - n0)
        new = subst(self.v, [(self.kc, self.mu(y))])
        body = new if lit0(n0) else ite(x < n0, seq_get(q0, x), new)
        return Seq('list', simp(n0 + self.L(k)), x, body)

    def basic(self, eng, K):
        x = z3.Int('fx~%d' % eng.pathid())
        L, mu = self.L, self.mu
        return [Fact((), T, And(L(num(0)) == 0, L(K) >= 0, L(K) <= K)),
                Fact((x,), And(x >= 0, x < L(K)), And(mu(x) >= 0, mu(x) < K), pats=[mu(x)])]

    def full(self, eng, K):
        x, y, t = z3.Int('fx~%d' % eng.pathid()), z3.Int('fy~%d' % eng.pathid()), z3.Int('ft~%d' % eng.pathid())
        L, mu, kc = self.L, self.mu, self.kc
        c = self.cond
        fs = self.basic(eng, K)
        fs.append(Fact((x,), And(x >= 0, x < L(K)), sub_e(c, [(kc, mu(x))]), pats=[mu(x)]))
        fs.append(Fact((x, y), And(x >= 0, x < y, y < L(K)), mu(x) < mu(y), pats=[(mu(x), mu(y))]))
        fs.append(Fact((x,), And(x >= 0, x < L(K)), L(mu(x)) == x, pats=[mu(x)]))
        # completeness: every accepted position is enumerated; rk(t) = L(t), a separate symbol so that only terms the
        # contracts mention trigger it
        rk = self.rk
        fs.append(Fact((t,), And(t >= 0, t < K, sub_e(c, [(kc, t)])), And(mu(rk(t)) == t, rk(t) >= 0, rk(t) < L(K)), pats=[rk(t)]))
        return fs


class ArrF(Form):
    """element e(k) of a sequence written in iteration k, e invertible"""
    rank = 1

    def __init__(self, q0, e, inv, val, kc):
        self.q0, self.e, self.inv, self.val, self.kc = q0, e, inv, val, kc

    def at(self, k):
        q0 = to_seq(self.q0)
        x = q0.x
        i, extra = self.inv(x)
        c = And(i >= 0, i < k, extra)
        return Seq(q0.kind, q0.n, x, ite(c, subst(self.val, [(self.kc, i)]), q0.body))


class ArrsF(Form):
    """several elements of a sequence written in every iteration"""
    rank = 1

    def __init__(self, q0, writes, kc):
        self.q0, self.writes, self.kc = q0, writes, kc

    def at(self, k):
        q0 = to_seq(self.q0)
        x = q0.x
        body = q0.body
        for inv, val in self.writes:
            i, extra = inv(x)
            body = ite(And(i >= 0, i < k, extra), subst(val, [(self.kc, i)]), body)
        return Seq(q0.kind, q0.n, x, body)


class PtF(Form):
    """family member with coordinate c equal to e(k) written in iteration k"""
    rank = 1

    def __init__(self, fam, c, inv, B, old, own, kc):
        self.fam, self.c, self.inv, self.B, self.old, self.own, self.kc = fam, c, inv, B, old, own, kc

    def at(self, k):
        x = self.fam.xs[self.c]
        if self.own:
            return subst(self.B, [(self.kc, x)])
        i, extra = self.inv(x)
        cond = And(i >= 0, i < k, extra)
        return ite(cond, subst(self.B, [(self.kc, i)]), self.old)


class LastF(Form):
    """conditionally overwritten: value of the last iteration whose condition held"""
    rank = 2

    def __init__(self, eng, v0, a, kc, tag):
        self.v0, self.a, self.kc = v0, a, kc
        self.w = eng.ufun('w' + tag, [INT], INT)
        self.cond = None

    def at(self, k):
        w = self.w(k)
        return ite(w < 0, self.v0, subst(self.a, [(self.kc, w)]))

    def basic(self, k):
        w = self.w
        return [Fact((), T, And(w(num(0)) == -1, w(k) >= -1, w(k) < k))]

    def full(self, eng, K):
        t = z3.Int('lt~%d' % eng.pathid())
        w = self.w
        fs = self.basic(K)
        fs.append(Fact((), w(K) >= 0, sub_e(self.cond, [(self.kc, w(K))])))
        # after the last write nothing was written: w is constant there
        fs.append(Fact((t,), And(w(K) < t, t < K), And(Not(sub_e(self.cond, [(self.kc, t)])), w(t) == w(K)), pats=[w(t)]))
        return fs


class AllF(Form):
    """Boolean that stays true as long as a condition holds in every iteration (neg: the complement of such a one)"""
    rank = 2

    def __init__(self, eng, v0, c, kc, neg, tag):
        self.v0, self.c, self.kc, self.neg = v0, c, kc, neg
        self.b = eng.ufun('all' + tag, [INT], BOOL)
        self.w = eng.ufun('allw' + tag, [INT], INT)

    def at(self, k):
        k = simp(k)
        if lit0(k):
            return self.v0
        return Scal(Not(self.b(k)) if self.neg else self.b(k))

    def start(self):
        return Not(self.v0.e) if self.neg else self.v0.e

    def basic(self, k):
        return [Fact((), T, And(self.b(num(0)) == self.start(), Implies(self.b(k), self.start())))]

    def local_facts(self, eng, k, R):
        return [self.b(k + 1) == And(self.b(k), self.c)]

    def full(self, eng, K):
        t = z3.Int('al~%d' % eng.pathid())
        c = lambda i: sub_e(self.c, [(self.kc, i)])
        w = self.w(K)
        return self.basic(K) + [Fact((t,), And(self.b(K), t >= 0, t < K), c(t)),
                                Fact((), T, Or(self.b(K), Not(self.start()), And(w >= 0, w < K, Not(c(w)))))]


class RecF(Form):
    """unknown: uninterpreted function of k, only invariants are known"""
    rank = 3

    def __init__(self, eng, shape, kc, tag, v0):
        self.kc = kc
        self.v0 = v0
        self.val = eng.havoc_like(shape, tag, kc)

    def at(self, k):
        k = simp(k)
        if lit0(k):
            return self.v0
        return subst(self.val, [(self.kc, k)])


class PoisonF(Form):
    rank = 9

    def __init__(self, loc, v0):
        self.loc, self.v0 = loc, v0

    def at(self, k):
        return Poison(self.loc)


class Summary:
    pass


class LoopMixin:
    # ---------------------------------------------------------------- iteration protocol
    def iter_of(self, st, v, n):
        if isinstance(v, Union):
            a = self.feasible_alts(st, v)
            if len(a) != 1:
                raise Unsupported('iteration over %r' % (v,))
            st.add(a[0][0])
            v = a[0][1]
        if isinstance(v, ItV):
            return v
        if isinstance(v, Ref) and v.fam.kind == 'dict':
            return SeqC('tuple', [self.lift(st, k) for k in self.dkeys(st, v)])
        if isinstance(v, DictView) or isinstance(v, Str):
            return self.as_seq(st, v)
        if v is NONE or isinstance(v, Scal):
            self.do_raise(st, TypeError, n)
        if isinstance(v, (AnyV, Hole, SetV)):
            raise Unsupported('iteration over %r' % (v,))
        q = self.as_seq(st, v)
        if isinstance(q, SeqC):
            return q
        if isinstance(v, Ref):
            def get(e, s, k):
                c = e.as_seq(s, v)
                return prune(seq_get(c, k))
            return ItV(q.n, get, [v])
        return ItV(q.n, lambda e, s, k: prune(seq_get(q, k)))

    def iterate(self, st, v, node, body):
        if isinstance(v, Union):
            a = self.feasible_alts(st, v)
            if len(a) > 1:
                outs = []
                for j, (g, w) in enumerate(a):
                    s = st.copy()
                    s.add(g)
                    self.path.append(('alt', j) + pos(node))
                    try:
                        outs.extend(self.iterate(s, w, node, body))
                    except Dead:
                        pass
                    finally:
                        self.path.pop()
                return outs
        it = self.iter_of(st, v, node)
        if isinstance(it, ItV):
            m = simp(it.n)
            if z3.is_int_value(m) and m.as_long() <= 4:
                it = SeqC('gen', [it.get(self, st, num(i)) for i in range(max(0, m.as_long()))])
        if isinstance(it, SeqC):
            outs = []
            cur = st
            for i, item in enumerate(it.items):
                self.path.append(('u', i) + pos(node))
                try:
                    res = body(cur, item)
                except Dead:
                    res = []
                finally:
                    self.path.pop()
                nxt = [s for kd, s, _ in res if kd in ('next', 'continue')]
                outs.extend([o for o in res if o[0] not in ('next', 'continue')])
                if not nxt:
                    cur = None
                    break
                cur = merge(nxt)
            if cur is not None:
                outs.append(('next', cur, None))
            return outs
        return self.loop(st, node, it.n, lambda s, k: body(s, it.get(self, s, k)), it.watch)

    # ---------------------------------------------------------------- helpers
    def havoc_like(self, v, tag, k, args=(), cnt=None):
        cnt = cnt if cnt is not None else [0]
        cnt[0] += 1
        t = '%s_%d' % (tag, cnt[0])

        def uf(sort):
            f = self.ufun('h' + t, [INT] * (1 + len(args)), sort)
            return f(k, *args)
        if isinstance(v, Scal):
            return Scal(uf(v.e.sort()))
        if isinstance(v, Ref):
            out = []
            for j in range(v.fam.arity):
                f = self.ufun('h%s_i%d' % (t, j), [INT] * (1 + len(args)), INT)
                out.append(f(k, *args))
            return Ref(v.fam, out)
        if isinstance(v, (Seq, SeqC)):
            v = to_seq(v)
            f = self.ufun('h%s_n' % t, [INT] * (1 + len(args)), INT)
            n = f(k, *args)
            x = fresh_int('hv')
            return Seq(v.kind, n, x, self.havoc_like(v.body, tag, k, tuple(args) + (x,), cnt))
        if isinstance(v, Union):
            alts = []
            rest = T
            for i, (g, w) in enumerate(v.alts):
                wv = self.havoc_like(w, tag, k, args, cnt)
                if i == len(v.alts) - 1:
                    alts.append((rest, wv))
                else:
                    f = self.ufun('h%s_g%d' % (t, i), [INT] * (1 + len(args)), BOOL)
                    c = f(k, *args)
                    alts.append((And(rest, c), wv))
                    rest = And(rest, Not(c))
            return mk_union(alts)
        return v

    def same_goal(self, a, b):
        """z3 Bool whose validity implies that values a and b are identical"""
        if isinstance(a, Poison) or isinstance(b, Poison) or a is UNDEF or b is UNDEF:
            return T
        if same(a, b):
            return T
        if isinstance(a, Union) or isinstance(b, Union):
            aa = a.alts if isinstance(a, Union) else [(T, a)]
            bb = b.alts if isinstance(b, Union) else [(T, b)]
            if any(isinstance(w, Scal) and w.e.sort() == Gene for _, w in aa + bb):
                aa = [(g, Scal(self.sc(w.s)) if isinstance(w, Str) else w) for g, w in aa]
                bb = [(g, Scal(self.sc(w.s)) if isinstance(w, Str) else w) for g, w in bb]
            return Or(*[And(g, h, self.same_goal(p, q)) for g, p in aa for h, q in bb])
        if isinstance(a, Scal) and isinstance(b, Scal):
            if a.e.sort() == b.e.sort():
                return a.e == b.e
            if is_num_sort(a.e.sort()) and is_num_sort(b.e.sort()):
                p, q = self.coerce(a.e, b.e)
                return p == q
            return F
        if isinstance(a, Str) and isinstance(b, Scal) and b.e.sort() == Gene:
            return self.sc(a.s) == b.e
        if isinstance(b, Str) and isinstance(a, Scal) and a.e.sort() == Gene:
            return self.sc(b.s) == a.e
        if isinstance(a, Str) and isinstance(b, (Seq, SeqC)) and b.kind == 'str':
            a = self.as_seq(None, a)
        if isinstance(b, Str) and isinstance(a, (Seq, SeqC)) and a.kind == 'str':
            b = self.as_seq(None, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.fam is not b.fam:
                return F
            return And(*[p == q for p, q in zip(a.idx, b.idx)])
        if isinstance(a, Hole) and isinstance(b, Hole):
            if a.loc != b.loc:
                return F
            return And(*[p == q for p, q in zip(a.idx, b.idx)])
        if isinstance(a, (Seq, SeqC)) and isinstance(b, (Seq, SeqC)):
            if a.kind != b.kind and not ({a.kind, b.kind} <= {'list', 'gen'}):
                return F
            if isinstance(a, SeqC) and isinstance(b, SeqC):
                if len(a.items) != len(b.items):
                    return F
                return And(*[self.same_goal(p, q) for p, q in zip(a.items, b.items)])
            sk = fresh_int('sk')
            na, nb = seq_len(a), seq_len(b)
            g = And(na == nb, Implies(And(sk >= 0, sk < na), self.same_goal(prune(seq_get(a, sk)), prune(seq_get(b, sk)))))
            if a.cid is not None and b.cid is not None:
                g = And(g, a.cid == b.cid)
            elif a.cid is not None:
                return F        # the closed form promises an unmodified content the body does not deliver
            return g
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self.same_goal(a.seq, b.seq)
        return F

    def fam_by_id(self, fid):
        return self._famidx.get(fid)

    def changed(self, a, b, log, k):
        res = []
        for fi in range(len(a.frames)):
            fa, fb = a.frames[fi].vars, b.frames[fi].vars
            for nm in list(fb):
                va, vb = fa.get(nm, MISS), fb.get(nm, MISS)
                if va is not vb and not same(va, vb):
                    res.append(Loc('v', fi, nm))
        for nm in list(b.ghost):
            va, vb = a.ghost.get(nm, MISS), b.ghost[nm]
            if va is not vb and not same(va, vb):
                res.append(Loc('g', nm))
        fams = {}
        touched = {}
        for ent in log:
            if ent[0] == 'set':
                continue
            f, key, idx = ent
            fams[f.id] = f
            touched.setdefault((f.id, key), []).append(idx)
        for key, cb in b.heap.items():
            ca = a.heap.get(key)
            if ca is cb:
                continue
            if ca is not None and same(ca.body, cb.body):
                continue
            if key not in touched:
                if ca is None or same(prune(ca.body), prune(cb.body)) or self.prove(b, self.same_goal(ca.body, cb.body)):
                    continue
                raise Unsupported('untracked heap change %s: %s -> %s' % (key, ca.body, cb.body))
            f = fams[key[0]]
            ts = touched[key]
            if f.arity == 0:
                res.append(Loc('c', f, key[1], ()))
                continue
            kid = k.get_id()
            # pointwise in one coordinate?
            pick = None
            for c in range(f.arity):
                e0 = ts[0][c]
                if all(t[c].eq(e0) for t in ts) and kid in consts_in(e0):
                    pick = (c, e0)
                    break
            if pick is not None:
                res.append(Loc('p', f, key[1], pick[0], pick[1]))
                continue
            if all(all(p.eq(q) for p, q in zip(t, ts[0])) for t in ts) and all(kid not in consts_in(i) for i in ts[0]) and not any(x.eq(i) for x, i in zip(f.xs, ts[0])):
                res.append(Loc('c', f, key[1], ts[0]))
                continue
            res.append(Loc('w', f, key[1]))
        if a.dictof != b.dictof:
            raise Unsupported('__dict__ sharing changed inside a loop')
        return res

    def inverse_of(self, e, k):
        """e: Int term containing k; returns inv: x -> (index term, extra condition) or None"""
        if e.eq(k):
            return lambda x: (x, T)
        d = simp(e - k)
        if k.get_id() not in consts_in(d):
            return lambda x: (simp(x - d), T)
        d = simp(e + k)
        if k.get_id() not in consts_in(d):
            return lambda x: (simp(d - x), T)
        # registered inverse: sigma(g(k))
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
            iv = self.inverse.get(e.decl().name()) or self.mu_inverse.get(e.decl().name())
            if iv is not None:
                inner = self.inverse_of(e.arg(e.num_args() - 1), k)
                if inner is not None:
                    def f(x, iv=iv, inner=inner):
                        i, c = inner(iv(x))
                        return i, And(c, sub_e(e, [(k, i)]) == x)
                    return f
        # a*k + b
        a = simp(sub_e(e, [(k, k + 1)]) - e)
        if z3.is_int_value(a) and a.as_long() not in (0,):
            b = simp(sub_e(e, [(k, num(0))]))
            av = a.as_long()
            return lambda x: (simp((x - b) / av), (x - b) % av == 0)
        return None

    # ---------------------------------------------------------------- the loop rule
    def loop(self, st, node, K, body, watch=()):
        self.path.append(('loop',) + pos(node))
        try:
            return self._loop(st, node, K, body, watch)
        finally:
            self.path.pop()

    def run_once(self, st0, k, K, body, extra=()):
        """one iteration; returns cont, exits, raises, log.  Facts of the run stay in the solver (caller marks)."""
        s = st0.copy()
        s.add(k >= 0)
        if K is not None:
            s.add(k < K)
        for e in extra:
            s.add(e)
        self.sinks.append([])
        saved = self.log
        self.log = []
        self.ks.append(k)
        try:
            try:
                outs = body(s, k)
            except Dead:
                outs = []
        finally:
            self.ks.pop()
            raises = self.sinks.pop()
            log, self.log = self.log, saved
        nxt = [x for kd, x, _ in outs if kd in ('next', 'continue')]
        exits = [o for o in outs if o[0] not in ('next', 'continue')]
        return (merge(nxt) if nxt else None), exits, raises, log

    def place(self, v0, v1, tag):
        """placeholder for a loop carried scalar; returns (value, [consts]) or None"""
        def const(sort, t=''):
            # a plain constant (the guess run is rolled back): free of the outer loop variables
            return z3.Const('ph%s%s~%d' % (tag, t, self.pathid()), sort)
        if isinstance(v0, Scal) and isinstance(v1, Scal):
            s0, s1 = v0.e.sort(), v1.e.sort()
            if is_num_sort(s0) and is_num_sort(s1):
                c = const(REAL if REAL in (s0, s1) else INT)
                return Scal(c), [c]
            if s0 == s1:
                c = const(s0)
                return Scal(c), [c]
        if isinstance(v0, Ref) and isinstance(v1, Ref) and v0.fam is v1.fam and v0.fam.arity:
            cs = [const(INT, str(j)) for j in range(v0.fam.arity)]
            return Ref(v0.fam, cs), cs
        return None

    def _loop(self, st, node, K, body, watch):
        self.loops += 1
        k = z3.Int('k~%d' % self.pathid())
        entry = st
        forms = {}
        locs = {}
        self.quiet += 1
        try:
            forms, locs = self.guess(entry, k, K, body, node)
        finally:
            self.quiet -= 1
        # verification rounds
        invs = []
        rounds = 0
        hint_state = {'body': (body, K)}
        while True:
            rounds += 1
            if rounds > 14:
                raise Unsupported('no closed form for the loop')
            ok, info = self.verify(entry, node, k, K, body, watch, forms, locs, invs, hint_state)
            if ok:
                return self.finish(entry, node, k, K, forms, locs, invs, info)
            invs = info

    def state_at(self, entry, forms, locs, k):
        s = entry.copy()
        for key, f in forms.items():
            locs[key].set(s, f.at(k), self)
        return s

    # ---------------------------------------------------------------- guessing
    def guess(self, entry, k, K, body, node):
        # optimistic run from the entry state
        self.S.mark()
        try:
            R, exits, raises, log = self.run_once(entry, k, K, body)
            self.plain_lengths(entry, R)
            sets = [l for l in log if l[0] == 'set']
        finally:
            self.S.rollback()
        if R is None:
            # the body never completes normally from the entry state
            return {}, {}
        M = {l.key: l for l in self.changed(entry, R, log, k)}
        Ropt = {key: l.get(R) for key, l in M.items()}
        # placeholder run for scalars
        ph = {}
        for rnd in range(4):
            ph = {}
            s = entry.copy()
            n = 0
            for key, l in M.items():
                if l.kind in ('p', 'w'):
                    continue
                n += 1
                p = self.place(l.get(entry), Ropt[key], '_%s' % (l.b if l.kind == 'v' else n))
                if p is not None:
                    l.set(s, p[0], self)
                    ph[key] = p
            if not ph:
                break
            self.S.mark()
            self.guessing += 1
            try:
                try:
                    R2, _, _, log2 = self.run_once(s, k, K, body)
                    self.plain_lengths(s, R2)
                except Unsupported:
                    R2 = None
            finally:
                self.guessing -= 1
                self.S.rollback()
            if R2 is None:
                ph = {}
                break
            new = {l.key: l for l in self.changed(s, R2, log2, k) if l.key not in M}
            # re-classify pointwise/whole
            if new:
                for key, l in new.items():
                    M[key] = l
                    Ropt[key] = l.get(R2)
                continue
            R = R2
            sets = [l for l in log2 if l[0] == 'set']
            break
        vals = {key: l.get(R) for key, l in M.items()}
        allph = {}
        for key, (pv, cs) in ph.items():
            for c in cs:
                allph[c.get_id()] = key
        forms = {}
        env = []        # placeholder const -> term at k

        def phs(v):
            out = set()
            for e in leaves(v, []):
                for i in consts_in(e):
                    if i in allph:
                        out.add(allph[i])
            return out

        pending = [key for key in ph]
        for _ in range(len(pending) + 1):
            progress = False
            for key in list(pending):
                v = subst(vals[key], env) if env else vals[key]
                l = M[key]
                v0 = l.get(entry)
                pv, cs = ph[key]
                f = self.solve_scalar(entry, k, K, key, l, v0, v, pv, cs, phs)
                if f is not None:
                    forms[key] = f
                    cur = f.at(k)
                    env += self.bindings(pv, cur)
                    pending.remove(key)
                    progress = True
            if not pending:
                break
            if not progress:
                key = pending.pop(0)
                l = M[key]
                v0 = l.get(entry)
                v = subst(vals[key], env) if env else vals[key]
                f = self.solve_last(entry, k, key, l, v0, v, ph[key], phs)
                if f is None:
                    f = self.solve_all(k, v0, v, ph[key], phs)
                if f is None:
                    f = RecF(self, ph[key][0], k, 'r%d' % len(forms), v0)
                forms[key] = f
                env += self.bindings(ph[key][0], f.val if isinstance(f, RecF) else f.at(k))
        # running sums: the value after this iteration
        nexts = []
        for key, f in forms.items():
            if isinstance(f, SumF) and z3.is_app(vals[key].e) and vals[key].e.num_args():
                nx = f.at(simp(k + 1)).e
                if nx.sort() == vals[key].e.sort():
                    nexts.append((vals[key].e, nx))
        if env:
            sets = [(a, Ref(r.fam, [simp(sub_e(i, env)) for i in r.idx]), simp(sub_e(e, env))) for a, r, e in sets]
        for key, l in M.items():
            if key in forms:
                continue
            v0 = l.get(entry)
            v = subst(vals[key], nexts + env) if env else vals[key]
            forms[key] = self.solve_other(entry, k, K, l, v0, v, sets, key)
        return forms, M

    def plain_lengths(self, S, R):
        """lengths given by cases that provably all agree (while the facts of the run are known)"""
        if R is None:
            return

        def plain(v):
            if isinstance(v, Seq) and v.kind == 'str' and z3.is_app_of(v.n, z3.Z3_OP_ITE):
                for c in branches(v.n):
                    if self.prove(R, v.n == c):
                        return Seq(v.kind, c, v.x, v.body, v.cid, v.view, v.info)
            return None
        for fr, f0 in zip(R.frames, S.frames):
            for x, v in list(fr.vars.items()):
                w = plain(v) if v is not f0.vars.get(x) else None
                if w is not None:
                    fr.vars[x] = w
        for key, c in list(R.heap.items()):
            o = S.heap.get(key)
            w = plain(c.body) if o is None or c is not o and not same(c.body, o.body) else None
            if w is not None:
                R.heap[key] = Cell(c.xs, w)

    def bindings(self, pv, cur):
        if isinstance(pv, Scal):
            e = cur.e
            if e.sort() != pv.e.sort() and pv.e.sort() == REAL:
                e = z3.ToReal(e)
            return [(pv.e, e)]
        if isinstance(cur, Ref):
            return list(zip(pv.idx, cur.idx))
        return []

    def solve_scalar(self, entry, k, K, key, l, v0, v, pv, cs, phs):
        deps = phs(v)
        if not deps:
            return Over(v0, v, k)
        if isinstance(pv, Scal) and is_num_sort(pv.e.sort()) and isinstance(v, Scal) and is_num_sort(v.e.sort()):
            p = pv.e
            a, b = self.coerce(v.e, p)
            d = simp(a - b)
            if phs(Scal(d)):
                d = simp(diff(a, b))
            if not phs(Scal(d)):
                if lit0(d):
                    return Const(v0)
                e0 = v0.e
                if k.get_id() not in consts_in(d):
                    return Lin(e0, d)
                if e0.sort() == INT and d.sort() == REAL:
                    e0 = z3.ToReal(e0)
                n = K if K is not None else k + 1
                s2 = entry
                self.summation(s2, d, k, n)   # registers the function and its facts (dropped if quiet rollback)

                mk = z3.Int('sum_m')
                tm = self.summation_term(d, k, mk)

                def fn(m):
                    return sub_e(tm, [(mk, m)])
                return SumF(e0, fn, d, k)
        return None

    def summation_term(self, d, k, m):
        """like summation, without emitting facts"""
        e = simp(d)
        if z3.is_app_of(e, z3.Z3_OP_DIV) and k.get_id() not in consts_in(e.arg(1)):
            return self.summation_term(e.arg(0), k, m) / e.arg(1)
        if z3.is_app(e) and e.decl().eq(self.rdiv) and k.get_id() not in consts_in(e.arg(1)):
            return self.divide(self.summation_term(e.arg(0), k, m), e.arg(1))
        used = consts_in(e)
        ks = [q for q in self.ks if q.get_id() in used and not q.eq(k)]
        pairs = [(k, z3.Int('Σx'))] + [(q, z3.Int('Σk%d' % i)) for i, q in enumerate(ks)]
        c = simp(sub_e(e, pairs))
        kk = canon(c)
        if kk not in self.sums:
            self.sums[kk] = z3.Function('Sum~%d' % len(self.sums), *([INT] * (len(ks) + 1) + [e.sort()]))
        return self.sums[kk](*(ks + [m]))

    def solve_last(self, entry, k, key, l, v0, v, p, phs):
        """v = ite(cond, a, placeholder) with a free of placeholders"""
        pv, cs = p
        if isinstance(v, Scal) and z3.is_app_of(v.e, z3.Z3_OP_ITE):
            c, a, b = v.e.children()
            if b.eq(pv.e) and not phs(Scal(a)):
                return LastF(self, v0, Scal(a), k, '_%d' % self.pathid())
            if a.eq(pv.e) and not phs(Scal(b)):
                return LastF(self, v0, Scal(b), k, '_%d' % self.pathid())
        if isinstance(v, Ref) and isinstance(pv, Ref) and len(v.idx) == 1 and z3.is_app_of(v.idx[0], z3.Z3_OP_ITE):
            c, a, b = v.idx[0].children()
            if b.eq(pv.idx[0]) and not phs(Scal(a)):
                return LastF(self, v0, Ref(v.fam, [a]), k, '_%d' % self.pathid())
            if a.eq(pv.idx[0]) and not phs(Scal(b)):
                return LastF(self, v0, Ref(v.fam, [b]), k, '_%d' % self.pathid())
        return None

    def solve_all(self, k, v0, v, p, phs):
        """v = placeholder and c, or v = placeholder or c"""
        pv, cs = p
        if not (isinstance(v, Scal) and isinstance(pv, Scal) and isinstance(v0, Scal) and v.e.sort() == BOOL and pv.e.sort() == BOOL and v0.e.sort() == BOOL):
            return None
        t, f = simp(sub_e(v.e, [(pv.e, T)])), simp(sub_e(v.e, [(pv.e, F)]))
        if (is_false(f) or self.S.local([], Not(f))) and not phs(Scal(t)):
            return AllF(self, v0, t, k, False, '_%d' % self.pathid())
        if (is_true(t) or self.S.local([], t)) and not phs(Scal(f)):
            return AllF(self, v0, Not(f), k, True, '_%d' % self.pathid())
        return None

    def solve_other(self, entry, k, K, l, v0, v, sets, key):
        if l.kind == 'p':
            own = l.a.alloc_ks is not None and len(l.a.alloc_ks) > l.c and l.a.alloc_ks[l.c].eq(k)
            inv = self.inverse_of(l.d, k)
            x = l.a.xs[l.c]
            B = prune(subst(v, [(x, l.d)]))
            if own and l.d.eq(k):
                return PtF(l.a, l.c, None, B, UNDEF, True, k)
            if inv is None:
                return RecCell(self, l.a, v, k, 'w%d' % self.pathid(), v0)
            return PtF(l.a, l.c, inv, B, v0, False, k)
        if l.kind == 'w':
            # built up by a loop inside: no value of its own per iteration
            if v0 is not UNDEF and v0 is not MISS and any(a.decl().name()[:2] in ('hc', 'hw') for t in leaves(v, []) for a in _apps(t)):
                return RecCell(self, l.a, v, k, 'w%d' % self.pathid(), v0)
            return Over(v0, v, k)
        if isinstance(v0, Str) and isinstance(v, (Seq, SeqC)) and v.kind == 'str':
            v0 = self.as_seq(entry, v0)
        if isinstance(v0, (Seq, SeqC)) and isinstance(v, (Seq, SeqC)):
            n0, n1 = seq_len(v0), seq_len(v)
            d = simp(n1 - n0)
            if lit0(d) or self.proves_len(entry, k, K, d, 0):
                # element writes
                es = [e for (_, r, e) in sets if l.kind == 'c' and r.fam is l.a and all(p.eq(q) for p, q in zip(r.idx, l.c))]
                uniq = []
                for e in es:
                    if not any(e.eq(u) for u in uniq):
                        uniq.append(e)
                if len(uniq) > 1:
                    uniq = [plain_positions(u) for u in uniq]
                if len(uniq) == 1 and k.get_id() in consts_in(uniq[0]):
                    inv = self.inverse_of(uniq[0], k)
                    if inv is not None:
                        return ArrF(v0, uniq[0], inv, prune(seq_get(v, uniq[0])), k)
                if 1 < len(uniq) <= 3 and all(k.get_id() in consts_in(u) for u in uniq):
                    invs = [self.inverse_of(u, k) for u in uniq]
                    if all(i is not None for i in invs):
                        return ArrsF(v0, [(i, plain_value(seq_get(v, u))) for i, u in zip(invs, uniq)], k)
                return Over(v0, v, k)
            c = None
            if z3.is_int_value(d) and d.as_long() > 0:
                c = d.as_long()
            else:
                for cand in (1, 2, 3):
                    if self.proves_len(entry, k, K, d, cand):
                        c = cand
                        break
            if c is not None and c <= 8:
                if isinstance(v, SeqC):
                    vs = v.items[len(v0.items) if isinstance(v0, SeqC) else 0:]
                    return AppendF(v0, c, vs, k)
                vs = [prune(seq_get(v, simp(n0 + j))) for j in range(c)]
                return AppendF(v0, c, vs, k)
            if self.maybe_longer(entry, k, K, d):
                return self.concat_form(v0, v, d, k, l)
            return FilterF(self, v0, prune(seq_get(v, simp(n0))), k, '_%d_%s' % (self.pathid(), l.b))
        if not isinstance(v, Union) or not any(isinstance(w, (Seq, SeqC)) for g, w in v.alts):
            return Over(v0, v, k)
        return Over(v0, v, k)

    def maybe_longer(self, st, k, K, d):
        """pieces of varying non-negative length that are not just 0 or 1"""
        s = st.copy()
        s.add(k >= 0)
        if K is not None:
            s.add(k < K)
        return self.prove(s, d >= 0) and not self.prove(s, d <= 1)

    def concat_form(self, v0, v, d, k, l):
        y = fresh_int('pc')
        n0 = seq_len(v0)
        pb = prune(seq_get(v, simp(n0 + y)))
        return ConcatF(self, v0, Seq('list', d, y, pb), d, k, '_%d_%s' % (self.pathid(), l.b))

    def proves_len(self, st, k, K, d, c):
        s = st.copy()
        s.add(k >= 0)
        if K is not None:
            s.add(k < K)
        return self.prove(s, d == c)

    # ---------------------------------------------------------------- verification
    def verify(self, entry, node, k, K, body, watch, forms, locs, invs, hs):
        """one verification round: (True, info) or (False, new invariants); may change forms"""
        Sk = self.state_at(entry, forms, locs, k)
        hints = self.invariant_candidates(entry, node, k, K, forms, locs, hs)
        self.S.mark()
        dropped = None
        n_obl = len(self.obls)
        try:
            pre = []
            unknown = [f for f in forms.values() if isinstance(f, LastF) and f.cond is None]
            for key, f in forms.items():
                if isinstance(f, FilterF):
                    pre += f.basic(self, k)
                if isinstance(f, (LastF, ConcatF, AllF)):
                    pre += f.basic(k)
            # facts about the forms at k only make sense for reached iterations
            g0 = And(*entry.pc, k >= 0)
            for f in pre:
                self.S.facts.append(Fact(f.vars, And(g0, f.guard), f.body, f.pats))
            live = [h for h in hints if h.name not in hs.get('dead', set())]
            for h in live:
                for f in h.facts(Sk, k):
                    self.S.facts.append(Fact(f.vars, And(g0, f.guard), f.body, f.pats))
            npre = len(self.S.facts) - self.S.levels[-1][0]
            R, exits, raises, log = self.run_once(Sk, k, K, body)
            nrun = len(self.S.facts)
            failed = []
            if R is not None:
                # newly changed locations
                new = [l for l in self.changed(Sk, R, log, k) if l.key not in forms]
                if new:
                    sets = [x for x in log if x[0] == 'set']
                    for l in new:
                        locs[l.key] = l
                        v0, v = l.get(entry), l.get(R)
                        p = self.place(v0, v, '_n')
                        if p is not None and l.kind not in ('p', 'w'):
                            # depends on itself?  be careful: start with overwritten
                            d = None
                            if isinstance(v, Scal) and isinstance(v0, Scal) and is_num_sort(v.e.sort()) and is_num_sort(v0.e.sort()):
                                a, b = self.coerce(v.e, v0.e)
                                d = simp(a - b)
                            if d is not None and z3.is_int_value(d):
                                forms[l.key] = Lin(v0.e, d)
                            else:
                                forms[l.key] = Over(v0, v, k)
                        else:
                            forms[l.key] = self.solve_other(entry, k, K, l, v0, v, sets, l.key)
                    del self.obls[n_obl:]
                    return False, invs
                Sk1 = self.state_at(entry, forms, locs, simp(k + 1))
                # definitional links
                for key, f in forms.items():
                    if isinstance(f, ConcatF):
                        if not self.prove(R, f.dd(k) >= 0, RL_MED):
                            raise Unsupported('piece of negative length')
                        for ff in f.link(k):
                            self.S.facts.append(Fact(ff.vars, And(g0, ff.guard), ff.body, ff.pats))
                    for e in f.local_facts(self, k, R):
                        self.S.facts.append(Fact((), T, e))
                for key, f in forms.items():
                    l = locs[key]
                    if isinstance(f, FilterF):
                        good = self.check_filter(f, l, Sk, R, k)
                    elif isinstance(f, LastF):
                        good = self.check_last(f, l, Sk, R, k)
                    elif isinstance(f, RecF):
                        good = self.link_rec(f, l, Sk, Sk1, R, k)
                    elif isinstance(f, PoisonF):
                        good = True
                    else:
                        good = None
                    if good is False:
                        failed.append(key)
                for key, f in forms.items():
                    l = locs[key]
                    if isinstance(f, (FilterF, LastF, RecF, PoisonF)):
                        continue
                    goal = self.same_goal(l.get(Sk1), l.get(R))
                    if not self.prove(R, goal, RL_MED):
                        if getattr(self, 'trace', False):
                            print('  form fails', l, type(f).__name__, '\n     S(k+1)=', l.get(Sk1), '\n     R=', l.get(R))
                        failed.append(key)
                # entry
                for key, f in forms.items():
                    if key in failed or isinstance(f, (RecF, PoisonF)):
                        continue
                    if isinstance(f, PtF) and f.own:
                        continue
                    l = locs[key]
                    v00 = l.get(entry)
                    gz = self.same_goal(f.at(num(0)), v00)
                    if v00 is UNDEF or v00 is MISS and l.kind == 'v':
                        continue
                    self.S.mark()
                    try:
                        for ff in ([] if not isinstance(f, (FilterF,)) else f.basic(self, num(0))):
                            self.S.facts.append(ff)
                        if isinstance(f, LastF):
                            for ff in f.basic(num(0)):
                                self.S.facts.append(ff)
                        okz = self.prove(entry, gz, RL_MED)
                    finally:
                        self.S.rollback()
                    if not okz:
                        if getattr(self, 'trace', False):
                            print('  form fails at entry', l, type(f).__name__, f.at(num(0)), v00)
                        failed.append(key)
                if failed:
                    del self.obls[n_obl:]
                    self.downgrade(entry, k, forms, locs, failed, R, log, hs)
                    return False, invs
                if unknown:
                    # the conditions of the overwrites are known only now: state their invariants in a fresh round
                    del self.obls[n_obl:]
                    return False, invs
                # watch
                for r in watch:
                    if not self.prove(R, seq_len(self.as_seq(R, r)) == seq_len(self.as_seq(entry, r)), RL_MED):
                        raise Unsupported('list changes its length while it is iterated')
                # invariants (Houdini)
                bad = False
                for h in sorted(live, key=lambda h: isinstance(h, HintInv)):
                    if bad and isinstance(h, HintInv):
                        break       # a wrong automatic candidate may have hidden part of the body: judge the given ones without it
                    ok0 = self.check_hint(h, entry, self.state_at(entry, forms, locs, num(0)), num(0), forms, entry)
                    ok1 = ok0 and self.check_hint(h, R, Sk1, simp(k + 1), forms, entry)
                    if not ok1:
                        if getattr(self, 'trace', False):
                            print('  invariant dropped', h.name, 'entry' if not ok0 else 'step')
                        hs.setdefault('dead', set()).add(h.name)
                        bad = True
                if bad:
                    del self.obls[n_obl:]
                    return False, invs
            else:
                # no iteration completes: nothing to verify
                gone = [h for h in live if not self.check_hint(h, entry, self.state_at(entry, forms, locs, num(0)), num(0), forms, entry)]
                if gone:
                    # the iteration may have been excluded by a wrong candidate only
                    hs.setdefault('dead', set()).update(h.name for h in gone)
                    del self.obls[n_obl:]
                    return False, invs
                if forms:
                    R0, _, _, log0 = self.run_once(entry, k, K, body, (k == 0,))
                    del self.obls[n_obl:]
                    if R0 is None:
                        forms.clear()
                        locs.clear()
                    else:
                        # a closed form or a candidate is wrong
                        bad = [key for key, f in forms.items() if not isinstance(f, (RecF, PoisonF))]
                        if bad:
                            self.downgrade(entry, k, forms, locs, bad, R0, log0, hs)
                        elif live:
                            hs.setdefault('dead', set()).update(h.name for h in live)
                        else:
                            raise Unsupported('no closed form for the loop')
                    return False, invs
            lo = self.S.levels[-1][0]
            # definitional links and proxies of the proof itself stay local: only the facts of the run are exported
            facts = self.S.facts[lo + npre:nrun]
            info = Summary()
            info.facts = [f for f in facts]
            info.exits, info.raises, info.Sk, info.live, info.R, info.log = exits, raises, Sk, live, R, log
            if not self.quiet:
                self.obls.append(Obligation('loop summary inductive (%d locations, %d invariants)' % (len(forms), len(live)),
                                            self.where_str(node), True, 'z3', 0))
            return True, info
        finally:
            self.S.rollback()

    def check_filter(self, f, l, Sk, R, k):
        a, b = l.get(Sk), l.get(R)
        if not isinstance(b, (Seq, SeqC)):
            return False
        na, nb = seq_len(a), seq_len(b)
        c = simp(nb == na + 1)
        sk = fresh_int('sk')
        goal = And(Or(nb == na, nb == na + 1),
                   Implies(And(sk >= 0, sk < na), self.same_goal(prune(seq_get(a, sk)), prune(seq_get(b, sk)))),
                   Implies(nb == na + 1, self.same_goal(f.v, prune(seq_get(b, simp(na))))))
        ok = self.prove(R, goal, RL_MED)
        # condition under which the body completes normally and appends
        pre, r1, _ = split_pc(R.pc, Sk.pc)
        f.cond = And(*[p for p in R.pc[len(Sk.pc):]], c)
        self.S.facts.append(Fact((), T, f.L(k + 1) == f.L(k) + If(f.cond, num(1), num(0))))
        return ok

    def check_last(self, f, l, Sk, R, k):
        a, b = l.get(Sk), l.get(R)
        # condition: value changed to f.a ; determine from the run
        c = self.last_cond(a, b, f)
        if c is None:
            return False
        f.cond = And(*[p for p in R.pc[len(Sk.pc):]], c)
        if not hasattr(f, 'c0'):
            # the condition as found without any assumed invariant: the candidates are stated with it
            f.c0, f.hcond = c, f.cond
        goal = And(Implies(c, self.same_goal(f.a, b)), Implies(Not(c), self.same_goal(a, b)))
        ok = self.prove(R, goal, RL_MED)
        self.S.facts.append(Fact((), T, f.w(k + 1) == If(f.cond, k, f.w(k))))
        return ok

    def last_cond(self, a, b, f):
        ea = a.e if isinstance(a, Scal) else (a.idx[0] if isinstance(a, Ref) else None)
        eb = b.e if isinstance(b, Scal) else (b.idx[0] if isinstance(b, Ref) and b.fam.arity == 1 else None)
        en = f.a.e if isinstance(f.a, Scal) else (f.a.idx[0] if isinstance(f.a, Ref) else None)
        if ea is None or eb is None or en is None:
            return None
        if eb.eq(ea):
            return F
        if eb.eq(en):
            return T
        if z3.is_app_of(eb, z3.Z3_OP_ITE):
            c, p, q = eb.children()
            if q.eq(ea) and p.eq(en):
                return c
            if p.eq(ea) and q.eq(en):
                return Not(c)
        return None

    def link_rec(self, f, l, Sk, Sk1, R, k):
        g = self.rec_link(l.get(Sk1), l.get(R))
        if g is None:
            return False
        xs = tuple(f.fam.xs) if isinstance(f, RecCell) else ()
        if getattr(f, 'keep', False) and not self.prove(R, seq_len(l.get(R)) == seq_len(f.v0), RL_MED):
            return False
        for fact in g:
            self.S.facts.append(Fact(xs + fact.vars, fact.guard, fact.body, fact.pats) if xs else fact)
        return True

    def rec_link(self, s1, r):
        """facts stating that the uninterpreted value s1 equals r (definition of the recurrence)"""
        if isinstance(s1, Scal) and isinstance(r, Scal):
            a, b = s1.e, r.e
            if a.sort() != b.sort():
                if a.sort() == REAL and b.sort() == INT:
                    b = z3.ToReal(b)
                elif a.sort() == BOOL or b.sort() == BOOL or a.sort() == INT:
                    return None
            return [Fact((), T, a == b)]
        if isinstance(s1, Ref) and isinstance(r, Ref):
            if s1.fam is not r.fam:
                return None
            return [Fact((), T, p == q) for p, q in zip(s1.idx, r.idx)]
        if isinstance(s1, Seq) and isinstance(r, (Seq, SeqC)):
            r = to_seq(r)
            x = fresh_int('rl')
            sub = self.rec_link(prune(seq_get(s1, x)), prune(seq_get(r, x)))
            if sub is None:
                return None
            out = [Fact((), T, s1.n == r.n)]
            for f in sub:
                out.append(Fact((x,) + f.vars, And(f.guard, x >= 0, x < s1.n), f.body))
            return out
        if same(s1, r):
            return []
        if isinstance(s1, Union) or isinstance(r, Union):
            aa = s1.alts if isinstance(s1, Union) else [(T, s1)]
            bb = r.alts if isinstance(r, Union) else [(T, r)]
            out = []
            for h, q in bb:
                m = [(g, p) for g, p in aa if kindkey(p) == kindkey(q)]
                if len(m) != 1:
                    return None
                sub = self.rec_link(m[0][1], q)
                if sub is None:
                    return None
                out.append(Fact((), h, m[0][0]))
                out += [Fact(f.vars, And(h, f.guard), f.body) for f in sub]
            return out
        return None

    def check_hint(self, h, st, Sx, k, forms, entry):
        self.S.mark()
        try:
            if lit0(k):
                for f in forms.values():
                    for ff in (f.basic(self, k) if isinstance(f, FilterF) else f.basic(k) if isinstance(f, (LastF, AllF)) else ()):
                        self.S.facts.append(ff)
            for f in h.facts(Sx, k):
                # bound variables of the fact act as arbitrary constants in the goal
                if not self.prove(st, Implies(f.guard, f.body), RL_MED):
                    if self.quiet or not isinstance(h, HintInv) or h.cheap or not self.S.full(st.pc, Implies(f.guard, f.body), 3)[0]:
                        return False
            return True
        finally:
            self.S.rollback()

    def try_acc(self, entry, k, forms, locs, key, hs):
        """each appended number is the previous last number plus something: a list of running sums"""
        body, K = hs['body']
        l = locs[key]
        q0 = l.get(entry)
        n0 = seq_len(q0)
        if not self.prove(entry, n0 >= 1):
            return None
        last = prune(seq_get(q0, simp(n0 - 1)))
        if not (isinstance(last, Scal) and is_num_sort(last.e.sort())):
            return None
        self.quiet += 1
        self.S.mark()
        try:
            for sort in (INT, REAL):
                if sort == INT and last.e.sort() != INT:
                    continue
                p = z3.Const('acc~%d' % self.pathid(), sort)
                x = fresh_int('ax')
                s = self.state_at(entry, forms, locs, k)
                l.set(s, Seq(q0.kind or 'list', simp(n0 + k), x, ite(x == n0 + k - 1, Scal(p), seq_get(q0, x))), self)
                try:
                    R, _, _, _ = self.run_once(s, k, K, body)
                except Unsupported:
                    return None
                if R is None:
                    return None
                v = l.get(R)
                if not isinstance(v, (Seq, SeqC)):
                    return None
                v = prune(seq_get(v, simp(n0 + k)))
                if not (isinstance(v, Scal) and is_num_sort(v.e.sort())) or v.e.sort() != sort:
                    continue
                d = simp(v.e - p)
                if p.get_id() in consts_in(d):
                    return None
                e0 = last.e
                if e0.sort() != d.sort():
                    e0 = z3.ToReal(e0)
                if k.get_id() not in consts_in(d):
                    fn = lambda m: simp(d * (z3.ToReal(m) if d.sort() == REAL else m))
                else:
                    self.summation(entry, d, k, K if K is not None else k + 1)
                    mk = z3.Int('sum_m')
                    tm = self.summation_term(d, k, mk)
                    fn = lambda m: sub_e(tm, [(mk, m)])
                return AccF(q0, simp(e0), fn, d, k)
            return None
        finally:
            self.S.rollback()
            self.quiet -= 1

    def downgrade(self, entry, k, forms, locs, failed, R, log, hs):
        for key in failed:
            l, f = locs[key], forms[key]
            v0 = l.get(entry)
            rv = l.get(R)
            if isinstance(f, AppendF) and len(f.vs) == 1 and not hs.get(('acc', key)) and l.kind == 'c':
                hs[('acc', key)] = 1
                nf = self.try_acc(entry, k, forms, locs, key, hs)
                if nf is not None:
                    forms[key] = nf
                    continue
            if isinstance(f, AppendF) and len(f.vs) == 1 and not hs.get(('flt', key)):
                hs[('flt', key)] = 1
                forms[key] = FilterF(self, v0, f.vs[0], k, '_%d_%s' % (self.pathid(), l.b))
                continue
            if isinstance(f, Over) and not hs.get(('over', key)) and l.kind in ('v', 'c', 'g', 'w', 'p') and not isinstance(rv, Poison):
                # retry with the value of this round (other closed forms changed)
                hs[('over', key)] = 1
                if not (isinstance(v0, Scal) and isinstance(rv, Scal)):
                    forms[key] = Over(v0, rv, k)
                    continue
            if isinstance(f, (PtF,)) and not hs.get(('pt', key)):
                hs[('pt', key)] = 1
                nf = self.solve_other(entry, k, None, l, v0, rv, [x for x in log if x[0] == 'set'], key)
                if isinstance(nf, PtF):
                    forms[key] = nf
                    continue
            if getattr(f, 'keep', False):
                forms[key] = RecCell(self, l.a, f.shape, k, f.tag + 'n', v0, False)
                continue
            if isinstance(f, RecF) or isinstance(f, PoisonF):
                forms[key] = PoisonF(l, v0)
                if l.kind != 'v':
                    hs.setdefault('poison', []).append(repr(l))
                continue
            shape = self.shape_of(v0, rv)
            if shape is None or (l.kind == 'v' and l.b and v0 is MISS):
                forms[key] = PoisonF(l, v0)
                continue
            if l.kind in ('p', 'w'):
                forms[key] = RecCell(self, l.a, shape, k, 'c%d' % self.pathid(), v0)
                continue
            forms[key] = RecF(self, shape, k, 'd%d_%s' % (self.pathid(), l.b if isinstance(l.b, str) else ''), v0)

    def shape_of(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            return None
        if a in (MISS, UNDEF):
            return None
        c = z3.Bool('shape')
        if isinstance(a, Scal) and isinstance(b, Scal) and kindkey(a) == kindkey(b):
            return a if b.e.sort() == a.e.sort() or a.e.sort() == REAL else b
        v = ite(c, a, b)
        return v

    # ---------------------------------------------------------------- after the loop
    def invariant_candidates(self, entry, node, k, K, forms, locs, hs):
        if 'cands' not in hs:
            hs['cands'] = {}
        out = []
        # automatic: argmax style
        for key, f in forms.items():
            if isinstance(f, LastF):
                for st in (False, True):
                    out.append(LastInv(self, f, locs[key], k, st))
                    out.append(FirstInv(self, f, locs[key], k, st))
            if isinstance(f, FilterF) and K is None:
                pass
        # automatic bounds for counters and lengths
        for key, f in forms.items():
            l = locs[key]
            if isinstance(f, RecF) and isinstance(f.val, Scal) and f.val.e.sort() == INT:
                out += [ScalInv(self, f, key, 'ge0', lambda e, v0, kk: e >= 0),
                        ScalInv(self, f, key, 'gev0', lambda e, v0, kk: e >= v0),
                        ScalInv(self, f, key, 'lev0', lambda e, v0, kk: e <= v0),
                        ScalInv(self, f, key, 'lek', lambda e, v0, kk: e <= v0 + kk)]
            if isinstance(f, FilterF) and K is None:
                for c in (1, 2):
                    out.append(FiltInv(self, f, key, c))
        h = self.hints.get(self.cur_fn[-1]) if self.cur_fn else None
        for hh in ([h] if h is not None else []) + self.hints.get('*', []):
            out += hh(self, entry, node, k, K, forms, locs) or []
        return out

    def finish(self, entry, node, k, K, forms, locs, invs, info):
        exits, raises = info.exits, info.raises
        base = len(info.Sk.pc)
        outs = []
        has_exit = bool(exits or raises) or K is None
        if has_exit:
            Kf = self.sym('Kf', INT)
        else:
            Kf = K
        gpc = And(*entry.pc)
        # facts of one iteration, for all iterations
        for f in info.facts:
            self.S.facts.append(Fact(f.vars + (k,), f.guard, f.body, f.pats))
        rng = And(gpc, k >= 0, k < Kf)
        if info.R is not None:
            # every earlier iteration reached the end of the body
            done = [p for p in info.R.pc[base:] if not is_true(simp(Implies(And(k >= 0, k < K) if K is not None else k >= 0, p)))]
            if done:
                self.S.facts.append(Fact((k,), rng, And(*done)))
                if has_exit and not any(k.get_id() in consts_in(a) for p in done for a in _apps(p)):
                    # nothing to match on: the instance for the last completed iteration
                    self.S.facts.append(Fact((), And(gpc, Kf >= 1), sub_e(And(*done), [(k, simp(Kf - 1))])))
        for kd, s, v in exits:
            self.S.facts.append(Fact((k,), rng, Not(And(*s.pc[len(entry.pc):]))))
        for s, exc, where in raises:
            self.S.facts.append(Fact((k,), rng, Not(And(*s.pc[len(entry.pc):]))))
        if has_exit:
            self.S.facts.append(Fact((), gpc, And(Kf >= 0, Kf <= K) if K is not None else Kf >= 0))
        for key, f in forms.items():
            if isinstance(f, FilterF):
                fs = f.full(self, Kf) if f.cond is not None else [Fact((), T, f.L(Kf) == 0)]
                if info.R is None:
                    fs = [Fact((), T, f.L(Kf) == 0)]
                for x in fs:
                    self.S.facts.append(Fact(x.vars, And(gpc, Kf >= 0, x.guard), x.body, x.pats))
                self.filter_lemma(entry, f, Kf, K)
                self.filters.append((f, Kf))
            if isinstance(f, AllF):
                for x in f.full(self, Kf):
                    self.S.facts.append(Fact(x.vars, And(gpc, Kf >= 0, x.guard), x.body, x.pats))
            if isinstance(f, LastF):
                fs = f.full(self, Kf) if f.cond is not None and info.R is not None else [Fact((), T, f.w(Kf) == -1)]
                for x in fs:
                    self.S.facts.append(Fact(x.vars, And(gpc, Kf >= 0, x.guard), x.body, x.pats))
            if isinstance(f, ConcatF):
                if f.kc.get_id() in consts_in(f.d):
                    self.summation(entry, f.d, k, Kf)
                for x in f.full(Kf):
                    self.S.facts.append(Fact(x.vars, And(gpc, Kf >= 0, x.guard), x.body, x.pats))
                self.owners[f.own(num(0)).decl().name()] = (f, Kf, entry.pc)
            if isinstance(f, SumF):
                # re-emit the facts of the canonical sum in this context
                self.summation(entry, f.d, k, Kf)
            if isinstance(f, AccF) and k.get_id() in consts_in(f.inc):
                self.summation(entry, f.inc, k, Kf)
        if info.R is None:
            # no iteration completes normally
            self.S.facts.append(Fact((), gpc, Kf == 0))
        for h in info.live:
            for f in h.facts(self.state_at(entry, forms, locs, Kf), Kf):
                self.S.facts.append(Fact(f.vars, And(gpc, f.guard), f.body, f.pats))
            if getattr(h, 'always', False):
                kk = z3.Int('hk~%d' % self.pathid())
                for f in h.facts(self.state_at(entry, forms, locs, kk), kk):
                    self.S.facts.append(Fact(f.vars + (kk,), And(gpc, kk >= 0, kk <= Kf, f.guard), f.body, f.pats))
        # exhausted
        sub = [(k, Kf)]
        if K is not None:
            s = self.state_at(entry, forms, locs, Kf if has_exit else K)
            if has_exit:
                s.add(Kf == K)
                if self.decide(s, T) is not None and self.prove(s, F):
                    s = None
            if s is not None:
                outs.append(('next', s, None))
        for kd, s, v in exits:
            s2 = self.subst_state(s, sub)
            if not self.prove(s2, F):
                outs.append((kd, s2, subst(v, sub) if v is not None else None))
        for s, exc, where in raises:
            s2 = self.subst_state(s, sub)
            if not self.prove(s2, F):
                self.sinks[-1].append((s2, exc, where))
            elif not self.quiet:
                self.obls.append(Obligation('no %s in any iteration' % exc.__name__, where, True, 'z3', 0))
        if K is None:
            # lists whose length is now known
            for kd, s, v in outs:
                for key, f in forms.items():
                    if isinstance(f, FilterF):
                        q = locs[key].get(s)
                        if isinstance(q, Seq) and not z3.is_int_value(simp(q.n)):
                            for c in (2, 1, 3, 0):
                                if self.prove(s, q.n == c):
                                    locs[key].set(s, SeqC(q.kind, [prune(seq_get(q, num(i))) for i in range(c)]), self)
                                    break
        # propagate the touch log (indices of the whole loop)
        for key, l in locs.items():
            if l.kind in ('c', 'p', 'w'):
                if l.kind == 'c':
                    self.log.append((l.a, l.b, l.c))
                else:
                    # the coordinates that were the same in every iteration; the others may be anything
                    ts = [ent[2] for ent in info.log if ent[0] is l.a and ent[1] == l.b]
                    kid = k.get_id()
                    idx = []
                    for c, x in enumerate(l.a.xs):
                        t0 = ts[0][c] if ts else None
                        idx.append(t0 if ts and all(t[c].eq(t0) for t in ts) and kid not in consts_in(t0) else x)
                    self.log.append((l.a, l.b, tuple(idx)))
        # writes on the way out of the loop
        if exits:
            def known(f, key, idx):
                for l in locs.values():
                    if l.kind in ('c', 'p', 'w') and l.a is f and l.b == key:
                        if l.kind == 'w' or l.kind == 'c' and all(p.eq(q) for p, q in zip(l.c, idx)) or l.kind == 'p' and idx[l.c].eq(l.d):
                            return True
                return False
            for ent in info.log:
                if ent[0] != 'set' and not known(*ent):
                    self.log.append((ent[0], ent[1], tuple(sub_e(i, sub) for i in ent[2])))
        if not outs:
            raise Dead()
        return outs

    def subst_state(self, s, pairs):
        n = State()
        n.heap = {key: Cell(c.xs, subst(c.body, pairs)) for key, c in s.heap.items()}
        n.frames = []
        for f in s.frames:
            n.frames.append(Frame({a: subst(v, pairs) for a, v in f.vars.items()}, f.fn, f.cls, f.globals, f.parent))
        n.ghost = {a: subst(v, pairs) for a, v in s.ghost.items()}
        n.dictof = dict(s.dictof)
        n.once = s.once
        n.pc = tuple(sub_e(c, pairs) for c in s.pc)
        return n

    def filter_lemma(self, st, f, Kf, K):
        """Pigeonhole lemma (lemmas/Lemmas.lean: filter_pigeonhole): if the rejected positions below K are mapped
        injectively into [lo, hi), then at least K - (hi - lo) positions are accepted.  Both premises are proved here,
        only then is the conclusion used."""
        if f.cond is None or is_true(simp(f.cond)):
            if f.cond is not None:
                self.S.facts.append(Fact((), And(*st.pc, Kf >= 0), f.L(Kf) == Kf))
            return
        t1, t2 = z3.Int('pg1~%d' % self.pathid()), z3.Int('pg2~%d' % self.pathid())
        c1, c2 = sub_e(f.cond, [(f.kc, t1)]), sub_e(f.cond, [(f.kc, t2)])
        s = st.copy()
        s.add(And(t1 >= 0, t1 < Kf, t2 >= 0, t2 < Kf, Not(c1), Not(c2)))
        g = And(*st.pc, Kf >= 0)
        if self.prove(s, t1 == t2, RL_MED):
            self.lemmas['filter_pigeonhole'] = self.lemmas.get('filter_pigeonhole', 0) + 1
            self.S.facts.append(Fact((), g, f.L(Kf) >= Kf - 1))
            return
        seen = set()
        from .core import _apps
        cands = [a for a in _apps(f.cond) if a.decl().name() in self.proxies]
        for a in cands:
            nm = a.decl().name()
            if nm in seen:
                continue
            seen.add(nm)
            w, lo, hi = self.proxies[nm]
            if f.kc.get_id() in consts_in(hi) or f.kc.get_id() in consts_in(lo):
                continue
            W1 = w(*[sub_e(x, [(f.kc, t1)]) for x in a.children()])
            W2 = w(*[sub_e(x, [(f.kc, t2)]) for x in a.children()])
            if self.prove(s, And(W1 >= lo, W1 < hi), RL_MED):
                s2 = s.copy()
                s2.add(W1 == W2)
                if self.prove(s2, t1 == t2, RL_MED):
                    self.lemmas['filter_pigeonhole'] = self.lemmas.get('filter_pigeonhole', 0) + 1
                    self.S.facts.append(Fact((), g, f.L(Kf) >= Kf - If(hi >= lo, hi - lo, num(0))))
                    return


class RecCell(RecF):
    def __init__(self, eng, fam, shape, kc, tag, v0, keep=True):
        self.kc = kc
        self.v0 = v0
        self.fam = fam
        self.shape, self.tag = shape, tag
        self.val = eng.havoc_like(shape, tag, kc, tuple(fam.xs))
        # lists that keep their length
        self.keep = keep and isinstance(v0, (Seq, SeqC)) and isinstance(self.val, Seq)
        if self.keep:
            self.val = Seq(self.val.kind, seq_len(v0), self.val.x, self.val.body)


def strict_cmp(c):
    """the strict version of a non-strict comparison (None for anything else)"""
    c = simp(c)
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    if z3.is_ge(c) and not neg or z3.is_lt(c) and neg:
        return c.arg(0) > c.arg(1)
    if z3.is_le(c) and not neg or z3.is_gt(c) and neg:
        return c.arg(0) < c.arg(1)
    return None


class LastInv:
    """no earlier candidate beats the current value"""
    always = False

    def __init__(self, eng, f, loc, k, strict=False):
        self.name = 'last%d%s' % (strict, loc.key)
        self.strict = strict
        self.eng, self.f, self.loc, self.kc = eng, f, loc, k

    def facts(self, S, k):
        f = self.f
        if f.cond is None:
            return []
        t = z3.Int('li~%d' % id(self))
        # condition of iteration t evaluated with the current value instead of S(t)
        c = f.hcond
        if self.strict:
            c = strict_cmp(f.c0)
            if c is None:
                return []
        c = sub_e(c, [(f.w(self.kc), z3.Int('li_w'))])
        c = sub_e(c, [(self.kc, t)])
        c = sub_e(c, [(z3.Int('li_w'), f.w(k))])
        return [Fact((t,), And(t >= 0, t < k), Not(c))]


class FirstInv:
    """the initial value does not beat the current one"""
    always = False

    def __init__(self, eng, f, loc, k, strict=False):
        self.name = 'first%d%s' % (strict, loc.key)
        self.strict = strict
        self.eng, self.f, self.loc, self.kc = eng, f, loc, k

    def facts(self, S, k):
        f = self.f
        if f.cond is None:
            return []
        term = lambda v: v.e if isinstance(v, Scal) else v.idx[0] if isinstance(v, Ref) and len(v.idx) == 1 else None
        a, v0 = term(f.a), term(f.v0)
        if a is None or v0 is None or a.sort() != v0.sort():
            return []
        w = z3.Int('fi_w')
        c = f.c0
        if self.strict:
            c = strict_cmp(c)
            if c is None:
                return []
        c = sub_e(c, [(f.w(self.kc), w)])
        c = sub_e(c, [(a, v0)])
        if self.kc.get_id() in consts_in(c):
            return []
        return [Fact((), T, Not(sub_e(c, [(w, f.w(k))])))]


class ScalInv:
    always = False

    def __init__(self, eng, f, key, nm, fn):
        self.name = '%s%s' % (nm, key)
        self.f, self.fn = f, fn

    def facts(self, S, k):
        v = self.f.at(k)
        return [Fact((), T, self.fn(v.e, self.f.v0.e, k))]


class FiltInv:
    always = True

    def __init__(self, eng, f, key, c):
        self.name = 'len<=%d%s' % (c, key)
        self.f, self.c = f, c

    def facts(self, S, k):
        return [Fact((), T, self.f.L(k) <= self.c)]


class HintInv:
    """invariant supplied by a specification: fn(state at k, k) -> list of Facts"""
    def __init__(self, name, fn, always=False, cheap=False):
        self.name, self.fn, self.always, self.cheap = name, fn, always, cheap

    def facts(self, S, k):
        r = self.fn(S, k)
        return [f if isinstance(f, Fact) else Fact((), T, f) for f in r]
