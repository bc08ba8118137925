"""Symbolic executor: Python AST of the real functions -> verification conditions."""
import ast
import inspect
import functools
import os
import z3
from .values import *
from .core import *
from .core import _apps

_ast_cache = {}


def file_ast(fn):
    if fn not in _ast_cache:
        with open(fn, encoding='utf-8') as f:
            _ast_cache[fn] = ast.parse(f.read(), fn)
    return _ast_cache[fn]


def ast_of(f):
    code = f.__code__
    tree = file_ast(code.co_filename)
    best = None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            line = n.lineno
            if isinstance(n, ast.FunctionDef) and n.decorator_list:
                line = min(line, n.decorator_list[0].lineno)
            nm = n.name if isinstance(n, ast.FunctionDef) else '<lambda>'
            if line == code.co_firstlineno and nm == code.co_name:
                best = n
                break
    if best is None:
        raise Unsupported('no source for %s' % f)
    return best


def pos(n):
    return (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0), getattr(n, 'end_lineno', 0), getattr(n, 'end_col_offset', 0),
            type(n).__name__)


class ItV(V):
    """lazy iterable: length term and element getter evaluated in the current state"""
    __slots__ = ('n', 'get', 'watch')

    def __init__(self, n, get, watch=()):
        self.n, self.get, self.watch = n, get, watch


class DictView(V):
    __slots__ = ('ref', 'what')

    def __init__(self, ref, what):
        self.ref, self.what = ref, what


class Ctx:
    pass


def apps_of(e, d):
    return [a for a in _apps(e) if a.decl().eq(d)]


class Engine:
    def __init__(self, name, budget=None):
        self.name = name
        self.S = Solver()
        self.syms = {}
        self.fams = {}
        self.path = []
        self.ks = []
        self.quiet = 0
        self.guessing = 0   # in a run with placeholders, whose outcome only suggests closed forms
        self.obls = []
        self.sinks = [[]]
        self.log = []
        self.contracts = {}
        self.opaque = {}
        self.pyobjs = {}
        self.functions = set()
        self.assumed = set()
        self.inverse = {}
        self.mu_inverse = {}
        self.hints = {}
        self.depth = 0
        self.where = ''
        self.consts_used = set()
        self.sums = {}
        self.owners = {}
        self.sigmas = []    # sorting permutations
        self.filters = []   # filtered sequences: (form, number of positions)
        self.deadline = None
        self.strs = set()
        self._dcache = {}
        self.loops = 0
        self.proxies = {}
        self.draws = {}
        self.variants = {}
        self.rewritten = {}
        self.coded = []     # numbers written in binary: (number, loop indices, guard)
        self.words = []     # numbers read from binary digits: (function of the prefix length, loop indices, length, digit, guard)
        self.rdiv_known = False
        self.lemmas = {}
        self.full_timeout = 8
        self.base_axioms()

    # ---------------------------------------------------------------- symbols
    def base_axioms(self):
        i = z3.Int('ax_i')
        r = z3.Real('ax_r')
        A = self.S.axiom
        A(Fact((i,), T, toint(ofint(i)) == i, pats=[ofint(i)]))
        A(Fact((r,), T, toreal(ofreal(r)) == r, pats=[ofreal(r)]))
        n, m = z3.Ints('p2n p2m')
        p2 = self.pow2
        A(Fact((), T, p2(num(0)) == 1))
        A(Fact((n,), n >= 0, p2(n) >= n + 1, pats=[p2(n)]))
        A(Fact((n, m), And(n >= 0, n < m), 2 * p2(n) <= p2(m), pats=[(p2(n), p2(m))]))
        A(Fact((n, m), m == n + 1, Implies(n >= 0, p2(m) == 2 * p2(n)), pats=[(p2(n), p2(m))]))
        a, b, c = z3.Reals('rpa rpb rpc')
        P = self.rpow
        A(Fact((a, b), a >= 0, P(a, b) >= 0, pats=[P(a, b)]))
        A(Fact((a, b), And(a > 0), P(a, b) > 0, pats=[P(a, b)]))
        A(Fact((a, b), And(a == 0, b > 0), P(a, b) == 0, pats=[P(a, b)]))
        A(Fact((a, c, b), And(a >= 0, c > a, b > 0), P(a, b) < P(c, b), pats=[(P(a, b), P(c, b))]))

    def sc(self, s):
        """gene constant of a string, distinct from all others seen"""
        c = strc(s)
        if s not in self.strs:
            for o in self.strs:
                self.S.axiom(Fact((), T, strc(o) != c))
            i = z3.Int('ax_si')
            self.S.axiom(Fact((i,), T, ofint(i) != c, pats=[ofint(i)]))
            self.strs.add(s)
        return c

    def sym(self, tag, sort, node=None, extra=(), args=None):
        key = (tuple(self.path), tag, pos(node) if node is not None else None, tuple(extra))
        ks = list(self.ks) if args is None else list(args)
        d = self.syms.get(key)
        if d is None:
            nm = '%s~%d' % (tag, len(self.syms))
            d = z3.Function(nm, *([a.sort() for a in ks] + [sort])) if ks else z3.Const(nm, sort)
            self.syms[key] = d
        return d(*ks) if ks else d

    def ufun(self, tag, nargs_sorts, sort, node=None):
        """uninterpreted function whose first arguments are the current loop indices"""
        key = (tuple(self.path), 'F' + tag, pos(node) if node is not None else None)
        d = self.syms.get(key)
        if d is None:
            nm = '%s~%d' % (tag, len(self.syms))
            d = z3.Function(nm, *([INT] * len(self.ks) + list(nargs_sorts) + [sort]))
            self.syms[key] = d
        ks = list(self.ks)
        return lambda *a: d(*(ks + list(a)))

    def new_fam(self, name, kind, arity, cls=None):
        f = Fam(name, kind, arity, cls)
        f.xs = tuple(z3.Int('%s#%d.x%d' % (name, f.id, j)) for j in range(arity))
        f.alloc_ks = None
        return f

    def alloc(self, st, kind, node, tag='', cls=None):
        key = (tuple(self.path), 'A' + kind + tag, pos(node) if node is not None else None)
        self.once(st, key)
        f = self.fams.get(key)
        if f is None:
            f = self.new_fam('%s@%s%s' % (kind, tag, getattr(node, 'lineno', '')), kind, len(self.ks), cls)
            f.alloc_ks = tuple(self.ks)
            self.fams[key] = f
        f.cls = cls
        r = Ref(f, self.ks)
        if kind == 'dict':
            for k in f.keys:
                self.put(st, r, k, MISS)
        elif kind == 'obj':
            for (fid, k) in list(st.heap):
                if fid == f.id:
                    self.put(st, r, k, MISS)
        if kind in ('list', 'set') or (kind == 'obj' and cls is not None and issubclass(cls, list)):
            self.put(st, r, '@', SeqC('list', []))
        return r

    def once(self, st, key):
        """an allocation or draw may happen only once per path and loop indices: names would clash otherwise"""
        key = (key, tuple(k.get_id() for k in self.ks))
        if key in st.once:
            raise Unsupported('repeated evaluation of one program point')
        st.once = st.once | {key}

    # ---------------------------------------------------------------- heap
    def cell(self, st, fam, key):
        return st.heap.get((fam.id, key))

    def rd(self, st, ref, key):
        c = st.heap.get((ref.fam.id, key))
        if c is None:
            return MISS
        v = c.at(ref.idx)
        return v

    def put(self, st, ref, key, val):
        fam = ref.fam
        if fam.kind == 'dict' and key not in fam.keys:
            fam.keys.append(key)
        self.log.append((fam, key, ref.idx))
        k = (fam.id, key)
        if fam.arity == 0:
            st.heap[k] = Cell((), val)
            return
        old = st.heap.get(k)
        oldb = old.body if old is not None else (MISS if fam.kind == 'dict' and fam.alloc_ks is None else UNDEF)
        cond = And(*[x == i for x, i in zip(fam.xs, ref.idx)])
        # avoid nesting: drop the old value under the same condition
        rest = oldb
        if old is not None and old.last is not None and all(p.eq(q) for p, q in zip(old.last[0], ref.idx)):
            rest = old.last[2]
        st.heap[k] = Cell(fam.xs, ite(cond, val, rest), (ref.idx, val, rest))

    def attr_fam(self, st, ref):
        f = st.dictof.get(ref.fam.id)
        if f is not None:
            return f
        return ref

    def dkeys(self, st, ref):
        return [k for k in ref.fam.keys if self.rd(st, ref, k) is not MISS]

    # ---------------------------------------------------------------- solver
    def prove(self, st, goal, rl=RL_SMALL):
        goal = simp(goal) if not z3.is_quantifier(goal) else goal
        if is_true(goal):
            return True
        for c in st.pc:
            if c.eq(goal):
                return True
            if is_false(c):
                return True
        if self.S.local(st.pc, goal):
            return True
        return self.S.check(st.pc, goal, rl)

    def decide(self, st, c):
        """True / False / None"""
        c = simp(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        for p in st.pc:
            if p.eq(c):
                return True
            if p.eq(Not(c)) or Not(p).eq(c):
                return False
        if self.S.check(st.pc, c, RL_SMALL):
            return True
        if self.S.check(st.pc, Not(c), RL_SMALL):
            return False
        return None

    def assume(self, st, body, vars=(), pats=None, guard=None):
        g = And(*st.pc) if guard is None else guard
        if is_true(body):
            return
        self.S.facts.append(Fact(vars, g, body, pats))

    def axiom(self, body, vars=(), pats=None):
        if not is_true(body):
            self.S.facts.append(Fact(vars, T, body, pats))

    def obligation(self, st, goal, label, node=None):
        """record and discharge; on failure record and assume"""
        if self.quiet:
            return True
        import time
        t0 = time.time()
        ok = self.prove(st, goal, RL_MED)
        how = 'z3'
        model = None
        if not ok:
            nbad = sum(1 for o in self.obls if not o.ok)
            if nbad > 12:
                raise Unsupported('more than 12 obligations failed; stopping')
            if self.S.near(st.pc, goal):
                ok, how, model = True, 'z3', None
            else:
                ok, how, model = self.S.full(st.pc, goal, self.full_timeout if nbad < 2 else 2)
        self.obls.append(Obligation(label, self.where_str(node), ok, how, time.time() - t0, str(model)[:1500] if model is not None else None))
        if not ok:
            import os as _os
            if _os.environ.get('PYVC_DUMP'):
                print('FAILED', label, self.where_str(node))
                print('  goal', goal)
                print('  pc', st.pc)
        return ok

    def where_str(self, node):
        fr = self.cur_fn[-1] if getattr(self, 'cur_fn', None) else ''
        return '%s:%s' % (fr, getattr(node, 'lineno', '?')) if node is not None else fr

    # ---------------------------------------------------------------- exceptions
    def raise_if(self, st, cond, exc, node, label=None):
        cond = simp(cond)
        if is_false(cond):
            return
        if is_true(cond):
            self.do_raise(st, exc, node)
        if self.prove(st, Not(cond)):
            if not self.quiet:
                self.obls.append(Obligation('no %s%s' % (exc.__name__, ' (%s)' % label if label else ''),
                                            self.where_str(node), True, 'z3', 0))
            return
        if self.prove(st, cond):
            self.do_raise(st, exc, node)
        s2 = st.copy()
        s2.add(cond)
        self.sinks[-1].append((s2, exc, self.where_str(node)))
        st.add(Not(cond))

    def do_raise(self, st, exc, node):
        self.sinks[-1].append((st.copy(), exc, self.where_str(node)))
        raise Dead()

    # ---------------------------------------------------------------- splitting over unions
    def feasible_alts(self, st, v):
        out = []
        for g, w in v.alts:
            d = self.decide(st, g)
            if d is False:
                continue
            if d is True:
                return [(T, w)]
            out.append((g, w))
        return out

    def split(self, st, v, f):
        """apply f(state, alternative) -> value for every alternative of v"""
        if not isinstance(v, Union):
            return f(st, v)
        alts = self.feasible_alts(st, v)
        if not alts:
            raise Dead()
        if len(alts) == 1:
            st.add(alts[0][0])
            return f(st, alts[0][1])
        done = []
        for g, w in alts:
            s = st.copy()
            s.add(g)
            try:
                r = f(s, w)
            except Dead:
                continue
            s.frames[-1].vars['$split'] = r
            done.append(s)
        if not done:
            raise Dead()
        m = merge(done)
        r = m.frames[-1].vars.pop('$split')
        st.become(m)
        return r

    def split2(self, st, a, b, f):
        return self.split(st, a, lambda s, x: self.split(s, b, lambda s2, y: f(s2, x, y)))

    # ---------------------------------------------------------------- lifting of real objects
    def lift(self, st, o, node=None):
        if isinstance(o, bool):
            return Scal(z3.BoolVal(o))
        if isinstance(o, int):
            return Scal(z3.IntVal(o))
        if isinstance(o, float):
            return Scal(z3.RealVal(repr(o)))
        if isinstance(o, str):
            return Str(o)
        if o is None:
            return NONE
        if id(o) in self.pyobjs:
            return self.pyobjs[id(o)]
        if isinstance(o, tuple):
            return SeqC('tuple', [self.lift(st, x) for x in o])
        if isinstance(o, (list, dict)):
            f = self.new_fam('py', 'list' if isinstance(o, list) else 'dict', 0)
            r = Ref(f)
            if isinstance(o, list):
                st.heap[(f.id, '@')] = Cell((), SeqC('list', [self.lift(st, x) for x in o]))
            else:
                for k, v in o.items():
                    f.keys.append(k)
                    st.heap[(f.id, k)] = Cell((), self.lift(st, v))
            self.pyobjs[id(o)] = r
            return r
        return Py(o)

    # ---------------------------------------------------------------- basic operations
    def truth(self, st, v):
        if isinstance(v, Scal):
            s = v.e.sort()
            if s == BOOL:
                return v.e
            if is_num_sort(s):
                return v.e != 0
            raise Unsupported('truth of gene')
        if v is NONE:
            return F
        if isinstance(v, Str):
            return T if v.s else F
        if isinstance(v, OtherStr):
            return T
        if isinstance(v, (Seq, SeqC)):
            return simp(seq_len(v) > 0)
        if isinstance(v, Ref):
            if v.fam.kind == 'dict':
                return Or(*[Not(self.is_miss(self.rd(st, v, k))) for k in v.fam.keys])
            if v.fam.kind == 'list' or self.rd(st, v, '@') is not MISS:
                return simp(seq_len(self.content(st, v)) > 0)
            return T
        if isinstance(v, AnyV):
            return v.truth
        if isinstance(v, Union):
            return Or(*[And(g, self.truth(st, w)) for g, w in v.alts])
        if isinstance(v, (Py, Bound, Lam, Opq)):
            return T
        if v is MISS or v is UNDEF:
            return F
        raise Unsupported('truth of %r' % (v,))

    def is_miss(self, v):
        if v is MISS:
            return T
        if isinstance(v, Union):
            return Or(*[And(g, self.is_miss(w)) for g, w in v.alts])
        return F

    def content(self, st, r):
        v = self.rd(st, r, '@')
        if isinstance(v, Union):
            a = self.feasible_alts(st, v)
            if len(a) == 1:
                return a[0][1]
        return v

    def as_seq(self, st, v):
        """content of a list/tuple/str/range value"""
        if isinstance(v, Ref):
            if v.fam.kind == 'set':
                raise Unsupported('order of a set')
            c = self.content(st, v)
            if not isinstance(c, (Seq, SeqC)):
                raise Unsupported('content %r' % (c,))
            return c
        if isinstance(v, (Seq, SeqC)):
            return v
        if isinstance(v, Str):
            return SeqC('str', [Str(c) for c in v.s])
        if isinstance(v, ItV):
            x = fresh_int('it')
            return Seq('gen', v.n, x, v.get(self, st, x))
        if isinstance(v, DictView):
            ks = self.dkeys(st, v.ref)
            if v.what == 'keys':
                return SeqC('tuple', [self.lift(st, k) for k in ks])
            if v.what == 'values':
                return SeqC('tuple', [self.rd(st, v.ref, k) for k in ks])
            return SeqC('tuple', [SeqC('tuple', [self.lift(st, k), self.rd(st, v.ref, k)]) for k in ks])
        raise Unsupported('sequence expected: %r' % (v,))

    def arith(self, v):
        """numeric z3 term of a scalar"""
        if isinstance(v, Scal):
            if v.e.sort() == BOOL:
                return If(v.e, num(1), num(0))
            if is_num_sort(v.e.sort()):
                return v.e
        raise Unsupported('number expected: %r' % (v,))

    @staticmethod
    def coerce(a, b):
        if a.sort() != b.sort():
            if a.sort() == INT:
                a = z3.ToReal(a)
            if b.sort() == INT:
                b = z3.ToReal(b)
        return a, b

    def to_gene(self, v):
        if isinstance(v, Str):
            return self.sc(v.s)
        if isinstance(v, Scal):
            if v.e.sort() == Gene:
                return v.e
            if v.e.sort() == INT:
                return ofint(v.e)
            if v.e.sort() == REAL:
                return ofreal(v.e)
        return None

    def as_gene(self, st, v):
        if isinstance(v, Union):
            es = [(g, self.as_gene(st, w)) for g, w in v.alts]
            r = es[-1][1]
            for g, x in reversed(es[:-1]):
                r = If(g, x, r)
            return r
        r = self.to_gene(v)
        if r is None:
            raise Unsupported('not a gene value: %r' % (v,))
        return r

    def eq(self, st, a, b):
        """Python == as a z3 Bool (pure)"""
        if same(a, b) and not isinstance(a, AnyV):
            return T
        if isinstance(a, Union):
            return Or(*[And(g, self.eq(st, w, b)) for g, w in a.alts])
        if isinstance(b, Union):
            return Or(*[And(g, self.eq(st, a, w)) for g, w in b.alts])
        if isinstance(a, Hole) or isinstance(b, Hole):
            raise Unsupported('hole compared')
        if isinstance(a, Scal) and isinstance(b, Scal):
            if a.e.sort() == Gene or b.e.sort() == Gene:
                return self.to_gene(a) == self.to_gene(b)
            if a.e.sort() == BOOL and b.e.sort() == BOOL:
                return a.e == b.e
            x, y = self.coerce(self.arith(a), self.arith(b))
            return x == y
        if (isinstance(a, Str) and isinstance(b, Scal)) or (isinstance(b, Str) and isinstance(a, Scal)):
            x, y = (a, b) if isinstance(a, Str) else (b, a)
            if y.e.sort() == Gene:
                return self.sc(x.s) == y.e
            return F
        if isinstance(a, Str) and isinstance(b, Str):
            return z3.BoolVal(a.s == b.s)
        if a is NONE or b is NONE:
            if isinstance(a, AnyV) or isinstance(b, AnyV):
                return F
            return z3.BoolVal(a is b)
        if isinstance(a, OtherStr) or isinstance(b, OtherStr):
            return F
        if isinstance(a, Py) and isinstance(b, Py):
            return z3.BoolVal(a.o == b.o)
        sa, sb = self.seqish(st, a), self.seqish(st, b)
        if sa is not None and sb is not None:
            ka, kb = sa[0], sb[0]
            if ka != kb:
                return F
            c = F
            if isinstance(a, Ref) and isinstance(b, Ref) and a.fam is b.fam:
                c = And(*[x == y for x, y in zip(a.idx, b.idx)])
                if is_true(simp(c)):
                    return T
            return self.seq_eq(st, sa[1], sb[1])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.fam.kind == 'dict' and b.fam.kind == 'dict':
                if a.fam is b.fam and is_true(simp(And(*[x == y for x, y in zip(a.idx, b.idx)]))):
                    return T
                cs = []
                for k in sorted(set(a.fam.keys) | set(b.fam.keys), key=str):
                    va, vb = self.rd(st, a, k), self.rd(st, b, k)
                    cs.append(Or(And(self.is_miss(va), self.is_miss(vb)), self.eq(st, va, vb)))
                return And(*cs)
            if a.fam is b.fam:
                return And(*[x == y for x, y in zip(a.idx, b.idx)])
            return F
        if isinstance(a, MISS.__class__) or isinstance(b, MISS.__class__):
            return F
        if isinstance(a, AnyV) and isinstance(b, AnyV) and a.tag == b.tag:
            return T
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            raise Unsupported('comparison of user values')
        return F

    def seqish(self, st, v):
        if isinstance(v, Ref):
            if v.fam.kind == 'set':
                raise Unsupported('comparison of sets')
            if v.fam.kind == 'list' or self.rd(st, v, '@') is not MISS:
                return 'list', self.content(st, v)
            return None
        if isinstance(v, (Seq, SeqC)):
            k = v.kind
            return (k if k in ('tuple', 'str', 'list', 'range') else 'gen'), v
        return None

    def seq_eq(self, st, a, b):
        if isinstance(a, SeqC) and isinstance(b, SeqC):
            if len(a.items) != len(b.items):
                return F
            return And(*[self.eq(st, p, q) for p, q in zip(a.items, b.items)])
        if same(a, b):
            return T
        na, nb = seq_len(a), seq_len(b)
        q = self.forall(st, na, lambda s, j: self.eq(s, seq_get(a, j), seq_get(b, j)), 'eq', guard=na == nb)
        return And(na == nb, q)

    def forall(self, st, n, fn, tag, lo=None, guard=T, pats=None):
        """proxy Boolean for: for all lo<=j<n. fn(j).  When guard is false the proxy is unconstrained."""
        lo = num(0) if lo is None else lo
        self.path.append(('q', tag, self.qn()))
        try:
            j = z3.Int('j~%d' % self.pathid())
            sub = st.copy()
            sub.add(And(lo <= j, j < n))
            self.S.mark()
            self.ks.append(j)
            try:
                c = fn(sub, j)
            finally:
                self.ks.pop()
                fs = self.S.rollback()
            c = simp(c)
            for f in fs:
                self.S.facts.append(Fact(f.vars + (j,), f.guard, f.body, f.pats))
            if is_true(c):
                return T
            ck = consts_in(c)
            if j.get_id() not in ck:
                return Or(n <= lo, c)
            # the proxy is keyed by its definition: equal names always have equal meaning
            ex = (c.sexpr(), str(n), str(lo), str(guard), str(j))
            b = self.sym('all_' + tag, BOOL, None, ex)
            w = self.sym('wit_' + tag, INT, None, ex)
            self.proxies[b.decl().name()] = (w.decl(), lo, n)
            g = And(*st.pc, guard)
            self.S.facts.append(Fact((j,), And(b, guard, lo <= j, j < n), c, pats))
            self.S.facts.append(Fact((), And(Not(b), guard), And(lo <= w, w < n, Not(sub_e(c, [(j, w)])))))
            return b
        finally:
            self.path.pop()

    def exists(self, st, n, fn, tag, lo=None, guard=T):
        return Not(self.forall(st, n, lambda s, j: Not(fn(s, j)), tag, lo, guard))

    def qn(self):
        return len(self.path)

    def pathid(self):
        key = ('pid',) + tuple(self.path)
        if key not in self.syms:
            self.syms[key] = len(self.syms)
        return self.syms[key]

    def member(self, st, x, s, node):
        """x in s"""
        if isinstance(x, Union):
            return Or(*[And(g, self.member(st, w, s, node)) for g, w in x.alts])
        if isinstance(s, DictView) and s.what == 'keys':
            s = s.ref
        if isinstance(s, Ref) and s.fam.kind == 'dict':
            if isinstance(x, Str):
                return Not(self.is_miss(self.rd(st, s, x.s)))
            if isinstance(x, OtherStr):
                return F
            if isinstance(x, Scal) and z3.is_int_value(simp(x.e)):
                return Not(self.is_miss(self.rd(st, s, simp(x.e).as_long())))
            if (isinstance(x, Scal) and x.e.sort() != Gene or x is NONE) and all(isinstance(k, str) for k in s.fam.keys):
                return F
            raise Unsupported('key test')
        if isinstance(s, SetV):
            s = s.seq
        if isinstance(s, Ref) and s.fam.kind == 'set':
            s = self.content(st, s)
        if isinstance(s, MapV):
            return sub_e(s.dom, [(s.x, self.arith(x))])
        q = self.as_seq(st, s)
        if isinstance(q, SeqC):
            return Or(*[self.eq(st, x, i) for i in q.items])
        self.path.append(('in',) + pos(node))
        try:
            if q.info and q.info[0] == 'range':
                lo, step = q.info[1], q.info[2]
                if isinstance(x, Scal) and x.e.sort() == INT:
                    if step.eq(num(1)):
                        return And(x.e >= lo, x.e < lo + q.n)
            if q.view is not None:
                base, lo = q.view
                return self.exists(st, lo + q.n, lambda s2, j: self.eq(s2, x, seq_get(base, j)), 'in', lo=lo)
            return self.exists(st, q.n, lambda s2, j: self.eq(s2, x, seq_get(q, j)), 'in')
        finally:
            self.path.pop()

    def identical(self, st, a, b):
        if isinstance(a, Union):
            return Or(*[And(g, self.identical(st, w, b)) for g, w in a.alts])
        if isinstance(b, Union):
            return Or(*[And(g, self.identical(st, a, w)) for g, w in b.alts])
        if a is NONE or b is NONE:
            return z3.BoolVal(a is b)
        if isinstance(a, Py) and isinstance(b, Py):
            return z3.BoolVal(a.o is b.o)
        if isinstance(a, Py) or isinstance(b, Py):
            return F
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.fam is not b.fam:
                return F
            return And(*[x == y for x, y in zip(a.idx, b.idx)])
        if isinstance(a, Scal) and isinstance(b, Scal) and a.e.sort() == BOOL and b.e.sort() == BOOL:
            return a.e == b.e
        if isinstance(a, AnyV) and isinstance(b, AnyV):
            return z3.BoolVal(a.tag == b.tag)
        if isinstance(a, Opq) and isinstance(b, Opq):
            return z3.BoolVal(a.name == b.name)
        if type(a) is not type(b):
            return F
        raise Unsupported('is: %r %r' % (a, b))

    def compare(self, st, op, a, b, node):
        if isinstance(op, ast.Eq):
            self.path.append(('==',) + pos(node))
            try:
                return self.eq(st, a, b)
            finally:
                self.path.pop()
        if isinstance(op, ast.NotEq):
            self.path.append(('!=',) + pos(node))
            try:
                return Not(self.eq(st, a, b))
            finally:
                self.path.pop()
        if isinstance(op, ast.Is):
            return self.identical(st, a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.identical(st, a, b))
        if isinstance(op, ast.In):
            return self.member(st, a, b, node)
        if isinstance(op, ast.NotIn):
            return Not(self.member(st, a, b, node))

        def f(s, x, y):
            if isinstance(x, Scal) and isinstance(y, Scal) and x.e.sort() != Gene and y.e.sort() != Gene:
                p, q = self.coerce(self.arith(x), self.arith(y))
                if isinstance(op, ast.Lt):
                    return Scal(p < q)
                if isinstance(op, ast.LtE):
                    return Scal(p <= q)
                if isinstance(op, ast.Gt):
                    return Scal(p > q)
                if isinstance(op, ast.GtE):
                    return Scal(p >= q)
            if isinstance(x, (Hole, AnyV)) or isinstance(y, (Hole, AnyV)):
                raise Unsupported('ordering of %r %r' % (x, y))
            self.do_raise(s, TypeError, node)
        r = self.split2(st, a, b, f)
        return r.e

    def binop(self, st, op, a, b, node):
        if isinstance(a, Union) or isinstance(b, Union):
            return self.split2(st, a, b, lambda s, x, y: self.binop(s, op, x, y, node))
        if isinstance(op, ast.Add):
            if isinstance(a, Str) and isinstance(b, Str):
                return Str(a.s + b.s)
            if isinstance(a, (Str, Seq, SeqC)) or isinstance(b, (Str, Seq, SeqC)):
                qa, qb = self.as_seq(st, a), self.as_seq(st, b)
                return self.concat(st, qa, qb, qa.kind)
            if isinstance(a, Ref) and isinstance(b, Ref):
                r = self.alloc(st, 'list', node, 'add')
                self.put(st, r, '@', self.concat(st, self.as_seq(st, a), self.as_seq(st, b), 'list'))
                return r
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Str, Seq, SeqC)) or (isinstance(x, Ref) and x.fam.kind == 'list'):
                    q = self.as_seq(st, x)
                    n = self.arith(y)
                    if isinstance(q, SeqC) and len(q.items) == 1:
                        it = q.items[0]
                        m = self.pos_part(st, n)
                        c = Seq(q.kind, m, fresh_int('r'), it)
                        if isinstance(x, Str):
                            c.kind = 'str'
                    elif isinstance(q, SeqC) and z3.is_int_value(simp(n)):
                        c = SeqC(q.kind, q.items * simp(n).as_long())
                    else:
                        raise Unsupported('sequence repetition')
                    if isinstance(x, Ref):
                        r = self.alloc(st, 'list', node, 'rep')
                        self.put(st, r, '@', c)
                        return r
                    return c
        if not (isinstance(a, Scal) and isinstance(b, Scal)) or a.e.sort() == Gene or b.e.sort() == Gene:
            if isinstance(a, (Hole, AnyV)) or isinstance(b, (Hole, AnyV)) or (isinstance(a, Scal) and a.e.sort() == Gene)\
                    or (isinstance(b, Scal) and b.e.sort() == Gene):
                raise Unsupported('arithmetic on %r %r' % (a, b))
            if isinstance(a, Str) and isinstance(op, ast.Mod):
                return Str('?')
            self.do_raise(st, TypeError, node)
        if isinstance(op, (ast.BitXor, ast.RShift, ast.LShift, ast.BitAnd, ast.BitOr)):
            return self.bitop(st, op, a, b, node)
        x, y = self.coerce(self.arith(a), self.arith(b))
        if isinstance(op, ast.Add):
            return Scal(simp(x + y))
        if isinstance(op, ast.Sub):
            return Scal(simp(x - y))
        if isinstance(op, ast.Mult):
            return Scal(self.times(x, y))
        if isinstance(op, ast.Div):
            self.raise_if(st, y == 0, ZeroDivisionError, node)
            if x.sort() == INT:
                x, y = z3.ToReal(x), z3.ToReal(y)
            return Scal(self.divide(x, y))
        if isinstance(op, ast.FloorDiv):
            self.raise_if(st, y == 0, ZeroDivisionError, node)
            if x.sort() == INT:
                return Scal(If(y > 0, x / y, (-x) / (-y)))
            return Scal(z3.ToReal(z3.ToInt(self.divide(x, y))))
        if isinstance(op, ast.Mod):
            self.raise_if(st, y == 0, ZeroDivisionError, node)
            if x.sort() == INT:
                return Scal(If(y > 0, x % y, -((-x) % (-y))))
        if isinstance(op, ast.Pow):
            return self.power(st, x, y, node)
        raise Unsupported('operator %s' % type(op).__name__)

    rdiv = z3.Function('rdiv', REAL, REAL, REAL)
    rsum = z3.Function('range_sum', INT, INT, INT)
    opaque_div = False

    def divide(self, x, y):
        """quotient of reals; with opaque_div, division by something that is not a number is a function known by its
        order properties only (lemmas/Lemmas.lean: rdiv_*), which keeps the obligations linear"""
        if not self.opaque_div or z3.is_rational_value(simp(y)):
            return x / y
        x, y = simp(x), simp(y)
        if z3.is_rational_value(x) and x.as_fraction() == 0:
            return z3.RealVal(0)
        if not self.rdiv_known:
            self.rdiv_known = True
            a, b, c = z3.Real('rd_a'), z3.Real('rd_b'), z3.Real('rd_c')
            f = self.rdiv
            self.S.axiom(Fact((a, c), c > 0, And((f(a, c) > 0) == (a > 0), (f(a, c) == 0) == (a == 0), (f(a, c) >= 1) == (a >= c)), pats=[f(a, c)]))
            self.S.axiom(Fact((a, b, c), And(c > 0, a < b), f(a, c) < f(b, c), pats=[(f(a, c), f(b, c))]))
        if z3.is_app(y) and y.decl().eq(self.rdiv):
            # t = x / (b / c)  for b, c > 0  (rdiv_rdiv)
            b, c = y.children()
            t = self.rdiv(x, y)
            self.S.facts.append(Fact((), And(b > 0, c > 0), And(Implies(x >= 0, t >= 0), Implies(x <= b, t <= c), Implies(x == b, t == c))))
        for r in apps_of(x, self.rsum):
            # mean of consecutive numbers (rdiv_range):  (lo + .. + lo+m-1 + j*m) / m  =  lo + (m-1)/2 + j
            lo, m = r.children()
            for j in (0, 1, 2, -1):
                if self.S.local([y == z3.ToReal(m)], x == z3.ToReal(r + j * m)):
                    self.S.facts.append(Fact((), And(m > 0, y == z3.ToReal(m)), 2 * self.rdiv(x, y) == 2 * z3.ToReal(lo) + z3.ToReal(m) - 1 + 2 * j))
                    break
        return self.rdiv(x, y)

    scale = z3.Function('scale', REAL, REAL, REAL)

    def times(self, x, y):
        """product; with opaque_div, what is known about  t = x * (a / c)  for a, c > 0 (rdiv_scale)"""
        t = simp(x * y)
        if self.opaque_div:
            for u, v in ((simp(x), simp(y)), (simp(y), simp(x))):
                if z3.is_app(v) and v.decl().eq(self.rdiv) and not z3.is_rational_value(u):
                    a, c = v.children()
                    t = self.scale(u, v)
                    self.S.facts.append(Fact((), And(a > 0, c > 0), And(Implies(u >= 0, t >= 0), Implies(u <= c, t <= a), Implies(u == c, t == a), Implies(u == 0, t == 0))))
                    break
        return t

    pow2 = z3.Function('pow2', INT, INT)
    rpow = z3.Function('rpow', REAL, REAL, REAL)

    def power(self, st, x, y, node):
        if x.sort() == INT and z3.is_int_value(simp(x)) and simp(x).as_long() == 2:
            if self.guessing or self.prove(st, y >= 0):
                return Scal(self.pow2(y))
            raise Unsupported('2**negative')
        if z3.is_int_value(simp(y)) or z3.is_rational_value(simp(y)):
            yv = simp(y)
            val = yv.as_long() if z3.is_int_value(yv) else yv.as_fraction()
            if val == 2:
                return Scal(x * x)
            if val == 1:
                return Scal(x)
            if val == 0:
                return Scal(num(1) if x.sort() == INT else z3.RealVal(1))
        if x.sort() == INT:
            x = z3.ToReal(x)
        if y.sort() == INT:
            y = z3.ToReal(y)
        # real power with non-negative base
        self.raise_if(st, And(x == 0, y < 0), ZeroDivisionError, node)
        if not self.prove(st, x >= 0):
            raise Unsupported('power of a possibly negative number')
        return Scal(self.rpow(x, y))

    def bitop(self, st, op, a, b, node):
        from . import bits
        return bits.bitop(self, st, op, a, b, node)

    def pos_part(self, st, n):
        if self.prove(st, n >= 0):
            return simp(n)
        return simp(If(n >= 0, n, num(0)))

    def plain_len(self, st, q):
        """q with its length written plainly where it is given by cases that all agree"""
        def branches(e):
            return branches(e.arg(1)) + branches(e.arg(2)) if z3.is_app_of(e, z3.Z3_OP_ITE) else [e]
        for c in branches(q.n):
            if self.prove(st, q.n == c):
                return Seq(q.kind, c, q.x, q.body, q.cid, q.view, q.info)
        return q

    def concat(self, st, a, b, kind):
        if st is not None and isinstance(b, Seq) and b.kind == 'str' and z3.is_app_of(b.n, z3.Z3_OP_ITE):
            b = self.plain_len(st, b)
        if isinstance(a, SeqC) and isinstance(b, SeqC):
            return SeqC(kind, a.items + b.items)
        if isinstance(b, SeqC) and not b.items:
            return self.rekind(a, kind)
        if isinstance(a, SeqC) and not a.items:
            return self.rekind(b, kind)
        a, b = to_seq(a), to_seq(b)
        x = fresh_int('c')
        ba = subst(a.body, [(a.x, x)])
        bb = subst(b.body, [(b.x, simp(x - a.n))])
        return Seq(kind, simp(a.n + b.n), x, ite(x < a.n, ba, bb))

    def rekind(self, q, kind):
        if isinstance(q, SeqC):
            return SeqC(kind, q.items, q.cid)
        return Seq(kind, q.n, q.x, q.body, q.cid, q.view, q.info)

    def slice(self, st, q, lo, hi, step, node):
        n = seq_len(q)

        def lit(t):
            s = simp(t)
            return s.as_long() if z3.is_int_value(s) else None
        if step is not None:
            sv = lit(self.arith(step))
            if sv == -1 and lo is None and hi is None:
                return self.reverse(q)
            if sv is not None and sv > 1:
                q = self.slice(st, q, lo, hi, None, node)
                if isinstance(q, SeqC):
                    return SeqC(q.kind, q.items[::sv])
                x = fresh_int('st')
                m = seq_len(q)
                return Seq(q.kind, simp((m + (sv - 1)) / num(sv)), x, subst(q.body, [(q.x, simp(x * sv))]))
            if sv != 1:
                raise Unsupported('slice step')
        if isinstance(q, SeqC):
            l = None if lo is None else lit(self.arith(lo))
            h = None if hi is None else lit(self.arith(hi))
            if (lo is None or l is not None) and (hi is None or h is not None):
                return SeqC(q.kind, q.items[l:h])
        q0 = q
        q = to_seq(q)

        def norm(t, dflt):
            if t is None:
                return dflt
            t = self.arith(t)
            if t.sort() != INT:
                raise Unsupported('slice index')
            t = simp(t)
            if self.prove(st, And(t >= 0, t <= n)):
                return t
            if self.prove(st, t < 0):
                t2 = simp(t + n)
                if self.prove(st, t2 >= 0):
                    return t2
                if self.prove(st, t2 <= 0):
                    return num(0)
                return simp(If(t2 >= 0, t2, num(0)))
            if self.prove(st, t >= n):
                return n
            t2 = If(t < 0, t + n, t)
            return simp(If(t2 < 0, num(0), If(t2 > n, n, t2)))
        l = norm(lo, num(0))
        h = norm(hi, n)
        if q.info and q.info[0] == 'bin' and lit(l) == 2:
            if h.eq(n):
                return q.info[1]
            q, l, h, n = q.info[1], num(0), simp(h - 2), seq_len(q.info[1])
        if l.eq(num(0)) and h.eq(n):
            return Seq(q.kind, q.n, q.x, q.body, q.cid, (q, num(0)) if q.view is None else q.view, q.info)
        m = simp(h - l)
        if not self.prove(st, m >= 0):
            m = simp(If(m >= 0, m, num(0)))
        x = fresh_int('sl')
        base, off = q.view if q.view is not None else (q, num(0))
        res = Seq(q.kind, m, x, subst(q.body, [(q.x, simp(x + l))]), None, (base, simp(off + l)))
        if q.info and q.info[0] == 'range':
            res.info = ('range', simp(q.info[1] + l * q.info[2]), q.info[2])
        return res

    def reverse(self, q):
        if isinstance(q, SeqC):
            return SeqC(q.kind, q.items[::-1])
        x = fresh_int('rv')
        return Seq(q.kind, q.n, x, subst(q.body, [(q.x, simp(q.n - 1 - x))]))

    def index(self, st, q, iv, node):
        """q[i] with bounds check; q a sequence value, iv a Value"""
        i = self.arith(iv)
        if i.sort() != INT:
            self.do_raise(st, TypeError, node)
        n = seq_len(q)
        i = simp(i)
        if isinstance(q, SeqC) and z3.is_int_value(i):
            j = i.as_long()
            if -len(q.items) <= j < len(q.items):
                return q.items[j]
            self.do_raise(st, IndexError, node)
        j = self.norm_index(st, i, n, node)
        return prune(seq_get(q, j))

    def norm_index(self, st, i, n, node):
        if z3.is_int_value(i):
            j = simp(i + n) if i.as_long() < 0 else i
            self.raise_if(st, Or(j < 0, j >= n), IndexError, node)
            return j
        self.raise_if(st, Or(i < -n, i >= n), IndexError, node)
        if self.prove(st, i >= 0):
            return i
        if self.prove(st, i < 0):
            return simp(i + n)
        return simp(If(i < 0, i + n, i))
