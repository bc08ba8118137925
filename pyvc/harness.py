"""Contract harness: builds an arbitrary pre-state, calls the real function, checks postconditions as obligations."""
import os
import sys
import time
import z3
from .values import *
from .core import *
from .core import _apps as core_apps
from .engine import *
from .execu import Exec

REPO = os.environ.get('BAUM_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def parts(v):
    """(terms, families) a value is made of"""
    exprs, fams, seen, todo = [], [], set(), [v]
    while todo:
        x = todo.pop()
        if z3.is_expr(x):
            exprs.append(x)
        elif isinstance(x, Fam):
            fams.append(x.id)
        elif isinstance(x, (tuple, list)):
            todo += x
        elif isinstance(x, dict):
            todo += x.values()
        elif isinstance(x, (V, Cell)) and id(x) not in seen:
            seen.add(id(x))
            todo += [getattr(x, k) for c in type(x).__mro__ for k in getattr(c, '__slots__', ()) if hasattr(x, k)] + list(getattr(x, '__dict__', {}).values())
    return exprs, fams


class CallNode:
    def __init__(self, n):
        self.lineno, self.col_offset = n, 0


LAST = None
NEW = []        # callables applied to every new contract
SKIP = False    # leave out postconditions (used when only obligations of NEW's hooks are wanted)


class H:
    """one contract: pre-state, call(s), postconditions"""

    def __init__(self, name, setup=None):
        global LAST
        LAST = self
        self.name = name
        self.e = Exec(name)
        self.e.cur_fn = [name]
        self.st = State()
        self.st.frames = [Frame({}, None, None, {})]
        self.ncalls = 0
        self.frame_fams = []
        self.t0 = time.time()
        for f in NEW:
            f(self)

    # ------------------------------------------------------------ symbols
    def int(self, n):
        return z3.Int(n)

    def real(self, n):
        return z3.Real(n)

    def fun(self, n, *sorts):
        return z3.Function(n, *sorts)

    def assume(self, c, vars=(), pats=None):
        self.e.S.facts.append(Fact(tuple(vars), T, c, pats))

    def forall_assume(self, fn, n=1, pats=None):
        vs = [z3.Int(fresh_name('q')) for _ in range(n)]
        r = fn(*vs)
        g, b = r[0], r[1]
        p = r[2] if len(r) > 2 else None
        self.e.S.facts.append(Fact(tuple(vs), g, b, p))

    # ------------------------------------------------------------ heap
    def fam(self, name, kind, arity=0, cls=None):
        f = self.e.new_fam(name, kind, arity, cls)
        f.pre = True
        return f

    def cell(self, fam, key, body):
        """body: value, or function of the index variables"""
        if callable(body) and not isinstance(body, V):
            body = body(*fam.xs)
        if fam.kind == 'dict' and key not in fam.keys:
            fam.keys.append(key)
        self.st.heap[(fam.id, key)] = Cell(fam.xs, body)

    def obj(self, name, cls, **attrs):
        f = self.fam(name, 'obj', 0, cls)
        r = Ref(f)
        for k, v in attrs.items():
            self.cell(f, k, v)
        return r

    def list(self, name, n, elem, kind='list'):
        """list object with content elem(i)"""
        f = self.fam(name, 'list', 0)
        self.cell(f, '@', self.seq('list', n, elem))
        return Ref(f)

    def seq(self, kind, n, elem):
        x = fresh_int('e')
        return Seq(kind, n, x, elem(x))

    # ------------------------------------------------------------ execution
    def call(self, fn, *args, **kw):
        self.ncalls += 1
        n = CallNode(self.ncalls)
        if isinstance(fn, V):
            return self.e.call(self.st, fn, list(args), kw, n)
        return self.e.call_py(self.st, fn, list(args), kw, n)

    def method(self, ref, name, *args, **kw):
        self.ncalls += 1
        n = CallNode(self.ncalls)
        b = self.e.getattr(self.st, ref, name, n)
        return self.e.call(self.st, b, list(args), kw, n)

    def earlier(self, ref, name, *args, **kw):
        """an earlier use of the same object on something else; only runs that end normally matter"""
        before = {id(f) for f in self.e.S.facts}
        self.method(ref, name, *args, **kw)
        self.e.sinks[0] = []
        self.e.draws.clear()
        # what was learnt about things the object does not hold any more is not needed (fewer facts never prove more)
        live, seen, todo = set(), set(), [ref.fam.id]
        while todo:
            fid = todo.pop()
            if fid not in seen:
                seen.add(fid)
                for (f, _), c in self.st.heap.items():
                    if f == fid:
                        exprs, fams = parts(c)
                        todo += fams
                        live |= {a.decl().name() for x in exprs for a in core_apps(x)}
        self.e.S.retire_if(lambda f: id(f) not in before and not (f.names() & live))

    def get(self, ref, *keys):
        """attribute / key access in the current state without obligations"""
        v = ref
        for k in keys:
            v = self.e.split(self.st, v, lambda s, b, k=k: self._get1(s, b, k))
        return v

    def _get1(self, s, b, k):
        if isinstance(b, Ref) and b.fam.kind == 'obj' and isinstance(k, str) and k != '@':
            return self.e.getattr(s, b, k, None)
        if isinstance(k, str):
            return self.e.rd(s, b, k)
        q = self.e.as_seq(s, b)
        return prune(seq_get(q, k if not isinstance(k, int) else num(k)))

    def len(self, v):
        def f(s, b):
            return Scal(seq_len(self.e.as_seq(s, b)))
        return self.e.split(self.st, v, f).e

    def item(self, v, i):
        return self.tidy(self.get(v, i))

    def tidy(self, v):
        """replace owners of positions and quotients by the constants they provably equal (the solver need not find that again)"""
        if SKIP:
            return v
        for rnd in range(3):
            terms = {}
            for t in leaves(v, []):
                for a in positions_in(t):
                    terms[a.get_id()] = a
            sub = []
            for a in sorted(terms.values(), key=lambda a: len(a.sexpr()))[:4]:
                own = a.decl().name() in self.e.owners
                if own:
                    extra = []
                    o = self.e.owners[a.decl().name()]
                    for c in int_consts(a.children()[-1]):
                        extra += o[0].instances(a, c, o[1], o[2])
                for c in int_consts(a.children()[-1] if own else a.arg(0)) + [num(0), num(1)]:
                    if self.provable(a == c, extra if own else ()):
                        sub.append((a, c))
                        break
            if not sub:
                return v
            v = prune(subst(v, sub))
        return v

    # ------------------------------------------------------------ checking
    def check(self, goal, label, pc=()):
        if SKIP:
            return True
        s = self.st.copy()
        for c in pc:
            s.add(c)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        for f in mod_facts([goal] + list(s.pc)):
            self.e.lemmas['mul_mod'] = self.e.lemmas.get('mul_mod', 0) + 1
            s.add(f)
        for f in prod_facts([goal]):
            self.e.lemmas['mul_mono'] = self.e.lemmas.get('mul_mono', 0) + 1
            s.add(f)
        for f in self.owner_facts([goal] + list(s.pc)):
            s.add(f)
        return self.e.obligation(s, goal, label)

    def owner_facts(self, es):
        """instances of the definition of piecewise built sequences at the positions that occur"""
        if not self.e.owners:
            return []
        out, seen = [], set()
        for g in es:
            for a in core_apps(g):
                o = self.e.owners.get(a.decl().name())
                if o is None or a.get_id() in seen:
                    continue
                seen.add(a.get_id())
                f, K, pc = o
                for c in int_consts(a.children()[-1]):
                    out += f.instances(a, c, K, pc)
        return out

    def check_scoped(self, guards, fn, label):
        """fn(h) -> goal evaluated in a copy of the state extended with guards"""
        if SKIP:
            return True
        saved = self.st
        self.st = saved.copy()
        for g in guards:
            self.st.add(g)
        try:
            if not self.feasible():
                return True
            try:
                goal = fn()
            except Dead:
                return True
            if isinstance(goal, list):
                for lb, g in goal:
                    self.check(g, '%s: %s' % (label, lb))
            else:
                self.check(goal, label)
        finally:
            self.st = saved

    def positions(self, *ts):
        """names for the positions of the given elements under every sorting / sampling made so far (conservative definitions)"""
        out = []
        for nm, inv in list(self.e.inverse.items()):
            for t in ts:
                try:
                    v = inv(t)
                except z3.Z3Exception:
                    continue
                out.append(fresh_int('pos') == v)
        return out

    def places(self, i):
        """terms for where element i of a sequence may have gone: kept, sorted, filtered, sorted and filtered"""
        out = [i]
        for inv in list(self.e.inverse.values()):
            try:
                out.append(inv(i))
            except z3.Z3Exception:
                pass
        for f, _ in self.e.filters[:4]:
            out += [f.rk(t) for t in out if t.sort() == INT]
        return out[:12]

    def provable(self, goal, pc=()):
        s = self.st.copy()
        for c in pc:
            s.add(c)
        return self.e.prove(s, goal, RL_MED)

    def note(self, goal):
        """an intermediate step: used from here on in this state if it can be proved"""
        if any(p.eq(goal) for p in self.st.pc):
            return True
        if SKIP or not self.provable(goal):
            return False
        self.st.add(goal)
        return True

    def induct(self, label, P, lo, hi, soft=True, pats=None, params=(), free=False):
        """P(lo) and P(t) => P(t+1) for lo <= t < hi are proved; then P holds on lo..hi and is used from here on.
        soft: a candidate that is not inductive is simply not used; params: constants nothing else is known about, generalised;
        free: proved without what is known on the current path, and used on all paths."""
        if SKIP:
            return False
        t = z3.Int(fresh_name('ind'))
        s = self.st.copy()
        if free:
            # holds on every path
            s.pc = ()
        guard = list(s.pc)
        s.add(lo <= hi)
        s2 = s.copy()
        s2.add(And(t >= lo, t < hi, P(t)))
        for a in core_apps(P(t)):
            # name the terms so that facts about them apply even where P(t) itself says nothing
            s2.add(z3.Const(fresh_name('at'), a.sort()) == a)
        if soft:
            ok = self.e.prove(s, P(lo), RL_MED) and self.e.prove(s2, P(t + 1), RL_MED)
            if not ok:
                return False
            self.e.obls.append(Obligation(label + ' (by induction)', self.name, True, 'z3', 0))
        else:
            ok = self.e.obligation(s, P(lo), label + ' (induction start)')
            ok = self.e.obligation(s2, P(t + 1), label + ' (induction step)') and ok
            if not ok:
                return False
        self.e.S.facts.append(Fact((t,) + tuple(params), And(*guard, t >= lo, t <= hi), P(t), pats(t) if pats else None))
        return True

    def sums(self, sort=None):
        """the summation functions of one argument that occurred so far"""
        return [f for f in self.e.sums.values() if f.arity() == 1 and (sort is None or f.range() == sort)]

    def feasible(self):
        return not self.e.S.check(self.st.pc, F, RL_SMALL)

    def no_raise(self, allowed=None, label='no exception'):
        """every exception state must be unreachable unless allowed(exc, state, where) gives a condition that holds"""
        for s, exc, where in self.e.sinks[0] if not SKIP else []:
            goal = F
            if allowed is not None:
                c = allowed(exc, s, where)
                if c is not None:
                    goal = c
            if is_true(goal):
                continue
            self.e.cur_fn.append(where)
            self.e.obligation(s, goal, '%s: %s' % (label, exc.__name__))
            self.e.cur_fn.pop()
        self.e.sinks[0] = []

    def unchanged(self, fams, since, label):
        """the cells of the given pre-state families are untouched"""
        if SKIP:
            return
        for f in fams:
            for (fid, k), c in list(self.st.heap.items()):
                if fid != f.id:
                    continue
                o = since.heap.get((fid, k))
                self.same_cell(f, k, o, c, label)

    def same_cell(self, f, k, o, c, label):
        if o is c:
            self.e.obls.append(Obligation('%s: %s[%s] unchanged' % (label, f.name, k), self.name, True, 'syntactic', 0))
            return
        ob = o.body if o is not None else MISS
        if has_poison(c.body):
            self.check(F, '%s: %s[%s] unchanged (value unknown)' % (label, f.name, k))
            return
        goal = self.e.same_goal(ob, subst(c.body, list(zip(c.xs, f.xs))) if f.xs else c.body)
        rng = getattr(f, 'range', None)
        self.check(goal, '%s: %s[%s] unchanged' % (label, f.name, k), [rng] if rng is not None else [])

    def vacuity(self):
        """the final state must be satisfiable as far as the solver can tell"""
        if self.e.S.check(self.st.pc, F, RL_MED):
            self.e.obls.append(Obligation('pre-state and path are consistent', self.name, False, 'vacuous', 0))
        else:
            self.e.obls.append(Obligation('pre-state and path are consistent', self.name, True, 'z3', 0))


def positions_in(e):
    """owners and quotients of positions, innermost first"""
    seen, out, stack = set(), [], [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if t.num_args() and (t.decl().name().startswith('own_') or t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1))):
            out.append(t)
        stack.extend(t.children())
    return out


def int_consts(e):
    seen, out, stack = set(), [], [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if t.num_args() == 0 and t.sort() == INT and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        stack.extend(t.children())
    return out


def factors(t):
    return [f for c in t.children() for f in factors(c)] if z3.is_mul(t) else [t]


def prod_facts(es):
    """instances of  0 < c and x < y -> c * x < c * y  for products that share all factors but one"""
    seen, stack, prods = set(), list(es), {}
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t) or z3.is_var(t):
            continue
        seen.add(t.get_id())
        if z3.is_mul(t) and t.sort() == REAL and sum(not z3.is_rational_value(c) for c in factors(t)) > 1:
            prods[t.get_id()] = t
        stack.extend(t.children())
    out = []
    ps = list(prods.values())[:12]
    for i, t in enumerate(ps):
        for u in ps[i + 1:]:
            a, b = factors(t), factors(u)
            common = []
            for f in list(a):
                m = [g for g in b if g.eq(f)]
                if m:
                    common.append(f)
                    a = [g for g in a if g is not f]
                    b = [g for g in b if g is not m[0]]
            if common and len(a) == 1 and len(b) == 1:
                pos = And(*[f > 0 for f in common])
                out += [Implies(And(pos, a[0] < b[0]), t < u), Implies(And(pos, a[0] > b[0]), t > u)]
    return out


def mod_facts(es):
    """instances of  d != 0 -> (p * d) mod d = 0  for the products and divisors that occur"""
    seen, stack, divs, prods = set(), list(es), {}, {}
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t) or z3.is_var(t):
            continue
        seen.add(t.get_id())
        k = t.decl().kind()
        if k == z3.Z3_OP_MOD and not z3.is_int_value(t.arg(1)):
            divs[t.arg(1).get_id()] = t.arg(1)
        if k == z3.Z3_OP_MUL and t.sort() == INT:
            prods[t.get_id()] = t
        stack.extend(t.children())
    out = []
    for d in divs.values():
        for t in prods.values():
            if any(c.eq(d) for c in t.children()):
                out.append(Implies(d != 0, t % d == 0))
    return out


def has_poison(v):
    if isinstance(v, (Poison, Hole)):
        return True
    if isinstance(v, Union):
        return any(has_poison(w) for _, w in v.alts)
    if isinstance(v, SeqC):
        return any(has_poison(w) for w in v.items)
    if isinstance(v, Seq):
        return has_poison(v.body)
    return False
