"""State, facts, solver interface."""
import time
import z3
from .values import *


class Unsupported(Exception):
    """construct outside the subset"""


class Dead(Exception):
    """no path continues"""


class Fact:
    __slots__ = ('vars', 'guard', 'body', '_z', 'pats')

    def __init__(self, vars, guard, body, pats=None):
        self.vars, self.guard, self.body = tuple(vars), guard, body
        self._z = None
        self.pats = pats

    def names(self):
        return {a.decl().name() for e in (self.body, self.guard) for a in _apps(e)}

    def z(self):
        if self._z is None:
            f = Implies(self.guard, self.body)
            if self.vars:
                used = consts_in(f)
                vs = [v for v in self.vars if v.get_id() in used]
                pats = self.pats
                if pats is not None:
                    cover = [set().union(*[consts_in(t) for t in (p if isinstance(p, tuple) else (p,))]) for p in pats]
                    inb = consts_in(self.body)
                    for v in list(vs):
                        # a variable no pattern mentions: an instance if only the guard depends on it
                        if v.sort() == INT and not any(v.get_id() in c for c in cover) and v.get_id() not in inb:
                            f = z3.simplify(z3.substitute(f, (v, num(0))))
                            vs.remove(v)
                    pats = [p for p, c in zip(pats, cover) if all(v.get_id() in c for v in vs)] or None
                if vs:
                    f = quantify(vs, f, pats)
            self._z = f
        return self._z


def consts_in(e):
    seen, out = set(), set()
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_var(t):
            continue
        if t.num_args() == 0:
            out.add(i)
        stack.extend(t.children())
    return out


def _apps(e):
    """uninterpreted applications with at least one argument"""
    seen, out = set(), []
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen or z3.is_quantifier(t) or z3.is_var(t):
            continue
        seen.add(i)
        if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        stack.extend(t.children())
    return out


def clean(t):
    """may occur in a pattern: no Boolean connectives"""
    seen, stack = set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            return False
        if u.num_args() and (z3.is_bool(u) and u.decl().kind() != z3.Z3_OP_UNINTERPRETED or z3.is_app_of(u, z3.Z3_OP_ITE)):
            return False
        stack.extend(u.children())
    return True


def shift_vars(vs, f):
    """a variable that occurs in applications only as  v + c  (c a number) is renamed to  v - c  there, so that the
    application can serve as a pattern"""
    direct, shifted = set(), {}
    ids = {v.get_id(): v for v in vs}
    for a in _apps(f):
        for c in a.children():
            i = c.get_id()
            if i in ids:
                direct.add(i)
            elif z3.is_app_of(c, z3.Z3_OP_ADD) and c.num_args() == 2:
                p, q = c.children()
                if z3.is_int_value(q):
                    p, q = q, p
                if z3.is_int_value(p) and q.get_id() in ids:
                    shifted.setdefault(q.get_id(), p)
    todo = [(ids[i], ids[i] - c) for i, c in shifted.items() if i not in direct]
    return z3.simplify(z3.substitute(f, *todo)) if todo else f


def quantify(vs, f, pats=None):
    ids = {v.get_id(): v for v in vs}
    if pats is not None:
        # explicit patterns: list of (tuple of) terms
        ps = []
        for p in pats:
            ps.append(z3.MultiPattern(*p) if isinstance(p, tuple) else p)
        return z3.ForAll(vs, f, patterns=ps)
    f = shift_vars(vs, f)
    apps = []
    for a in _apps(f):
        direct = [c for c in a.children() if c.get_id() in ids]
        if not direct:
            continue
        # variables may only occur as direct arguments (or inside other pattern-clean applications)
        ok = True
        for c in a.children():
            if c.get_id() in ids:
                continue
            if consts_in(c) & set(ids):
                ok = False
        if ok and clean(a):
            apps.append((a, {c.get_id() for c in direct}))
    full = [a for a, d in apps if len(d) == len(ids)]
    if full:
        full.sort(key=lambda a: a.num_args())
        return z3.ForAll(vs, f, patterns=full[:6])
    # greedy multi-pattern
    need = set(ids)
    pick = []
    for a, d in sorted(apps, key=lambda p: -len(p[1])):
        if d & need:
            pick.append(a)
            need -= d
        if not need:
            break
    if not need and pick:
        return z3.ForAll(vs, f, patterns=[z3.MultiPattern(*pick)])
    return z3.ForAll(vs, f)


class Cell:
    """body over the index variables xs; last = (idx, value, rest): the most recent write at one index"""
    __slots__ = ('xs', 'body', 'last')

    def __init__(self, xs, body, last=None):
        self.xs, self.body, self.last = xs, body, last

    def at(self, idx):
        if not self.xs:
            return self.body
        if self.last is not None and all(p.eq(q) for p, q in zip(self.last[0], idx)):
            return self.last[1]
        return prune(subst(self.body, list(zip(self.xs, idx))))


def prune(v):
    """drop alternatives whose guard simplifies to false; collapse Ifs"""
    if isinstance(v, Union):
        return mk_union([(simp(g), prune(w)) for g, w in v.alts])
    if isinstance(v, Scal):
        return Scal(simp(v.e)) if z3.is_app_of(v.e, z3.Z3_OP_ITE) else v
    if isinstance(v, Seq):
        n = simp(v.n)
        return Seq(v.kind, n, v.x, prune(v.body), v.cid, v.view, v.info)
    if isinstance(v, Ref):
        return Ref(v.fam, [simp(i) for i in v.idx])
    return v


class Frame:
    __slots__ = ('vars', 'fn', 'cls', 'globals', 'parent', 'selfname')

    def __init__(self, vars, fn, cls, globs, parent=None):
        self.vars, self.fn, self.cls, self.globals, self.parent = vars, fn, cls, globs, parent

    def copy(self):
        return Frame(dict(self.vars), self.fn, self.cls, self.globals, self.parent)


class State:
    __slots__ = ('heap', 'frames', 'pc', 'dictof', 'ghost', 'once')

    def __init__(self):
        self.heap, self.frames, self.pc, self.dictof, self.ghost = {}, [], (), {}, {}
        self.once = frozenset()

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = [f.copy() for f in self.frames]
        s.pc = self.pc
        s.dictof = dict(self.dictof)
        s.ghost = dict(self.ghost)
        s.once = self.once
        return s

    def become(self, o):
        self.heap, self.frames, self.pc, self.dictof, self.ghost = o.heap, o.frames, o.pc, o.dictof, o.ghost
        self.once = o.once

    def add(self, c):
        if not is_true(c):
            self.pc = self.pc + (c,)


def merge_cells(c, a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    bb = b.body if all(p.eq(q) for p, q in zip(a.xs, b.xs)) else subst(b.body, list(zip(b.xs, a.xs)))
    last = None
    if a.last is not None and b.last is not None and all(p.eq(q) for p, q in zip(a.xs, b.xs)) \
            and all(p.eq(q) for p, q in zip(a.last[0], b.last[0])):
        last = (a.last[0], ite(c, a.last[1], b.last[1]), ite(c, a.last[2], b.last[2]))
    return Cell(a.xs, ite(c, a.body, bb), last)


def split_pc(p, q):
    n = 0
    while n < len(p) and n < len(q) and p[n].eq(q[n]):
        n += 1
    return p[:n], p[n:], q[n:]


def or_pc(r1, r2):
    """r1, r2: tuples of conjuncts"""
    if r1 and r2 and (Not(r1[0]).eq(r2[0]) or r1[0].eq(Not(r2[0]))):
        c = r1[0]
        a, b = And(*r1[1:]), And(*r2[1:])
        if is_true(a) and is_true(b):
            return T
        return And(Implies(c, a), Implies(Not(c), b))
    return Or(And(*r1), And(*r2))


def merge(states):
    """merge states with pairwise exclusive path conditions; frames must have equal depth"""
    states = [s for s in states if s is not None]
    if not states:
        return None
    cur = states[0]
    for o in states[1:]:
        pre, r1, r2 = split_pc(cur.pc, o.pc)
        c = r1[0] if r1 and r2 and (Not(r1[0]).eq(r2[0]) or r1[0].eq(Not(r2[0]))) else And(*r1)
        n = State()
        if cur.heap is o.heap:
            n.heap = cur.heap
        else:
            n.heap = {}
            for k in list(cur.heap) + [k for k in o.heap if k not in cur.heap]:
                n.heap[k] = merge_cells(c, cur.heap.get(k), o.heap.get(k))
        n.frames = []
        for f, g in zip(cur.frames, o.frames):
            d = {}
            for k in list(f.vars) + [k for k in g.vars if k not in f.vars]:
                a, b = f.vars.get(k, MISS), g.vars.get(k, MISS)
                d[k] = a if a is b else ite(c, a, b)
            n.frames.append(Frame(d, f.fn, f.cls, f.globals, f.parent))
        n.ghost = {}
        for k in list(cur.ghost) + [k for k in o.ghost if k not in cur.ghost]:
            a, b = cur.ghost.get(k, MISS), o.ghost.get(k, MISS)
            n.ghost[k] = a if a is b else ite(c, a, b)
        n.once = cur.once | o.once
        n.dictof = dict(cur.dictof)
        for k, v in o.dictof.items():
            if n.dictof.get(k, v) is not v:
                raise Unsupported('diverging __dict__ sharing')
            n.dictof[k] = v
        n.pc = pre
        n.add(or_pc(r1, r2))
        cur = n
    return cur


class Obligation:
    def __init__(self, label, where, ok, how, secs, model=None, formula=None):
        self.label, self.where, self.ok, self.how, self.secs, self.model = label, where, ok, how, secs, model
        self.formula = formula


RL_SMALL, RL_MED, RL_BIG = 600_000, 4_000_000, 30_000_000


class Solver:
    """incremental z3 with e-matching; escalates to MBQI and cvc5"""
    attempt = 0             # a further attempt at a contract: another random seed, more time

    def __init__(self):
        self.facts = []
        self.s = z3.Solver()
        self.s.set('mbqi', False)
        self.s.set('auto_config', False)
        self.n = 0
        self.levels = []
        self.base = []          # axioms valid in every context
        self.time = 0.0
        self.queries = 0
        self.by = {}
        self.loc = None

    def sync(self):
        while self.n < len(self.facts):
            self.s.add(self.facts[self.n].z())
            self.n += 1

    def mark(self):
        self.sync()
        self.s.push()
        self.levels.append((self.n, len(self.base)))

    def rollback(self):
        """drop all facts since the last mark and return them"""
        n, nb = self.levels.pop()
        self.s.pop()
        for f in self.base[nb:]:
            self.s.add(f.z())
        dropped = self.facts[n:]
        del self.facts[n:]
        self.n = n
        return dropped

    def retire(self, names):
        """drop the quantified facts about the given functions (they have served; fewer facts never prove more)"""
        self.retire_if(lambda f: bool(f.vars) and bool(f.names() & names))

    def retire_if(self, useless):
        assert not self.levels
        self.facts = [f for f in self.facts if not useless(f)]
        self.s = z3.Solver()
        self.s.set('mbqi', False)
        self.s.set('auto_config', False)
        for f in self.base:
            self.s.add(f.z())
        self.n = 0

    def axiom(self, f):
        self.base.append(f)
        self.s.add(f.z())

    def local(self, conds, goal):
        """valid without any fact?"""
        if not isinstance(self.loc, z3.Solver):
            self.loc = z3.Solver()
            self.loc.set('mbqi', False)
            self.loc.set('auto_config', False)
        s = self.loc
        s.push()
        try:
            for c in conds:
                s.add(c)
            s.add(Not(goal))
            s.set('rlimit', 60_000)
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False
        finally:
            s.pop()

    def check(self, conds, goal, rl=RL_MED):
        """valid?  facts /\\ conds => goal"""
        t0 = time.time()
        self.queries += 1
        self.sync()
        s = self.s
        s.push()
        try:
            for c in conds:
                s.add(c)
            s.add(Not(goal))
            s.set('rlimit', rl * (2 if self.attempt else 1))
            r = s.check()
            return r == z3.unsat
        except z3.Z3Exception:
            return False
        finally:
            s.pop()
            self.time += time.time() - t0

    def near(self, conds, goal, rl=RL_MED):
        """only with the facts that share a function with the goal or the conditions"""
        t0 = time.time()
        names = lambda e: {a.decl().name() for a in _apps(e)}
        syms = set().union(names(goal), *[names(c) for c in conds])
        s = z3.Solver()
        s.set('mbqi', False)
        s.set('auto_config', False)
        s.set('rlimit', rl)
        for f in self.base + self.facts:
            ns = names(f.body) | names(f.guard)
            if not ns or ns & syms and (not f.vars or f.pats is None or ns <= syms or len(ns & syms) * 2 >= len(ns)):
                s.add(f.z())
        try:
            s.add(*conds, Not(goal))
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False
        finally:
            self.time += time.time() - t0

    def full(self, conds, goal, timeout=10):
        """escalated attempt; returns (proved, how, model or None)"""
        t0 = time.time()
        fs = [f.z() for f in self.base + self.facts]
        model = None
        try:
            s = z3.Solver()
            timeout *= 2 if self.attempt else 1
            s.set('timeout', int(timeout * 1000))
            s.add(fs)
            s.add(*conds) if conds else None
            s.add(Not(goal))
            r = s.check()
            if r == z3.unsat:
                return True, 'z3-mbqi', None
            if r == z3.sat:
                model = s.model()
            if r != z3.sat:
                p = cvc5_check(s.to_smt2(), timeout)
                if p:
                    return True, 'cvc5', None
            return False, str(r), model
        finally:
            self.time += time.time() - t0


def cvc5_check(smt, timeout):
    import subprocess
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--enum-inst', '-'],
                           input='(set-logic ALL)\n' + smt, capture_output=True, text=True, timeout=timeout + 5)
        return r.stdout.strip().split('\n')[0] == 'unsat'
    except Exception:
        return False
