"""Contracts of the builtins and library functions the repository uses (trusted; differentially tested against CPython
by tools/libtest.py)."""
import ast
import copy
import math
import random
import types
import warnings
import functools
import itertools
import operator
import bisect
import z3
from .values import *
from .core import *
from . import pylib
from .engine import ItV, DictView, pos
from . import bits


def lit(e):
    s = simp(e)
    return s.as_long() if z3.is_int_value(s) else None


class LibMixin:
    # ---------------------------------------------------------------- dispatch
    def library(self, st, o, args, kw, n):
        h = self.opaque.get(id(o))
        if h is not None:
            return h(self, st, args, kw, n)
        h = LIB.get(o) if self._hashable(o) else None
        if h is None:
            name = getattr(o, '__name__', str(o))
            if isinstance(o, type) and issubclass(o, BaseException):
                return ExcV(o)
            raise Unsupported('library function %s' % name)
        f = getattr(self, h)
        if h.startswith('r_') and args and isinstance(args[0], Union):
            return self.split(st, args[0], lambda s, v: f(s, [v] + list(args[1:]), kw, n))
        return f(st, args, kw, n)

    @staticmethod
    def _hashable(o):
        try:
            hash(o)
            return True
        except TypeError:
            return False

    def method(self, st, name, b, args, kw, n):
        if name.startswith('list.'):
            name = name[5:]
            if name == '__init__':
                if args:
                    self.put(st, b, '@', self.rekind(self.as_seq(st, args[0]), 'list'))
                return NONE
        if name.startswith('object.'):
            if name == 'object.__init__':
                return NONE
            raise Unsupported(name)
        if isinstance(b, Ref) and b.fam.kind == 'dict':
            m = getattr(self, 'm_dict_' + name, None)
        elif isinstance(b, DictView):
            m = None
        elif isinstance(b, Ref) and b.fam.kind == 'set':
            m = getattr(self, 'm_mset_' + name, None)
        elif isinstance(b, SetV):
            m = getattr(self, 'm_set_' + name, None)
        elif isinstance(b, (Str, OtherStr)) or (isinstance(b, (Seq, SeqC)) and b.kind == 'str'):
            m = getattr(self, 'm_str_' + name, None)
        elif isinstance(b, MapV):
            m = getattr(self, 'm_map_' + name, None)
        elif isinstance(b, Scal):
            m = getattr(self, 'm_num_' + name, None)
        else:
            m = getattr(self, 'm_list_' + name, None)
        if m is None:
            raise Unsupported('method %s of %r' % (name, b))
        return m(st, b, args, kw, n)

    # ---------------------------------------------------------------- number methods
    def m_num_bit_length(self, st, b, args, kw, n):
        from . import bits
        bits.axioms(self)
        if b.e.sort() != INT:
            self.do_raise(st, AttributeError, n)
        if not self.guessing and not self.prove(st, b.e >= 0):
            raise Unsupported('bit length of a possibly negative number')
        return Scal(If(b.e > 0, bits.blen(simp(b.e)), num(0)))

    # ---------------------------------------------------------------- sets that grow: what was put in, with repetitions
    def m_mset_add(self, st, b, args, kw, n):
        self.put(st, b, '@', self.concat(st, self.content(st, b), SeqC('list', [args[0]]), 'list'))
        return NONE

    def m_mset_update(self, st, b, args, kw, n):
        def f(s, a):
            self.put(s, b, '@', self.concat(s, self.content(s, b), self.as_seq(s, a), 'list'))
            return NONE
        return self.split(st, args[0], f)

    # ---------------------------------------------------------------- list methods
    def m_list_append(self, st, b, args, kw, n):
        self.put(st, b, '@', self.concat(st, self.as_seq(st, b), SeqC('list', [args[0]]), 'list'))
        return NONE

    def m_list_extend(self, st, b, args, kw, n):
        def f(s, a):
            self.put(s, b, '@', self.concat(s, self.as_seq(s, b), self.as_seq(s, a), 'list'))
            return NONE
        return self.split(st, args[0], f)

    def m_list_insert(self, st, b, args, kw, n):
        i = args[0]
        self.set_slice_at(st, b, i, args[1], n)
        return NONE

    def set_slice_at(self, st, b, i, v, n):
        q = self.as_seq(st, b)
        left = self.slice(st, q, None, i, None, n)
        right = self.slice(st, q, Scal(seq_len(left)), None, None, n)
        c = self.concat(st, self.concat(st, left, SeqC('list', [v]), 'list'), right, 'list')
        self.put(st, b, '@', self.rekind(c, 'list'))

    def m_list_pop(self, st, b, args, kw, n):
        q = self.as_seq(st, b)
        iv = args[0] if args else Scal(num(-1))
        ln = seq_len(q)
        if not isinstance(iv, Scal) or iv.e.sort() != INT:
            if isinstance(iv, Union):
                return self.split(st, iv, lambda s, i: self.m_list_pop(s, b, [i], kw, n))
            self.do_raise(st, TypeError, n)
        i = simp(iv.e)
        if isinstance(q, SeqC) and z3.is_int_value(i):
            j = i.as_long()
            if not (-len(q.items) <= j < len(q.items)):
                self.do_raise(st, IndexError, n)
            items = list(q.items)
            v = items.pop(j)
            self.put(st, b, '@', SeqC('list', items))
            return v
        j = self.norm_index(st, i, ln, n)
        v = prune(seq_get(q, j))
        left = self.slice(st, q, None, Scal(j), None, n)
        right = self.slice(st, q, Scal(simp(j + 1)), None, None, n)
        self.put(st, b, '@', self.rekind(self.concat(st, left, right, 'list'), 'list'))
        return v

    def find_index(self, st, q, v, n, tag):
        """first index of v in q; raises ValueError path when absent"""
        if isinstance(q, SeqC):
            r = None
            conds = [self.eq(st, it, v) for it in q.items]
            self.raise_if(st, Not(Or(*conds)), ValueError, n)
            r = num(len(conds) - 1)
            for i in range(len(conds) - 2, -1, -1):
                r = If(conds[i], num(i), r)
            return simp(r)
        m = self.member(st, v, q, n)
        self.raise_if(st, Not(m), ValueError, n)
        i = self.sym('idx_' + tag, INT, n)
        j = z3.Int('ij~%d' % self.pathid())
        self.assume(st, And(i >= 0, i < q.n, self.eq(st, seq_get(q, i), v)))
        self.assume(st, Implies(And(j >= 0, j < i), Not(self.eq(st, seq_get(q, j), v))), vars=(j,))
        return i

    def m_list_index(self, st, b, args, kw, n):
        if len(args) != 1:
            raise Unsupported('index with bounds')
        return Scal(self.find_index(st, self.as_seq(st, b), args[0], n, 'index'))

    def m_list_remove(self, st, b, args, kw, n):
        i = self.find_index(st, self.as_seq(st, b), args[0], n, 'remove')
        self.m_list_pop(st, b, [Scal(i)], {}, n)
        return NONE

    def m_list_count(self, st, b, args, kw, n):
        q = self.as_seq(st, b)
        if isinstance(q, SeqC):
            return Scal(simp(sum([If(self.eq(st, it, args[0]), num(1), num(0)) for it in q.items], num(0))))
        x = z3.Int('cnt~%d' % self.pathid())
        c = self.eq(st, seq_get(q, x), args[0])
        return Scal(self.summation(st, If(c, num(1), num(0)), x, q.n))

    def m_list_reverse(self, st, b, args, kw, n):
        self.put(st, b, '@', self.reverse(self.as_seq(st, b)))
        return NONE

    def m_list_copy(self, st, b, args, kw, n):
        r = self.alloc(st, 'list', n, 'copy')
        self.put(st, r, '@', self.rekind(self.as_seq(st, b), 'list'))
        return r

    def m_list_clear(self, st, b, args, kw, n):
        self.put(st, b, '@', SeqC('list', []))
        return NONE

    def m_list___len__(self, st, b, args, kw, n):
        return Scal(seq_len(self.as_seq(st, b)))

    def m_list_sort(self, st, b, args, kw, n):
        self.put(st, b, '@', self.sorted_seq(st, self.as_seq(st, b), kw.get('key', NONE), kw.get('reverse', Scal(F)), n))
        return NONE

    def sorted_seq(self, st, q, key, rev, n):
        rv = self.truth(st, rev)
        d = self.decide(st, rv)
        if d is None:
            raise Unsupported('sort order')

        def keyof(s, v):
            if key is NONE:
                return v
            return self.call(s, key, [v], {}, n)
        if isinstance(q, SeqC) and len(q.items) <= 1:
            return q
        if isinstance(q, SeqC) and len(q.items) == 2:
            a, b = q.items
            ka, kb = keyof(st, a), keyof(st, b)
            c = self.compare(st, ast.Lt() if not d else ast.Gt(), kb, ka, n)
            return SeqC('list', [ite(c, b, a), ite(c, a, b)])
        q = to_seq(q)
        self.path.append(('sort',) + pos(n))
        try:
            sg = self.ufun('sigma', [INT], INT)
            ta = self.ufun('tau', [INT], INT)
            x = fresh_int('so')
            i, j = z3.Int('si~%d' % self.pathid()), z3.Int('sj~%d' % self.pathid())
            N = q.n
            # keys must be comparable numbers
            self.ks.append(i)
            self.S.mark()
            self.sinks.append([])
            try:
                s2 = st.copy()
                s2.add(And(i >= 0, i < N))
                kv = keyof(s2, seq_get(q, i))
                if isinstance(kv, Union):
                    alts = self.feasible_alts(s2, kv)
                    bad = Or(*[g for g, w in alts if not (isinstance(w, Scal) and w.e.sort() != Gene)])
                    good = [(g, w) for g, w in alts if isinstance(w, Scal)]
                    kv = mk_union(good) if good else None
                else:
                    bad = F if isinstance(kv, Scal) else T
            finally:
                fs = self.S.rollback()
                self.ks.pop()
                rs = self.sinks.pop()
            for f in fs:
                self.S.facts.append(Fact(f.vars + (i,), f.guard, f.body, f.pats))
            if rs:
                raise Unsupported('sort key may raise')
            if not is_false(simp(bad)):
                w = self.sym('badkey', INT)
                anybad = self.forall(st, N, lambda s, jj: Not(sub_e(bad, [(i, jj)])), 'key')
                self.raise_if(st, And(N > 1, Not(anybad)), TypeError, n)
            if kv is None:
                raise Unsupported('sort key')
            ke = self.arith(kv)
            g = And(*st.pc)
            A = self.S.facts.append
            A(Fact((i,), And(g, i >= 0, i < N), And(sg(i) >= 0, sg(i) < N, ta(sg(i)) == i), pats=[sg(i)]))
            A(Fact((i,), And(g, i >= 0, i < N), And(ta(i) >= 0, ta(i) < N, sg(ta(i)) == i), pats=[ta(i)]))
            k1 = sub_e(ke, [(i, sg(i))])
            k2 = sub_e(ke, [(i, sg(j))])
            A(Fact((i, j), And(g, i >= 0, i < j, j < N), (k1 >= k2) if d else (k1 <= k2), pats=[(sg(i), sg(j))]))
            A(Fact((i, j), And(g, i >= 0, i < j, j < N, k1 == k2), sg(i) < sg(j), pats=[(sg(i), sg(j))]))
            self.inverse[sg(i).decl().name()] = ta
            self.sigmas.append(sg)
            r = Seq('list', N, x, subst(q.body, [(q.x, sg(x))]), None, None, ('perm', sg, ta))
            return r
        finally:
            self.path.pop()

    # ---------------------------------------------------------------- dict methods
    def m_dict_keys(self, st, b, args, kw, n):
        return DictView(b, 'keys')

    def m_dict_values(self, st, b, args, kw, n):
        return DictView(b, 'values')

    def m_dict_items(self, st, b, args, kw, n):
        return DictView(b, 'items')

    def m_dict_get(self, st, b, args, kw, n):
        d = args[1] if len(args) > 1 else NONE

        def f(s, k):
            if isinstance(k, OtherStr):
                return d
            cs = self.key_cases(s, b, k)
            if cs is not None:
                return mk_union(cs + [(Not(Or(*[g for g, _ in cs])), d)])
            v = self.rd(s, b, self.key_of(k))
            if v is MISS:
                return d
            if isinstance(v, Union):
                return mk_union([(g, d if w is MISS else w) for g, w in v.alts])
            return v
        return self.split(st, args[0], f)

    def m_dict_copy(self, st, b, args, kw, n):
        r = self.alloc(st, 'dict', n, 'copy')
        for k in list(b.fam.keys):
            self.put(st, r, k, self.rd(st, b, k))
        return r

    def m_dict_update(self, st, b, args, kw, n):
        for a in args:
            for k in list(a.fam.keys):
                v = self.rd(st, a, k)
                if v is MISS:
                    continue
                if not is_false(self.is_miss(v)):
                    raise Unsupported('update with optional key')
                self.put(st, b, k, v)
        for k, v in kw.items():
            self.put(st, b, k, v)
        return NONE

    def m_dict_pop(self, st, b, args, kw, n):
        k = self.key_of(args[0])
        v = self.rd(st, b, k)
        if len(args) < 2:
            self.raise_if(st, self.is_miss(v), KeyError, n)
        elif v is MISS:
            return args[1]
        self.put(st, b, k, MISS)
        return v

    def m_dict_setdefault(self, st, b, args, kw, n):
        k = self.key_of(args[0])
        v = self.rd(st, b, k)
        if v is MISS:
            self.put(st, b, k, args[1])
            return args[1]
        if is_false(self.is_miss(v)):
            return v
        raise Unsupported('setdefault')

    # ---------------------------------------------------------------- str methods
    def m_str_join(self, st, b, args, kw, n):
        if isinstance(args[0], Union):
            return self.split(st, args[0], lambda s, v: self.m_str_join(s, b, [v], kw, n))
        q = self.as_seq(st, args[0])
        if not (isinstance(b, Str) and b.s == ''):
            return OtherStr('join')
        if isinstance(q, SeqC) and all(isinstance(i, Str) for i in q.items):
            return Str(''.join(i.s for i in q.items))
        if isinstance(q, SeqC):
            r = SeqC('str', [])
            for it in q.items:
                r = self.concat(st, r, self.as_seq(st, it) if not (isinstance(it, Scal) and it.e.sort() == Gene) else SeqC('str', [it]), 'str')
            return r
        el = seq_get(q, fresh_int('jn'))
        if isinstance(el, Scal) and el.e.sort() == Gene:
            return self.rekind(q, 'str')
        return self.call(st, Py(pylib.join), [args[0]], {}, n)

    def m_str_zfill(self, st, b, args, kw, n):
        w = self.arith(args[0])
        q = self.as_seq(st, b)
        ln = seq_len(q)
        pad = self.pos_part(st, w - ln)
        return self.concat(st, Seq('str', pad, fresh_int('z'), Str('0')), q, 'str')

    def m_str_rjust(self, st, b, args, kw, n):
        w = self.arith(args[0])
        q = self.as_seq(st, b)
        pad = self.pos_part(st, w - seq_len(q))
        return self.concat(st, Seq('str', pad, fresh_int('z'), args[1]), q, 'str')

    def m_str_format(self, st, b, args, kw, n):
        return OtherStr('format')

    m_str_lower = m_str_upper = m_str_strip = None

    # ---------------------------------------------------------------- builtins
    def b_len(self, st, args, kw, n):
        def f(s, v):
            if isinstance(v, Scal) or v is NONE:
                self.do_raise(s, TypeError, n)
            if isinstance(v, Str):
                return Scal(num(len(v.s)))
            if isinstance(v, SetV):
                return Scal(self.set_size(s, v.seq, n))
            if isinstance(v, Ref) and v.fam.kind == 'set':
                return Scal(self.set_size(s, self.content(s, v), n))
            if isinstance(v, Ref) and v.fam.kind == 'dict':
                ks = v.fam.keys
                return Scal(simp(sum([If(self.is_miss(self.rd(s, v, k)), num(0), num(1)) for k in ks], num(0))))
            if isinstance(v, MapV):
                return Scal(v.n)
            if isinstance(v, (Seq, SeqC)) and v.kind == 'gen':
                self.do_raise(s, TypeError, n)
            if isinstance(v, (AnyV, Hole)):
                raise Unsupported('len of %r' % (v,))
            if isinstance(v, Ref) and v.fam.kind == 'obj' and self.rd(s, v, '@') is MISS:
                self.do_raise(s, TypeError, n)
            return Scal(seq_len(self.as_seq(s, v)))
        return self.split(st, args[0], f)

    def set_size(self, st, q, n):
        ln = seq_len(q)
        r = self.sym('card', INT, n)
        self.assume(st, And(r >= 0, r <= ln, Implies(ln > 0, r >= 1)))
        return r

    def b_range(self, st, args, kw, n):
        def f(s, vs):
            es = []
            for v in vs:
                if not isinstance(v, Scal) or v.e.sort() != INT:
                    if isinstance(v, (Hole, AnyV)):
                        raise Unsupported('range of %r' % (v,))
                    self.do_raise(s, TypeError, n)
                es.append(simp(v.e))
            lo, step = num(0), num(1)
            if len(es) == 1:
                hi = es[0]
            elif len(es) == 2:
                lo, hi = es
            else:
                lo, hi, step = es
            self.raise_if(s, step == 0, ValueError, n)
            x = fresh_int('r')
            if step.eq(num(1)):
                m = self.pos_part(s, simp(hi - lo))
            elif self.prove(s, step > 0):
                m = simp(If(hi > lo, (hi - lo + step - 1) / step, num(0)))
            elif self.prove(s, step < 0):
                m = simp(If(hi < lo, (lo - hi - step - 1) / (-step), num(0)))
            else:
                raise Unsupported('range step')
            l = lit(m)
            if l is not None and l <= 8:
                return SeqC('range', [Scal(simp(lo + i * step)) for i in range(l)])
            return Seq('range', m, x, Scal(simp(lo + x * step)), None, None, ('range', lo, step))
        return self.splitn(st, list(args), f)

    def splitn(self, st, vals, f, acc=()):
        if len(acc) == len(vals):
            return f(st, list(acc))
        return self.split(st, vals[len(acc)], lambda s, v: self.splitn(s, vals, f, acc + (v,)))

    def b_enumerate(self, st, args, kw, n):
        start = self.arith(args[1]) if len(args) > 1 else (self.arith(kw['start']) if 'start' in kw else num(0))
        if isinstance(args[0], Union):
            return self.split(st, args[0], lambda s, v: self.b_enumerate(s, [v] + list(args[1:]), kw, n))
        it = self.iter_of(st, args[0], n)
        if isinstance(it, SeqC):
            return SeqC('gen', [SeqC('tuple', [Scal(simp(start + i)), v]) for i, v in enumerate(it.items)])
        return ItV(it.n, lambda e, s, k: SeqC('tuple', [Scal(simp(start + k)), it.get(e, s, k)]), it.watch)

    def b_zip(self, st, args, kw, n):
        if any(isinstance(a, Union) for a in args):
            return self.splitn(st, list(args), lambda s, vs: self.b_zip(s, vs, kw, n))
        its = [self.iter_of(st, a, n) for a in args]
        if all(isinstance(i, SeqC) for i in its):
            return SeqC('gen', [SeqC('tuple', list(t)) for t in zip(*[i.items for i in its])])
        its = [i if isinstance(i, ItV) else self.lazy(i) for i in its]
        m = its[0].n
        for i in its[1:]:
            if self.prove(st, i.n == m):
                continue
            m = simp(If(i.n < m, i.n, m))
        return ItV(m, lambda e, s, k: SeqC('tuple', [i.get(e, s, k) for i in its]), sum([list(i.watch) for i in its], []))

    def lazy(self, q):
        return ItV(seq_len(q), lambda e, s, k: prune(seq_get(q, k)))

    def b_reversed(self, st, args, kw, n):
        q = self.as_seq(st, args[0])
        r = self.reverse(q)
        return self.rekind(r, 'gen')

    def b_list(self, st, args, kw, n):
        r = self.alloc(st, 'list', n, 'list')
        if args:
            def f(s, v):
                if isinstance(v, Scal) or v is NONE:
                    self.do_raise(s, TypeError, n)
                if isinstance(v, AnyV):
                    raise Unsupported('list of user value')
                q = self.as_seq(s, v)
                cid = q.cid
                q = self.rekind(q, 'list')
                self.put(s, r, '@', q)
                return NONE
            self.split(st, args[0], f)
        return r

    def b_tuple(self, st, args, kw, n):
        if not args:
            return SeqC('tuple', [])
        return self.split(st, args[0], lambda s, v: self.rekind(self.as_seq(s, v), 'tuple'))

    def b_set(self, st, args, kw, n):
        if not args:
            return self.alloc(st, 'set', n, 'set')
        return SetV(self.as_seq(st, args[0]))

    def b_dict(self, st, args, kw, n):
        r = self.alloc(st, 'dict', n, 'dict')
        for a in args:
            if isinstance(a, Ref) and a.fam.kind == 'dict':
                for k in list(a.fam.keys):
                    self.put(st, r, k, self.rd(st, a, k))
            else:
                q = self.as_seq(st, a)
                if not isinstance(q, SeqC):
                    raise Unsupported('dict of symbolic sequence')
                for it in q.items:
                    p = self.as_seq(st, it)
                    self.put(st, r, self.key_of(p.items[0]), p.items[1])
        for k, v in kw.items():
            self.put(st, r, k, v)
        return r

    def b_fromkeys(self, st, args, kw, n):
        d = args[1] if len(args) > 1 else NONE
        src = args[0]
        if isinstance(src, DictView):
            src = src.ref
        r = self.alloc(st, 'dict', n, 'fromkeys')
        if isinstance(src, Ref) and src.fam.kind == 'dict':
            for k in list(src.fam.keys):
                m = self.is_miss(self.rd(st, src, k))
                self.put(st, r, k, ite(m, MISS, d))
            return r
        q = self.as_seq(st, src)
        if not isinstance(q, SeqC):
            raise Unsupported('fromkeys')
        for it in q.items:
            self.put(st, r, self.key_of(it), d)
        return r

    def b_abs(self, st, args, kw, n):
        def f(s, v):
            if not isinstance(v, Scal) or v.e.sort() == Gene:
                if isinstance(v, (Hole, AnyV)):
                    raise Unsupported('abs')
                self.do_raise(s, TypeError, n)
            e = self.arith(v)
            if self.prove(s, e >= 0):
                return Scal(e)
            return Scal(If(e >= 0, e, -e))
        return self.split(st, args[0], f)

    def b_int(self, st, args, kw, n):
        if len(args) + len(kw) == 2:
            return bits.b_int2(self, st, args, kw, n)

        def f(s, v):
            if isinstance(v, Scal) and v.e.sort() == REAL:
                e = v.e
                if z3.is_to_real(e):
                    return Scal(e.arg(0))
                if self.prove(s, e >= 0):
                    r = z3.ToInt(e)
                else:
                    r = If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
                return Scal(r)
            if isinstance(v, Scal) and v.e.sort() == INT:
                return v
            if isinstance(v, Scal) and v.e.sort() == BOOL:
                return Scal(self.arith(v))
            if v is NONE:
                self.do_raise(s, TypeError, n)
            raise Unsupported('int(%r)' % (v,))
        return self.split(st, args[0], f)

    def b_float(self, st, args, kw, n):
        def f(s, v):
            e = self.arith(v)
            return Scal(z3.ToReal(e) if e.sort() == INT else e)
        return self.split(st, args[0], f)

    def b_bool(self, st, args, kw, n):
        return Scal(self.truth(st, args[0]))

    def b_str(self, st, args, kw, n):
        if isinstance(args[0], Str):
            return args[0]
        return OtherStr('str')

    def b_round(self, st, args, kw, n):
        if len(args) != 1:
            raise Unsupported('round with digits')
        e = self.arith(args[0])
        if e.sort() == INT:
            return Scal(e)
        r = self.sym('round', INT, n)
        rr = z3.ToReal(r)
        self.assume(st, And(2 * (e - rr) <= 1, 2 * (rr - e) <= 1))
        return Scal(r)

    def b_print(self, st, args, kw, n):
        return NONE

    def b_isinstance(self, st, args, kw, n):
        t = args[1]
        ts = tuple(x.o for x in (t.items if isinstance(t, SeqC) else [t]))

        def f(s, v):
            return Scal(self.has_type(v, ts))
        return self.split(st, args[0], f)

    def pytype(self, v):
        if isinstance(v, Scal):
            return {INT: int, REAL: float, BOOL: bool}.get(v.e.sort()) or self.unsup('type of a gene')
        if isinstance(v, (Str, OtherStr)):
            return str
        if v is NONE:
            return type(None)
        if isinstance(v, (Seq, SeqC)):
            return {'tuple': tuple, 'str': str, 'list': list, 'range': range}.get(v.kind, types.GeneratorType)
        if isinstance(v, Ref):
            return {'list': list, 'dict': dict, 'set': set}.get(v.fam.kind) or v.fam.cls
        if isinstance(v, (SetV,)):
            return set
        if isinstance(v, MapV):
            return dict
        if isinstance(v, Py):
            return type(v.o)
        if isinstance(v, AnyV):
            return getattr(self, 'any_types', {}).get(v.tag) or self.unsup('type of user value')
        if isinstance(v, (Lam, Opq)):
            return types.FunctionType
        self.unsup('type of %r' % (v,))

    def unsup(self, m):
        raise Unsupported(m)

    def has_type(self, v, ts):
        return z3.BoolVal(issubclass(self.pytype(v), ts))

    def b_type(self, st, args, kw, n):
        if len(args) != 1:
            raise Unsupported('type()')
        return self.split(st, args[0], lambda s, v: Py(self.pytype(v)))

    def b_issubclass(self, st, args, kw, n):
        t = args[1]
        ts = tuple(x.o for x in (t.items if isinstance(t, SeqC) else [t]))
        return Scal(z3.BoolVal(issubclass(args[0].o, ts)))

    def b_sum(self, st, args, kw, n):
        start = args[1] if len(args) > 1 else kw.get('start', Scal(num(0)))
        q = self.as_seq(st, args[0])
        if isinstance(q, SeqC):
            r = start
            for it in q.items:
                r = self.binop(st, ast.Add(), r, it, n)
            return r
        if q.info and q.info[0] == 'range':
            lo, step = q.info[1], q.info[2]
            m = q.n
            s = z3.ToInt(z3.ToReal(m * (m - 1)) / 2)
            s = (m * (m - 1)) / 2
            if self.opaque_div and not z3.is_int_value(simp(m)) and z3.is_int_value(simp(step)) and simp(step).as_long() == 1 and lit(self.arith(start)) == 0:
                return Scal(self.rsum(lo, m))
            return Scal(simp(self.arith(start) + m * lo + step * s))
        x = z3.Int('sum~%d' % self.pathid())
        v = seq_get(q, x)
        if isinstance(v, Union):
            s2 = st.copy()
            s2.add(And(x >= 0, x < q.n))
            a = self.feasible_alts(s2, v)
            if len(a) != 1:
                bad = Or(*[g for g, w in a if not isinstance(w, Scal)])
                if not is_false(bad):
                    allok = self.forall(st, q.n, lambda s, j: Not(sub_e(bad, [(x, j)])), 'sumok')
                    self.raise_if(st, Not(allok), TypeError, n)
                v = mk_union([(g, w) for g, w in a if isinstance(w, Scal)])
            else:
                v = a[0][1]
        e = self.arith(v)
        s = self.summation(st, e, x, q.n)
        a, b = self.coerce(self.arith(start), s)
        return Scal(simp(a + b))

    def summation(self, st, e, x, n):
        """sum of e over 0 <= x < n as an application of a canonical function of (loop indices of e, n)"""
        e = simp(e)
        if x.get_id() not in consts_in(e):
            if e.sort() == REAL:
                return simp(e * z3.ToReal(n))
            return simp(e * n)
        # constant factors: division by a term without x
        if z3.is_app_of(e, z3.Z3_OP_DIV) and x.get_id() not in consts_in(e.arg(1)):
            return self.summation(st, e.arg(0), x, n) / e.arg(1)
        if z3.is_app(e) and e.decl().eq(self.rdiv) and x.get_id() not in consts_in(e.arg(1)):
            return self.divide(self.summation(st, e.arg(0), x, n), e.arg(1))
        used = consts_in(e)
        ks = [k for k in self.ks if k.get_id() in used and not k.eq(x)]
        cx = z3.Int('Σx')
        pairs = [(x, cx)] + [(k, z3.Int('Σk%d' % i)) for i, k in enumerate(ks)]
        c = simp(sub_e(e, pairs))
        key = canon(c)
        if key not in self.sums:
            self.sums[key] = z3.Function('Sum~%d' % len(self.sums), *([INT] * (len(ks) + 1) + [e.sort()]))
        d = self.sums[key]
        ap = lambda m: d(*(ks + [m]))
        A = self.S.facts.append
        A(Fact((), T, ap(num(0)) == 0))
        a, b = z3.Int('Sa~%d' % self.pathid()), z3.Int('Sb~%d' % self.pathid())
        s2 = st.copy()
        s2.add(And(x >= 0, x < n))
        g = And(*st.pc)
        if self.prove(s2, e > 0):
            A(Fact((a, b), And(g, a >= 0, a < b, b <= n), ap(a) < ap(b), pats=[(ap(a), ap(b))]))
            if ks:
                A(Fact((a,), And(g, a > 0, a <= n), ap(a) > 0, pats=[ap(a)]))
        elif self.prove(s2, e >= 0):
            A(Fact((a, b), And(g, a >= 0, a < b, b <= n), ap(a) <= ap(b), pats=[(ap(a), ap(b))]))
            if e.sort() == INT and self.prove(s2, e <= 1):
                A(Fact((a,), And(g, a >= 0, a <= n), And(ap(a) >= 0, ap(a) <= a), pats=[ap(a)]))
        A(Fact((a, b), b == a + 1, Implies(And(a >= 0), ap(b) == ap(a) + sub_e(e, [(x, a)])), pats=[(ap(a), ap(b))]))
        return ap(n)

    def b_any(self, st, args, kw, n):
        return self.anyall(st, args[0], n, False)

    def b_all(self, st, args, kw, n):
        return self.anyall(st, args[0], n, True)

    def anyall(self, st, v, n, isall):
        q = self.as_seq(st, v)
        if isinstance(q, SeqC):
            cs = [self.truth(st, i) for i in q.items]
            return Scal(And(*cs) if isall else Or(*cs))
        self.path.append(('anyall',) + pos(n))
        try:
            if isall:
                return Scal(self.forall(st, q.n, lambda s, j: self.truth(s, seq_get(q, j)), 'all'))
            return Scal(self.exists(st, q.n, lambda s, j: self.truth(s, seq_get(q, j)), 'any'))
        finally:
            self.path.pop()

    def b_min(self, st, args, kw, n):
        return self.minmax(st, args, kw, n, False)

    def b_max(self, st, args, kw, n):
        return self.minmax(st, args, kw, n, True)

    def minmax(self, st, args, kw, n, ismax):
        key = kw.get('key', NONE)
        keyof = lambda s, v: v if key is NONE else self.call(s, key, [v], {}, n)
        if len(args) > 1:
            q = SeqC('tuple', list(args))
        else:
            q = self.as_seq(st, args[0])
        if isinstance(q, SeqC):
            if not q.items:
                if 'default' in kw:
                    return kw['default']
                self.do_raise(st, ValueError, n)
            best = q.items[0]
            for it in q.items[1:]:
                kb, ki = keyof(st, best), keyof(st, it)
                c = self.compare(st, ast.Gt() if ismax else ast.Lt(), ki, kb, n)
                best = ite(c, it, best)
            return best
        self.raise_if(st, q.n <= 0, ValueError, n)
        self.path.append(('minmax',) + pos(n))
        try:
            i = self.sym('arg', INT)
            j = z3.Int('mj~%d' % self.pathid())
            # generic key
            self.ks.append(j)
            self.S.mark()
            self.sinks.append([])
            try:
                s2 = st.copy()
                s2.add(And(j >= 0, j < q.n))
                kj = keyof(s2, prune(seq_get(q, j)))
                if isinstance(kj, Union):
                    a = self.feasible_alts(s2, kj)
                    if len(a) != 1:
                        raise Unsupported('key kinds')
                    kj = a[0][1]
            finally:
                fs = self.S.rollback()
                self.ks.pop()
                rs = self.sinks.pop()
            for f in fs:
                self.S.facts.append(Fact(f.vars + (j,), f.guard, f.body, f.pats))
            if rs:
                raise Unsupported('key may raise')
            e = self.arith(kj)
            ei = sub_e(e, [(j, i)])
            self.assume(st, And(i >= 0, i < q.n))
            best = (ei >= e) if ismax else (ei <= e)
            strict = (ei > e) if ismax else (ei < e)
            self.assume(st, Implies(And(j >= 0, j < q.n), best), vars=(j,))
            self.assume(st, Implies(And(j >= 0, j < i), strict), vars=(j,))
            # useful instances: neighbours of the chosen position
            for d in (-1, 1):
                jj = i + d
                self.assume(st, Implies(And(jj >= 0, jj < q.n), sub_e(best, [(j, jj)])))
            return prune(seq_get(q, i))
        finally:
            self.path.pop()

    def b_sorted(self, st, args, kw, n):
        q = self.sorted_seq(st, self.as_seq(st, args[0]), kw.get('key', NONE), kw.get('reverse', Scal(F)), n)
        r = self.alloc(st, 'list', n, 'sorted')
        self.put(st, r, '@', self.rekind(q, 'list'))
        return r

    def b_filter(self, st, args, kw, n):
        return self.pymap(st, args[1], n, lambda s, v: v,
                          lambda s, v: self.truth(s, v if args[0] is NONE else self.call(s, args[0], [v], {}, n)))

    def b_map(self, st, args, kw, n):
        if len(args) != 2:
            raise Unsupported('map')
        return self.pymap(st, args[1], n, lambda s, v: self.call(s, args[0], [v], {}, n), None)

    def pymap(self, st, itv, n, fn, cond):
        fr = st.frames[-1]
        st.frames.append(Frame({'$acc': SeqC('list', [])}, fr.fn, fr.cls, fr.globals, len(st.frames) - 1))
        self.path.append(('map',) + pos(n))
        try:
            def body(s, elem):
                def app(s2):
                    v = fn(s2, elem)
                    s2.frames[-1].vars['$acc'] = self.concat(s2, s2.frames[-1].vars['$acc'], SeqC('list', [v]), 'list')
                    return NONE
                if cond is None:
                    app(s)
                else:
                    self.branch_value(s, cond(s, elem), app, lambda s2: NONE)
                return [('next', s, None)]
            outs = self.iterate(st, itv, n, body)
            st.become(merge([s for kd, s, _ in outs]))
        finally:
            self.path.pop()
        r = st.frames[-1].vars['$acc']
        st.frames.pop()
        return self.rekind(r, 'gen')

    def b_hasattr(self, st, args, kw, n):
        o = args[0]
        if isinstance(o, Ref) and o.fam.kind == 'obj' and isinstance(args[1], Str):
            v = self.rd(st, self.attr_fam(st, o), args[1].s)
            if hasattr(o.fam.cls, args[1].s):
                return Scal(T)
            return Scal(Not(self.is_miss(v)))
        if isinstance(o, Union):
            return self.split(st, o, lambda s, w: self.b_hasattr(s, [w] + list(args[1:]), kw, n))
        t = self.b_type(st, [o], {}, n) if isinstance(args[1], Str) else None
        if isinstance(t, Py) and isinstance(t.o, type):
            return Scal(z3.BoolVal(hasattr(t.o, args[1].s)))
        raise Unsupported('hasattr')

    def b_getattr(self, st, args, kw, n):
        if isinstance(args[1], Str):
            return self.getattr(st, args[0], args[1].s, n)
        raise Unsupported('getattr')

    def b_setattr(self, st, args, kw, n):
        if isinstance(args[1], Str):
            self.setattr(st, args[0], args[1].s, args[2], n)
            return NONE
        raise Unsupported('setattr')

    def b_callable(self, st, args, kw, n):
        return Scal(z3.BoolVal(isinstance(args[0], (Lam, Opq, Py, Bound))))

    def b_id(self, st, args, kw, n):
        raise Unsupported('id')

    def b_warn(self, st, args, kw, n):
        return NONE

    def b_bin(self, st, args, kw, n):
        return bits.b_bin(self, st, args, kw, n)

    def b_format(self, st, args, kw, n):
        return self.formatted(st, args[0], args[1] if len(args) > 1 else Str(''))

    def formatted(self, st, v, spec):
        """binary notation with and without zero padding; any other text is not looked at"""
        parts = spec.parts if isinstance(spec, FStr) else [spec]
        if parts and isinstance(parts[-1], Str) and parts[-1].s.endswith('b'):
            q = bits.digits(self, st, self.arith(v))
            if len(parts) == 1 and parts[0].s == 'b':
                return q
            if len(parts) == 1 and parts[0].s[0] == '0' and parts[0].s[1:-1].isdigit():
                w = num(int(parts[0].s[1:-1]))
            elif len(parts) == 3 and isinstance(parts[0], Str) and parts[0].s == '0' and parts[2].s == 'b' and isinstance(parts[1], Scal):
                w = self.arith(parts[1])
            else:
                raise Unsupported('format')
            pad = self.pos_part(st, w - seq_len(q))
            return self.concat(st, Seq('str', pad, fresh_int('z'), Str('0')), q, 'str')
        return OtherStr('format')

    def b_floor(self, st, args, kw, n):
        e = self.arith(args[0])
        return Scal(z3.ToInt(e) if e.sort() == REAL else e)

    def b_ceil(self, st, args, kw, n):
        e = self.arith(args[0])
        return Scal(-z3.ToInt(-e) if e.sort() == REAL else e)

    def b_pow(self, st, args, kw, n):
        return self.binop(st, ast.Pow(), args[0], args[1], n)

    # ---------------------------------------------------------------- copy
    def b_deepcopy(self, st, args, kw, n):
        return self.deep(st, args[0], n, '')

    def b_copy(self, st, args, kw, n):
        def f(s, v):
            if isinstance(v, Ref) and v.fam.kind == 'dict':
                return self.m_dict_copy(s, v, [], {}, n)
            if isinstance(v, Ref) and v.fam.kind == 'list':
                return self.m_list_copy(s, v, [], {}, n)
            if isinstance(v, Ref):
                raise Unsupported('copy of an object')
            return v
        return self.split(st, args[0], f)

    def deep(self, st, v, n, tag):
        def f(s, w):
            if isinstance(w, Ref):
                if w.fam.kind == 'dict':
                    r = self.alloc(s, 'dict', n, 'deep%s/%d' % (tag, w.fam.id))
                    for k in list(w.fam.keys):
                        x = self.rd(s, w, k)
                        if x is not MISS:
                            self.put(s, r, k, self.deep_val(s, x, n, '%s.%s' % (tag, k)))
                    return r
                if w.fam.kind == 'list':
                    r = self.alloc(s, 'list', n, 'deep%s/%d' % (tag, w.fam.id))
                    q = self.as_seq(s, w)
                    self.put(s, r, '@', self.deep_seq(s, q, n, tag + '[]'))
                    return r
                raise Unsupported('deepcopy of object')
            if isinstance(w, (SeqC, Seq)):
                return self.deep_seq(s, w, n, tag + '()')
            return w
        return self.split(st, v, f)

    def deep_val(self, st, v, n, tag):
        if isinstance(v, Union):
            return mk_union([(g, w if w is MISS else self.deep_val(st, w, n, tag)) for g, w in v.alts])
        return self.deep(st, v, n, tag)

    def deep_seq(self, st, q, n, tag):
        if isinstance(q, SeqC):
            return SeqC(q.kind, [self.deep(st, it, n, tag + str(i)) for i, it in enumerate(q.items)], q.cid)
        b = q.body
        if self.immut(b):
            return Seq(q.kind, q.n, q.x, q.body, q.cid, None, None)
        # elements are objects: copy element x into a family indexed by (ks, x)
        return self.pymap_deep(st, q, n, tag)

    def immut(self, v):
        if isinstance(v, Union):
            return all(self.immut(w) for g, w in v.alts)
        if isinstance(v, SeqC):
            return v.kind != 'list' and all(self.immut(w) for w in v.items)
        if isinstance(v, Seq):
            return self.immut(v.body)
        return not isinstance(v, (Ref, Hole))

    def pymap_deep(self, st, q, n, tag):
        r = self.pymap(st, q, n, lambda s, v: self.deep(s, v, n, tag), None)
        return self.rekind(r, q.kind)

    # ---------------------------------------------------------------- random
    def draw(self, st, n, name):
        self.once(st, ('draw', name, tuple(self.path), pos(n)))
        h = self.opaque.get('on_draw')
        if h is not None:
            h(self, st, name, n)

    def variant(self, name, n, *terms):
        """number of this draw among those made at one program point from differently computed ranges: every range gets its own
        symbol, so what is known of a draw depends on its range only, not on how the program point was reached"""
        seen = self.variants.setdefault((tuple(self.path), name, pos(n)), [])
        terms = [simp(t) for t in terms]
        for i, old in enumerate(seen):
            if all(a.eq(b) for a, b in zip(old, terms)):
                return (i,) if i else ()
        seen.append(terms)
        return (len(seen) - 1,) if len(seen) > 1 else ()

    def r_randint(self, st, args, kw, n):
        a, b = (args + [kw.get('a'), kw.get('b')])[:2] if len(args) < 2 else args
        a, b = self.arith(a), self.arith(b)
        self.draw(st, n, 'randint')
        if a.sort() != INT or b.sort() != INT:
            raise Unsupported('randint of non integers')
        self.raise_if(st, a > b, ValueError, n, 'empty range for randint')
        r = self.sym('rnd', INT, n, self.variant('rnd', n, a, b))
        self.draws[r.decl().name()] = ('int', r, a, b)
        self.assume(st, And(r >= a, r <= b), guard=a <= b)
        return Scal(r)

    def r_randrange(self, st, args, kw, n):
        rg = self.b_range(st, args, kw, n)
        self.draw(st, n, 'randrange')
        ln = seq_len(rg)
        self.raise_if(st, ln <= 0, ValueError, n, 'empty range for randrange')
        t = self.sym('rnr', INT, n, self.variant('rnr', n, ln))
        self.draws[t.decl().name()] = ('int', t, num(0), ln - 1)
        self.assume(st, And(t >= 0, t < ln), guard=ln >= 1)
        v = prune(seq_get(rg, t))
        return v

    def r_random(self, st, args, kw, n):
        self.draw(st, n, 'random')
        r = self.sym('rndu', REAL, n)
        self.draws[r.decl().name()] = ('unit', r, None, None)
        self.assume(st, And(r >= 0, r < 1), guard=T)
        return Scal(r)

    def r_uniform(self, st, args, kw, n):
        self.draw(st, n, 'uniform')
        a, b = self.arith(args[0]), self.arith(args[1])
        r = self.sym('rndf', REAL, n)
        a, _ = self.coerce(a, r)
        b, _ = self.coerce(b, r)
        self.assume(st, Or(And(a <= r, r <= b), And(b <= r, r <= a)))
        return Scal(r)

    def r_choice(self, st, args, kw, n):
        q = self.as_seq(st, args[0])
        self.draw(st, n, 'choice')
        ln = seq_len(q)
        self.raise_if(st, ln <= 0, IndexError, n, 'choice from an empty sequence')
        i = self.sym('chc', INT, n, self.variant('chc', n, ln))
        self.assume(st, And(i >= 0, i < ln), guard=ln >= 1)
        return prune(seq_get(q, i))

    def r_sample(self, st, args, kw, n):
        pop = args[0]
        k = args[1] if len(args) > 1 else kw['k']
        if isinstance(pop, (SetV, DictView)):
            self.do_raise(st, TypeError, n)
        q = self.as_seq(st, pop)
        self.draw(st, n, 'sample')
        m = self.arith(k)
        ln = seq_len(q)
        self.raise_if(st, Or(m < 0, m > ln), ValueError, n, 'sample larger than population')
        r = self.alloc(st, 'list', n, 'sample')
        c = lit(m)
        self.path.append(('sample',) + pos(n) + self.variant('smp', n, m, ln))
        try:
            if c is not None and c <= 4:
                ids = [self.sym('smp%d' % i, INT) for i in range(c)]
                ok = ln >= c
                for i in ids:
                    self.assume(st, And(i >= 0, i < ln), guard=ok)
                for i in range(c):
                    for j in range(i):
                        self.assume(st, ids[i] != ids[j], guard=ok)
                self.put(st, r, '@', SeqC('list', [prune(seq_get(q, i)) for i in ids]))
            else:
                f = self.ufun('smp', [INT], INT)
                inv = self.ufun('smpinv', [INT], INT)
                j = z3.Int('smj~%d' % self.pathid())
                self.assume(st, Implies(And(j >= 0, j < m), And(f(j) >= 0, f(j) < ln, inv(f(j)) == j)), vars=(j,), pats=[f(j)], guard=And(m >= 0, m <= ln))
                self.inverse[f(j).decl().name()] = inv
                x = fresh_int('sm')
                self.put(st, r, '@', Seq('list', m, x, subst(to_seq(q).body, [(to_seq(q).x, f(x))]) if isinstance(q, Seq) else seq_get(q, f(x)), None, None, ('sample', f, inv)))
        finally:
            self.path.pop()
        return r

    def r_choices(self, st, args, kw, n):
        raise Unsupported('choices')

    def r_shuffle(self, st, args, kw, n):
        b = args[0]
        q = self.as_seq(st, b)
        self.draw(st, n, 'shuffle')
        q = to_seq(q)
        self.path.append(('shuffle',) + pos(n))
        try:
            sg = self.ufun('shuf', [INT], INT)
            ta = self.ufun('shufinv', [INT], INT)
            i = z3.Int('sh~%d' % self.pathid())
            self.assume(st, Implies(And(i >= 0, i < q.n), And(sg(i) >= 0, sg(i) < q.n, ta(sg(i)) == i)), vars=(i,), pats=[sg(i)])
            self.assume(st, Implies(And(i >= 0, i < q.n), And(ta(i) >= 0, ta(i) < q.n, sg(ta(i)) == i)), vars=(i,), pats=[ta(i)])
            x = fresh_int('sx')
            self.inverse[sg(i).decl().name()] = ta
            self.put(st, b, '@', Seq('list', q.n, x, subst(q.body, [(q.x, sg(x))])))
        finally:
            self.path.pop()
        return NONE

    def r_seed(self, st, args, kw, n):
        h = self.opaque.get('on_seed')
        if h is not None:
            h(self, st, args, kw, n)
        return NONE

    # ---------------------------------------------------------------- itertools, operator, bisect
    def it_accumulate(self, st, args, kw, n):
        first = kw.get('initial')
        if len(args) != 1 or set(kw) - {'initial'}:
            raise Unsupported('accumulate with a function')
        r = self.call(st, Py(pylib.accumulate), [args[0], first if first is not None and first is not NONE else Scal(num(0))], {}, n)
        if first is None or first is NONE:
            return r
        return self.concat(st, SeqC('list', [first]), self.as_seq(st, r), 'list')

    def it_takewhile(self, st, args, kw, n):
        return self.call(st, Py(pylib.takewhile), list(args), kw, n)

    def it_chain(self, st, args, kw, n):
        r = SeqC('list', [])
        for a in args:
            r = self.concat(st, r, self.as_seq(st, a), 'list')
        return r

    def fp_reduce(self, st, args, kw, n):
        if len(args) != 3:
            raise Unsupported('reduce without an initial value')
        return self.call(st, Py(pylib.reduce), list(args), kw, n)

    def op_itemgetter(self, st, args, kw, n):
        if len(args) != 1:
            raise Unsupported('itemgetter of several items')
        key = args[0]
        return Opq('itemgetter', lambda e, s, a, k, nn: e.getitem(s, a[0], key, nn))

    def bisect(self, st, args, kw, n, fn):
        if len(args) != 2 or kw:
            raise Unsupported('bisect with further arguments')
        q = to_seq(self.as_seq(st, args[0]))
        i, j = fresh_int('bs'), fresh_int('bs')
        s = st.copy()
        for c in (i >= 0, j == i + 1, j < q.n):
            s.add(c)
        if not self.guessing and not self.prove(s, self.arith(seq_get(q, i)) <= self.arith(seq_get(q, j)), RL_MED):
            raise Unsupported('bisect in a list that may not be ascending')
        return self.call(st, Py(fn), list(args), {}, n)

    def bi_right(self, st, args, kw, n):
        return self.bisect(st, args, kw, n, pylib.bisect_right)

    def bi_left(self, st, args, kw, n):
        return self.bisect(st, args, kw, n, pylib.bisect_left)

    def fp_partial(self, st, args, kw, n):
        f0, a0, k0 = args[0], list(args[1:]), dict(kw)
        return Opq('partial', lambda e, s, a, k, nn: e.call(s, f0, a0 + list(a), dict(k0, **k), nn))


LIB = {
    len: 'b_len', range: 'b_range', enumerate: 'b_enumerate', zip: 'b_zip', reversed: 'b_reversed', list: 'b_list',
    tuple: 'b_tuple', set: 'b_set', frozenset: 'b_set', dict: 'b_dict', dict.fromkeys: 'b_fromkeys', abs: 'b_abs', int: 'b_int',
    float: 'b_float', bool: 'b_bool', str: 'b_str', repr: 'b_str', round: 'b_round', print: 'b_print', isinstance: 'b_isinstance',
    type: 'b_type', issubclass: 'b_issubclass', sum: 'b_sum', any: 'b_any', all: 'b_all', min: 'b_min', max: 'b_max',
    sorted: 'b_sorted', filter: 'b_filter', map: 'b_map', hasattr: 'b_hasattr', getattr: 'b_getattr', setattr: 'b_setattr',
    callable: 'b_callable', warnings.warn: 'b_warn', bin: 'b_bin', format: 'b_format', math.floor: 'b_floor', math.ceil: 'b_ceil', pow: 'b_pow',
    copy.deepcopy: 'b_deepcopy', copy.copy: 'b_copy',
    random.randint: 'r_randint', random.randrange: 'r_randrange', random.random: 'r_random', random.uniform: 'r_uniform',
    random.choice: 'r_choice', random.sample: 'r_sample', random.shuffle: 'r_shuffle', random.seed: 'r_seed',
    random.choices: 'r_choices', functools.partial: 'fp_partial', functools.reduce: 'fp_reduce', itertools.accumulate: 'it_accumulate', itertools.takewhile: 'it_takewhile',
    itertools.chain: 'it_chain', operator.itemgetter: 'op_itemgetter', bisect.bisect_right: 'bi_right', bisect.bisect_left: 'bi_left',
}
