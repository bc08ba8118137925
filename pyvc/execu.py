"""Expressions, statements, calls."""
import ast
import inspect
import types
import itertools
import builtins as pybuiltins
import z3
from .values import *
from .core import *
from .engine import Engine, ItV, DictView, ast_of, pos
from .loops import LoopMixin
from .libs import LibMixin


class Exec(LoopMixin, LibMixin, Engine):
    MAXDEPTH = 60

    # ---------------------------------------------------------------- names
    def lookup(self, st, name, node):
        fi = len(st.frames) - 1
        while fi is not None:
            f = st.frames[fi]
            if name in f.vars:
                v = f.vars[name]
                m = self.is_miss(v)
                if is_true(m):
                    self.do_raise(st, UnboundLocalError, node)
                if not is_false(m):
                    self.raise_if(st, m, UnboundLocalError, node)
                    v = mk_union([(g, w) for g, w in v.alts if w is not MISS])
                if isinstance(v, Poison):
                    raise Unsupported('loop-carried variable %s without closed form' % name)
                return v
            fi = f.parent
        g = st.frames[-1].globals
        if name in g:
            return self.lift(st, g[name])
        if hasattr(pybuiltins, name):
            return Py(getattr(pybuiltins, name))
        self.do_raise(st, NameError, node)

    def ev(self, st, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(st, n)

    def e_Constant(self, st, n):
        if n.value is Ellipsis or isinstance(n.value, (bytes, complex)):
            raise Unsupported('constant')
        return self.lift(st, n.value)

    def e_Name(self, st, n):
        return self.lookup(st, n.id, n)

    def e_JoinedStr(self, st, n):
        if len(n.values) == 1 and isinstance(n.values[0], ast.FormattedValue) and n.values[0].format_spec is not None:
            f = n.values[0]
            spec = self.ev(st, f.format_spec)
            if isinstance(spec, FStr) and isinstance(spec.parts[-1], Str) and spec.parts[-1].s.endswith('b'):
                return self.formatted(st, self.ev(st, f.value), spec)
        if n.values and len(n.values) <= 3 and isinstance(n.values[-1], ast.Constant) and str(n.values[-1].value).endswith('b') and \
                all(isinstance(v, ast.Constant) or v.format_spec is None and v.conversion == -1 for v in n.values):
            return FStr([self.ev(st, v) if isinstance(v, ast.Constant) else self.ev(st, v.value) for v in n.values])
        return OtherStr('fstring')

    def e_Tuple(self, st, n):
        return SeqC('tuple', self.items(st, n.elts))

    def items(self, st, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                q = self.as_seq(st, self.ev(st, e.value))
                if not isinstance(q, SeqC):
                    raise Unsupported('star of symbolic sequence')
                out.extend(q.items)
            else:
                out.append(self.ev(st, e))
        return out

    def e_List(self, st, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            c = SeqC('list', [])
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    c = self.concat(st, c, self.as_seq(st, self.ev(st, e.value)), 'list')
                else:
                    c = self.concat(st, c, SeqC('list', [self.ev(st, e)]), 'list')
        else:
            c = SeqC('list', self.items(st, n.elts))
        r = self.alloc(st, 'list', n)
        self.put(st, r, '@', c)
        return r

    def e_Set(self, st, n):
        return SetV(SeqC('tuple', self.items(st, n.elts)))

    def e_Dict(self, st, n):
        vals = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(st, v)
                if not (isinstance(d, Ref) and d.fam.kind == 'dict'):
                    raise Unsupported('** of non dict')
                for kk in list(d.fam.keys):
                    vals.append((kk, self.rd(st, d, kk)))
            else:
                vals.append((self.key_of(self.ev(st, k)), self.ev(st, v)))
        r = self.alloc(st, 'dict', n)
        for k, v in vals:
            self.put(st, r, k, v)
        return r

    def key_cases(self, st, b, v):
        """a symbolic key: (key is k, value at k) for the keys k of the dictionary"""
        if not isinstance(v, Scal) or z3.is_int_value(simp(v.e)) or v.e.sort() == BOOL:
            return None
        ks = self.dkeys(st, b)
        vs = [self.rd(st, b, k) for k in ks]
        if not all(isinstance(k, str) or type(k) is int for k in ks) or any(not is_false(self.is_miss(w)) or isinstance(w, Poison) or w is UNDEF for w in vs):
            return None
        return [(self.eq(st, v, Str(k) if isinstance(k, str) else Scal(num(k))), w) for k, w in zip(ks, vs)]

    def key_of(self, v):
        if isinstance(v, Str):
            return v.s
        if isinstance(v, Scal):
            s = simp(v.e)
            if z3.is_int_value(s):
                return s.as_long()
            if is_true(s) or is_false(s):
                return is_true(s)
        if v is NONE:
            return None
        raise Unsupported('dictionary key %r' % (v,))

    def e_Lambda(self, st, n):
        return Lam(n, len(st.frames) - 1)

    def e_IfExp(self, st, n):
        c = self.truth(st, self.ev(st, n.test))
        return self.branch_value(st, c, lambda s: self.ev(s, n.body), lambda s: self.ev(s, n.orelse))

    def branch_value(self, st, c, f, g):
        d = self.decide(st, c)
        if d is True:
            return f(st)
        if d is False:
            return g(st)
        done = []
        for cond, h in ((c, f), (Not(c), g)):
            s = st.copy()
            s.add(cond)
            try:
                v = h(s)
            except Dead:
                continue
            s.frames[-1].vars['$bv'] = v
            done.append(s)
        if not done:
            raise Dead()
        m = merge(done)
        v = m.frames[-1].vars.pop('$bv')
        st.become(m)
        return v

    def e_BoolOp(self, st, n):
        def go(s, i):
            v = self.ev(s, n.values[i])
            if i == len(n.values) - 1:
                return v
            c = self.truth(s, v)
            if isinstance(n.op, ast.And):
                return self.branch_value(s, c, lambda s2: go(s2, i + 1), lambda s2: self.falsy(v, c))
            return self.branch_value(s, c, lambda s2: self.truthy(v, c), lambda s2: go(s2, i + 1))
        return go(st, 0)

    def falsy(self, v, c):
        return Scal(F) if isinstance(v, Scal) and v.e.sort() == BOOL else v

    def truthy(self, v, c):
        return Scal(T) if isinstance(v, Scal) and v.e.sort() == BOOL else v

    def e_UnaryOp(self, st, n):
        v = self.ev(st, n.operand)
        if isinstance(n.op, ast.Not):
            return Scal(Not(self.truth(st, v)))

        def f(s, w):
            if not isinstance(w, Scal) or w.e.sort() == Gene:
                if isinstance(w, (Hole, AnyV)):
                    raise Unsupported('unary')
                self.do_raise(s, TypeError, n)
            if isinstance(n.op, ast.USub):
                return Scal(simp(-self.arith(w)))
            if isinstance(n.op, ast.UAdd):
                return w
            raise Unsupported('unary operator')
        return self.split(st, v, f)

    def e_BinOp(self, st, n):
        a = self.ev(st, n.left)
        b = self.ev(st, n.right)
        return self.binop(st, n.op, a, b, n)

    def e_Compare(self, st, n):
        left = self.ev(st, n.left)
        if len(n.ops) == 1:
            return Scal(self.compare(st, n.ops[0], left, self.ev(st, n.comparators[0]), n))

        def go(s, l, i):
            r = self.ev(s, n.comparators[i])
            c = self.compare(s, n.ops[i], l, r, n.comparators[i])
            if i == len(n.ops) - 1:
                return Scal(c)
            return self.branch_value(s, c, lambda s2: go(s2, r, i + 1), lambda s2: Scal(F))
        return go(st, left, 0)

    def e_NamedExpr(self, st, n):
        v = self.ev(st, n.value)
        self.assign(st, n.target, v)
        return v

    def e_Starred(self, st, n):
        raise Unsupported('starred')

    # ---------------------------------------------------------------- comprehension
    def comp(self, st, n, elts):
        """evaluate a comprehension; returns content sequence"""
        fr = st.frames[-1]
        f = Frame({'$acc': SeqC('list', [])}, fr.fn, fr.cls, fr.globals, len(st.frames) - 1)
        first = self.ev(st, n.generators[0].iter)
        st.frames.append(f)
        self.path.append(('comp',) + pos(n))
        try:
            self.comp_gen(st, n, 0, first, elts)
        finally:
            self.path.pop()
        r = st.frames[-1].vars['$acc']
        st.frames.pop()
        if isinstance(r, Poison):
            raise Unsupported('comprehension without closed form')
        return r

    def comp_gen(self, st, n, gi, itv, elts):
        g = n.generators[gi]
        if itv is None:
            itv = self.ev(st, g.iter)

        def body(s, elem):
            self.assign(s, g.target, elem)
            outs = []

            def cond(s2, ci):
                if ci == len(g.ifs):
                    if gi + 1 < len(n.generators):
                        self.comp_gen(s2, n, gi + 1, None, elts)
                    else:
                        v = self.ev(s2, elts) if not callable(elts) else elts(s2)
                        s2.frames[-1].vars['$acc'] = self.concat(s2, s2.frames[-1].vars['$acc'], SeqC('list', [v]), 'list')
                    return NONE
                c = self.truth(s2, self.ev(s2, g.ifs[ci]))
                return self.branch_value(s2, c, lambda s3: cond(s3, ci + 1), lambda s3: NONE)
            cond(s, 0)
            return [('next', s, None)]
        outs = self.iterate(st, itv, g.iter, body)
        res = [s for kd, s, _ in outs if kd == 'next']
        if not res:
            raise Dead()
        st.become(merge(res))

    def e_ListComp(self, st, n):
        c = self.comp(st, n, n.elt)
        r = self.alloc(st, 'list', n)
        self.put(st, r, '@', self.rekind(c, 'list'))
        return r

    def e_GeneratorExp(self, st, n):
        return self.rekind(self.comp(st, n, n.elt), 'gen')

    def e_SetComp(self, st, n):
        return SetV(self.comp(st, n, n.elt))

    def e_DictComp(self, st, n):
        c = self.comp(st, n, lambda s: SeqC('tuple', [self.ev(s, n.key), self.ev(s, n.value)]))
        if not isinstance(c, SeqC):
            raise Unsupported('symbolic dict comprehension')
        r = self.alloc(st, 'dict', n)
        for it in c.items:
            self.put(st, r, self.key_of(it.items[0]), it.items[1])
        return r

    # ---------------------------------------------------------------- attributes
    def mangle(self, st, a):
        if a.startswith('__') and not a.endswith('__'):
            fi = len(st.frames) - 1
            while fi is not None:
                c = st.frames[fi].cls
                if c is not None:
                    return '_%s%s' % (c.__name__.lstrip('_'), a)
                fi = st.frames[fi].parent
        return a

    def e_Attribute(self, st, n):
        base = self.ev(st, n.value)
        return self.getattr(st, base, self.mangle(st, n.attr), n)

    def getattr(self, st, base, a, node):
        def f(s, b):
            if isinstance(b, Ref) and b.fam.kind == 'obj':
                if a == '__dict__':
                    return Ref(self.attr_fam(s, b).fam, self.attr_fam(s, b).idx)
                if a == '__class__':
                    return Py(b.fam.cls)
                sv = inspect.getattr_static(b.fam.cls, a, None)
                if isinstance(sv, property):
                    return self.call(s, Py(sv.fget), [b], {}, node)
                v = self.rd(s, self.attr_fam(s, b), a)
                m = self.is_miss(v)
                if is_false(m):
                    return v
                # class attribute
                cv = self.class_attr(s, b.fam.cls, a, b, node)
                if is_true(m):
                    if cv is None:
                        self.do_raise(s, AttributeError, node)
                    return cv
                return mk_union([(g, w if w is not MISS else (cv if cv is not None else MISS)) for g, w in v.alts])
            if isinstance(b, Super):
                mro = b.obj_cls().__mro__ if hasattr(b, 'obj_cls') else None
                c = b.self.fam.cls if isinstance(b.self, Ref) else b.self.o
                mro = c.__mro__
                i = mro.index(b.cls)
                for k in mro[i + 1:]:
                    if a in k.__dict__:
                        return self.bind(s, k.__dict__[a], b.self, c, k, a)
                self.do_raise(s, AttributeError, node)
            if isinstance(b, (Ref, Seq, SeqC, Str, OtherStr, SetV, DictView, MapV)):
                return Bound(a, b)
            if isinstance(b, Scal) and hasattr(self, 'm_num_' + a):
                return Bound(a, b)
            if isinstance(b, Py):
                o = b.o
                if isinstance(o, type):
                    for k in o.__mro__:
                        if a in k.__dict__:
                            raw = k.__dict__[a]
                            if isinstance(raw, staticmethod):
                                return Py(raw.__func__)
                            if isinstance(raw, classmethod):
                                return Bound(raw.__func__, Py(o))
                            if isinstance(raw, types.FunctionType):
                                return Py(raw)
                            break
                    if a == '__name__':
                        return Str(o.__name__)
                try:
                    return self.lift(s, getattr(o, a))
                except AttributeError:
                    self.do_raise(s, AttributeError, node)
            if b is NONE:
                self.do_raise(s, AttributeError, node)
            if isinstance(b, AnyV):
                raise Unsupported('attribute %s of a user value' % a)
            raise Unsupported('attribute %s of %r' % (a, b))
        return self.split(st, base, f)

    def bind(self, st, raw, selfv, cls, owner, name):
        if isinstance(raw, staticmethod):
            return Py(raw.__func__)
        if isinstance(raw, classmethod):
            return Bound(raw.__func__, Py(cls))
        if isinstance(raw, types.FunctionType):
            return Bound(raw, selfv)
        if isinstance(raw, property):
            return self.call(st, Py(raw.fget), [selfv], {}, None)
        if owner in (list, object, dict, tuple):
            return Bound('list.' + name if owner is list else 'object.' + name, selfv)
        return self.lift(st, raw)

    def class_attr(self, st, cls, a, selfv, node):
        for k in cls.__mro__:
            if a in k.__dict__:
                return self.bind(st, k.__dict__[a], selfv, cls, k, a)
        return None

    def setattr(self, st, base, a, v, node):
        def f(s, b):
            if isinstance(b, Ref) and b.fam.kind == 'obj':
                if a == '__dict__':
                    if not (isinstance(v, Ref) and v.fam.kind == 'obj') or b.fam.arity or v.fam.arity:
                        raise Unsupported('__dict__ assignment')
                    s.dictof[b.fam.id] = v
                    return NONE
                sv = inspect.getattr_static(b.fam.cls, a, None)
                if isinstance(sv, property):
                    if sv.fset is None:
                        self.do_raise(s, AttributeError, node)
                    self.call(s, Py(sv.fset), [b, v], {}, node)
                    return NONE
                self.put(s, self.attr_fam(s, b), a, v)
                return NONE
            if b is NONE:
                self.do_raise(s, AttributeError, node)
            raise Unsupported('attribute assignment on %r' % (b,))
        self.split(st, base, f)

    # ---------------------------------------------------------------- subscripts
    def e_Subscript(self, st, n):
        base = self.ev(st, n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(st, n.slice.lower) if n.slice.lower else None
            hi = self.ev(st, n.slice.upper) if n.slice.upper else None
            sp = self.ev(st, n.slice.step) if n.slice.step else None
            return self.get_slice(st, base, lo, hi, sp, n)
        i = self.ev(st, n.slice)
        return self.getitem(st, base, i, n)

    def get_slice(self, st, base, lo, hi, sp, n):
        def f(s, b):
            def g(s2, l, h):
                l = None if l is NONE else l
                h = None if h is NONE else h
                if isinstance(b, Str):
                    q = SeqC('str', [Str(c) for c in b.s])
                else:
                    q = self.as_seq(s2, b)
                c = self.slice(s2, q, l, h, sp, n)
                if isinstance(b, Ref):
                    r = self.alloc(s2, 'list', n, 'slice')
                    self.put(s2, r, '@', self.rekind(c, 'list'))
                    return r
                if isinstance(b, Str) and isinstance(c, SeqC):
                    return Str(''.join(x.s for x in c.items))
                return c
            return self.split2(s, lo if lo is not None else NONE, hi if hi is not None else NONE, g)
        return self.split(st, base, f)

    def getitem(self, st, base, i, n):
        def f(s, b, iv):
            if isinstance(b, Ref) and b.fam.kind == 'dict':
                if isinstance(iv, OtherStr):
                    self.do_raise(s, KeyError, n)
                cs = self.key_cases(s, b, iv)
                if cs is not None:
                    self.raise_if(s, Not(Or(*[g for g, _ in cs])), KeyError, n)
                    return mk_union(cs)
                k = self.key_of(iv)
                v = self.rd(s, b, k)
                m = self.is_miss(v)
                self.raise_if(s, m, KeyError, n, str(k))
                if isinstance(v, Union):
                    v = mk_union([(g, w) for g, w in v.alts if w is not MISS])
                if v is UNDEF:
                    raise Unsupported('undefined cell')
                if isinstance(v, Poison):
                    raise Unsupported('poisoned cell')
                return v
            if isinstance(b, MapV):
                k = self.arith(iv)
                self.raise_if(s, Not(sub_e(b.dom, [(b.x, k)])), KeyError, n)
                return subst(b.body, [(b.x, k)])
            if b is NONE or isinstance(b, Scal) and b.e.sort() != Gene:
                self.do_raise(s, TypeError, n)
            if isinstance(b, Str):
                b = SeqC('str', [Str(c) for c in b.s])
            if isinstance(b, (AnyV, Hole)):
                raise Unsupported('subscript of %r' % (b,))
            if iv is NONE or isinstance(iv, Str):
                self.do_raise(s, TypeError, n)
            q = self.as_seq(s, b)
            return self.index(s, q, iv, n)
        return self.split2(st, base, i, f)

    def setitem(self, st, base, i, v, n):
        def f(s, b, iv):
            if isinstance(b, Ref) and b.fam.kind == 'dict':
                self.put(s, b, self.key_of(iv), v)
                return NONE
            if isinstance(b, Ref) and self.rd(s, b, '@') is not MISS:
                q = self.as_seq(s, b)
                ln = seq_len(q)
                ix = simp(self.arith(iv))
                if isinstance(q, SeqC) and z3.is_int_value(ix) and -len(q.items) <= ix.as_long() < len(q.items):
                    items = list(q.items)
                    items[ix.as_long()] = v
                    self.put(s, b, '@', SeqC(q.kind, items))
                    return NONE
                j = self.norm_index(s, ix, ln, n)
                if isinstance(q, SeqC) and len(q.items) <= 8:
                    self.put(s, b, '@', SeqC(q.kind, [ite(j == m, v, it) for m, it in enumerate(q.items)]))
                    return NONE
                q = to_seq(q)
                self.log.append(('set', b, j))
                self.put(s, b, '@', Seq(q.kind, q.n, q.x, ite(q.x == j, v, q.body)))
                return NONE
            if b is NONE or isinstance(b, (Seq, SeqC, Str)):
                self.do_raise(s, TypeError, n)
            raise Unsupported('item assignment on %r' % (b,))
        self.split2(st, base, i, f)

    def set_slice(self, st, base, lo, hi, v, n):
        """base[lo:hi] = v  (v None: delete)"""
        def f(s, b):
            q = self.as_seq(s, b)
            rep = SeqC('list', []) if v is None else self.as_seq(s, v)
            if isinstance(q, SeqC) and isinstance(rep, SeqC):
                def lit(t):
                    if t is None:
                        return None
                    t = simp(self.arith(t))
                    return t.as_long() if z3.is_int_value(t) else 'x'
                l, h = lit(lo), lit(hi)
                if l != 'x' and h != 'x':
                    items = list(q.items)
                    items[l:h] = rep.items
                    self.put(s, b, '@', SeqC('list', items))
                    return NONE
            left = self.slice(s, q, None, lo, None, n) if lo is not None else SeqC('list', [])
            if hi is None:
                right = SeqC('list', [])
            else:
                # python: if hi < lo the insertion happens at lo
                l = seq_len(left)
                h = seq_len(self.slice(s, q, None, hi, None, n))
                if not self.prove(s, h >= l):
                    h = simp(If(h >= l, h, l))
                right = self.slice(s, q, Scal(h), None, None, n)
            c = self.concat(s, self.concat(s, left, rep, 'list'), right, 'list')
            self.put(s, b, '@', self.rekind(c, 'list'))
            return NONE
        self.split(st, base, f)

    # ---------------------------------------------------------------- assignment
    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            st.frames[-1].vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            def f(s, w):
                if isinstance(w, Ref) and w.fam.kind == 'dict' or isinstance(w, Scal) or w is NONE:
                    raise Unsupported('unpacking %r' % (w,))
                q = self.as_seq(s, w)
                if any(isinstance(e, ast.Starred) for e in t.elts):
                    raise Unsupported('starred target')
                self.raise_if(s, seq_len(q) != len(t.elts), ValueError, t)
                for i, e in enumerate(t.elts):
                    self.assign(s, e, prune(seq_get(q, num(i))))
                return NONE
            self.split(st, v, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(st, t.value), self.mangle(st, t.attr), v, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(st, t.value)
            if isinstance(t.slice, ast.Slice):
                if t.slice.step:
                    raise Unsupported('slice step assignment')
                lo = self.ev(st, t.slice.lower) if t.slice.lower else None
                hi = self.ev(st, t.slice.upper) if t.slice.upper else None
                self.set_slice(st, base, lo, hi, v, t)
            else:
                self.setitem(st, base, self.ev(st, t.slice), v, t)
        else:
            raise Unsupported('target %s' % type(t).__name__)

    # ---------------------------------------------------------------- statements
    def block(self, st, stmts):
        outs = []
        cur = st
        for s in stmts:
            try:
                res = self.stmt(cur, s)
            except Dead:
                cur = None
                break
            nxt = []
            for o in res:
                (nxt if o[0] == 'next' else outs).append(o)
            if not nxt:
                cur = None
                break
            cur = nxt[0][1] if len(nxt) == 1 else merge([o[1] for o in nxt])
        if cur is not None:
            outs.append(('next', cur, None))
        return outs

    def stmt(self, st, n):
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Unsupported('time budget of the symbolic execution exhausted')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        return m(st, n)

    def s_Pass(self, st, n):
        return [('next', st, None)]

    def s_Expr(self, st, n):
        if isinstance(n.value, ast.Constant):
            return [('next', st, None)]
        self.ev(st, n.value)
        return [('next', st, None)]

    def s_Assign(self, st, n):
        v = self.ev(st, n.value)
        for t in n.targets:
            self.assign(st, t, v)
        return [('next', st, None)]

    def s_AnnAssign(self, st, n):
        if n.value is not None:
            self.assign(st, n.target, self.ev(st, n.value))
        return [('next', st, None)]

    def s_AugAssign(self, st, n):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(st, t.id, t)
            self.aug(st, old, n, lambda s, v: s.frames[-1].vars.__setitem__(t.id, v))
        elif isinstance(t, ast.Attribute):
            base = self.ev(st, t.value)
            a = self.mangle(st, t.attr)
            old = self.getattr(st, base, a, t)
            self.aug(st, old, n, lambda s, v: self.setattr(s, base, a, v, t))
        elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            base = self.ev(st, t.value)
            i = self.ev(st, t.slice)
            old = self.getitem(st, base, i, t)
            self.aug(st, old, n, lambda s, v: self.setitem(s, base, i, v, t))
        else:
            raise Unsupported('augmented target')
        return [('next', st, None)]

    def aug(self, st, old, n, store):
        if isinstance(old, Ref) and isinstance(n.op, ast.Add) and self.rd(st, old, '@') is not MISS:
            b = self.as_seq(st, self.ev(st, n.value))
            self.put(st, old, '@', self.concat(st, self.as_seq(st, old), b, 'list'))
            store(st, old)
            return
        b = self.ev(st, n.value)
        store(st, self.binop(st, n.op, old, b, n))

    def s_If(self, st, n):
        c = self.truth(st, self.ev(st, n.test))
        d = self.decide(st, c)
        if d is True:
            return self.block(st, n.body)
        if d is False:
            return self.block(st, n.orelse)
        a = st.copy()
        a.add(c)
        b = st
        b.add(Not(c))
        return self.block(a, n.body) + self.block(b, n.orelse)

    def s_Return(self, st, n):
        v = self.ev(st, n.value) if n.value is not None else NONE
        return [('return', st, v)]

    def s_Break(self, st, n):
        return [('break', st, None)]

    def s_Continue(self, st, n):
        return [('continue', st, None)]

    def s_Raise(self, st, n):
        if n.exc is None:
            raise Unsupported('re-raise')
        v = n.exc
        if isinstance(v, ast.Call):
            v = v.func
        o = self.ev(st, v)
        cls = o.o if isinstance(o, Py) and isinstance(o.o, type) else (o.cls if isinstance(o, ExcV) else Exception)
        self.do_raise(st, cls, n)

    def s_Assert(self, st, n):
        c = self.truth(st, self.ev(st, n.test))
        self.raise_if(st, Not(c), AssertionError, n)
        return [('next', st, None)]

    def s_Delete(self, st, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.frames[-1].vars[t.id] = MISS
            elif isinstance(t, ast.Subscript):
                base = self.ev(st, t.value)
                if isinstance(t.slice, ast.Slice):
                    lo = self.ev(st, t.slice.lower) if t.slice.lower else None
                    hi = self.ev(st, t.slice.upper) if t.slice.upper else None
                    self.set_slice(st, base, lo, hi, None, t)
                else:
                    i = self.ev(st, t.slice)

                    def f(s, b):
                        if b.fam.kind == 'dict':
                            k = self.key_of(i)
                            self.raise_if(s, self.is_miss(self.rd(s, b, k)), KeyError, t)
                            self.put(s, b, k, MISS)
                            return NONE
                        self.m_list_pop(s, b, [i], {}, t)
                        return NONE
                    self.split(st, base, f)
            else:
                raise Unsupported('del target')
        return [('next', st, None)]

    def s_FunctionDef(self, st, n):
        if n.decorator_list:
            raise Unsupported('decorated local function')
        st.frames[-1].vars[n.name] = Lam(n, len(st.frames) - 1, n.name)
        return [('next', st, None)]

    def s_Import(self, st, n):
        import importlib
        for a in n.names:
            mod = importlib.import_module(a.name)
            st.frames[-1].vars[a.asname or a.name.split('.')[0]] = Py(mod if a.asname else importlib.import_module(a.name.split('.')[0]))
        return [('next', st, None)]

    def s_ImportFrom(self, st, n):
        import importlib
        if n.level:
            raise Unsupported('relative local import')
        mod = importlib.import_module(n.module)
        for a in n.names:
            st.frames[-1].vars[a.asname or a.name] = self.lift(st, getattr(mod, a.name))
        return [('next', st, None)]

    def s_Global(self, st, n):
        raise Unsupported('global')

    def s_Try(self, st, n):
        depth = len(st.frames)
        self.sinks.append([])
        try:
            outs = self.block(st, n.body)
        finally:
            raised = self.sinks.pop()
        res = []
        for o in outs:
            if o[0] == 'next' and n.orelse:
                res.extend(self.block(o[1], n.orelse))
            else:
                res.append(o)
        for s, exc, where in raised:
            del s.frames[depth:]
            handled = False
            for h in n.handlers:
                types_ = []
                if h.type is None:
                    types_ = [BaseException]
                else:
                    hv = self.ev(s, h.type)
                    vs = hv.items if isinstance(hv, SeqC) else [hv]
                    types_ = [x.o for x in vs]
                if issubclass(exc, tuple(types_)):
                    if h.name:
                        s.frames[-1].vars[h.name] = ExcV(exc)
                    try:
                        res.extend(self.block(s, h.body))
                    except Dead:
                        pass
                    handled = True
                    break
            if not handled:
                self.sinks[-1].append((s, exc, where))
        if n.finalbody:
            if any(o[0] != 'next' for o in res):
                raise Unsupported('finally with early exit')
            r2 = []
            for o in res:
                r2.extend(self.block(o[1], n.finalbody))
            res = r2
        return res

    def pairs(self, st, n):
        """for TARGET in itertools.combinations(X, 2) as two loops over the positions, or None"""
        c = n.iter
        if not (isinstance(c, ast.Call) and len(c.args) == 2 and not c.keywords and isinstance(c.args[1], ast.Constant) and c.args[1].value == 2 and not n.orelse):
            return None
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in n.body for x in ast.walk(b)):
            return None
        f = self.ev(st.copy(), c.func) if isinstance(c.func, (ast.Name, ast.Attribute)) else None
        if not (isinstance(f, Py) and f.o is itertools.combinations):
            return None
        if id(n) not in self.rewritten:
            tag = 'pairs_%d_%d' % (n.lineno, n.col_offset)
            new = ast.parse('for {0}_i in range(len({0})):\n for {0}_j in range({0}_i + 1, len({0})):\n  pass'.format(tag)).body[0]
            item = lambda v: ast.Subscript(ast.Name(tag, ast.Load()), ast.Name(tag + v, ast.Load()), ast.Load())
            new.body[0].body = [ast.Assign([n.target], ast.Tuple([item('_i'), item('_j')], ast.Load()))]
            keep = ast.Assign([ast.Name(tag, ast.Store())], ast.Call(ast.Name('list', ast.Load()), [c.args[0]], []))
            mine = [x for t in (new, keep.targets[0], keep.value.func) for x in ast.walk(t)] + [keep, keep.value]
            theirs = {id(x) for x in ast.walk(n.target)}
            for k, x in enumerate(mine):                # program points of their own
                if id(x) not in theirs:
                    x.lineno = x.end_lineno = n.lineno
                    x.col_offset = x.end_col_offset = 10000 + 100 * n.col_offset + k
            new.body[0].body += n.body
            self.rewritten[id(n)] = (n, [keep, new])
        return self.block(st, self.rewritten[id(n)][1])

    def s_For(self, st, n):
        r = self.pairs(st, n)
        if r is not None:
            return r
        itv = self.ev(st, n.iter)

        def body(s, elem):
            self.assign(s, n.target, elem)
            return self.block(s, n.body)
        outs = self.iterate(st, itv, n, body)
        return self.after_loop(outs, n.orelse)

    def after_loop(self, outs, orelse):
        """outcomes of a loop -> statement outcomes ('next' = exhausted, 'break')"""
        res, nxt = [], []
        for kd, s, v in outs:
            if kd == 'next':
                if orelse:
                    try:
                        for o in self.block(s, orelse):
                            (nxt if o[0] == 'next' else res).append(o)
                    except Dead:
                        pass
                else:
                    nxt.append((kd, s, v))
            elif kd == 'break':
                nxt.append(('next', s, None))
            else:
                res.append((kd, s, v))
        return nxt + res

    def s_While(self, st, n):
        def body(s, k):
            c = self.truth(s, self.ev(s, n.test))
            d = self.decide(s, c)
            if d is True:
                return self.block(s, n.body)
            if d is False:
                return [('exhaust', s, None)]
            a = s.copy()
            a.add(c)
            s.add(Not(c))
            return self.block(a, n.body) + [('exhaust', s, None)]
        outs = self.loop(st, n, None, body)
        outs = [(('next' if kd == 'exhaust' else kd), s, v) for kd, s, v in outs]
        return self.after_loop(outs, n.orelse)

    # ---------------------------------------------------------------- calls
    def e_Call(self, st, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fi = len(st.frames) - 1
            while st.frames[fi].cls is None or st.frames[fi].parent is not None:
                fi = st.frames[fi].parent
            f = st.frames[fi]
            first = ast_of(f.fn).args.args[0].arg
            return Super(f.cls, f.vars[first])
        fv = self.ev(st, n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(st, a.value)
                q = self.as_seq(st, v)
                if not isinstance(q, SeqC):
                    raise Unsupported('*args of symbolic length')
                args.extend(q.items)
            else:
                args.append(self.ev(st, a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(st, k.value)
                if not (isinstance(d, Ref) and d.fam.kind == 'dict'):
                    raise Unsupported('**kwargs')
                for kk in self.dkeys(st, d):
                    kw[kk] = self.rd(st, d, kk)
            else:
                kw[k.arg] = self.ev(st, k.value)
        return self.call(st, fv, args, kw, n)

    def call(self, st, fv, args, kw, n):
        if isinstance(fv, Union):
            return self.split(st, fv, lambda s, f: self.call(s, f, args, kw, n))
        if isinstance(fv, Opq):
            return fv.handler(self, st, args, kw, n)
        if isinstance(fv, Lam):
            return self.call_lam(st, fv, args, kw, n)
        if isinstance(fv, Bound):
            if isinstance(fv.f, str):
                return self.method(st, fv.f, fv.self, args, kw, n)
            return self.call_py(st, fv.f, [fv.self] + list(args), kw, n)
        if isinstance(fv, Py):
            return self.call_py(st, fv.o, args, kw, n)
        if fv is NONE or isinstance(fv, (Scal, Str, Seq, SeqC)):
            self.do_raise(st, TypeError, n)
        if isinstance(fv, Ref) and fv.fam.kind == 'obj':
            m = self.class_attr(st, fv.fam.cls, '__call__', fv, n)
            if m is not None:
                return self.call(st, m, args, kw, n)
        raise Unsupported('call of %r' % (fv,))

    def call_py(self, st, o, args, kw, n):
        try:
            h = self.contracts.get(o)
        except TypeError:
            h = None
        if h is not None:
            return h(self, st, args, kw, n)
        if isinstance(o, type) and self.is_repo_class(o):
            return self.instantiate(st, o, args, kw, n)
        if isinstance(o, types.FunctionType) and self.is_repo_fn(o):
            return self.inline(st, o, args, kw, n)
        if isinstance(o, types.MethodType) and isinstance(o.__func__, types.FunctionType) and self.is_repo_fn(o.__func__):
            return self.inline(st, o.__func__, [self.lift(st, o.__self__)] + list(args), kw, n)
        return self.library(st, o, args, kw, n)

    def is_repo_class(self, o):
        return o.__module__.split('.')[0] == 'baumeva' or o.__module__ in self.extra_modules

    def is_repo_fn(self, o):
        return (o.__module__ or '').split('.')[0] == 'baumeva' or o.__module__ in self.extra_modules

    extra_modules = ('pyvc.pylib',)

    def instantiate(self, st, cls, args, kw, n):
        if inspect.isabstract(cls):
            self.do_raise(st, TypeError, n)
        r = self.alloc(st, 'obj', n, cls.__name__, cls)
        for k in cls.__mro__:
            if '__init__' in k.__dict__:
                f = k.__dict__['__init__']
                if isinstance(f, types.FunctionType):
                    self.call_py(st, f, [r] + list(args), kw, n)
                elif k is list:
                    if args:
                        self.put(st, r, '@', self.rekind(self.as_seq(st, args[0]), 'list'))
                elif args or kw:
                    self.do_raise(st, TypeError, n)
                break
        return r

    def owner_of(self, fn):
        """class whose body defines fn"""
        c = getattr(fn, '__closure__', None)
        if c and '__class__' in fn.__code__.co_freevars:
            return c[fn.__code__.co_freevars.index('__class__')].cell_contents
        q = fn.__qualname__.split('.')
        if len(q) >= 2 and q[-2] != '<locals>':
            import sys
            o = sys.modules.get(fn.__module__)
            for p in q[:-1]:
                o = getattr(o, p, None)
            if isinstance(o, type):
                return o
        return None

    def bind_args(self, st, a, defaults, kwdefaults, args, kw, n, name):
        """a: ast.arguments; defaults: list of Values"""
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names) and a.vararg is None:
            self.do_raise(st, TypeError, n)
        for nm, v in zip(names, args):
            vals[nm] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = SeqC('tuple', list(args[len(names):]))
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in vals and k in names:
                self.do_raise(st, TypeError, n)
            if k in names or k in kwo:
                vals[k] = v
            else:
                extra[k] = v
        for nm, d in zip(names[len(names) - len(defaults):], defaults):
            if nm not in vals:
                vals[nm] = d
        for nm, d in kwdefaults.items():
            if nm not in vals:
                vals[nm] = d
        for nm in names + kwo:
            if nm not in vals:
                self.do_raise(st, TypeError, n)
        if extra and a.kwarg is None:
            self.do_raise(st, TypeError, n)
        if a.kwarg is not None:
            r = self.alloc(st, 'dict', n, 'kw' + name)
            for k, v in extra.items():
                self.put(st, r, k, v)
            vals[a.kwarg.arg] = r
        return vals

    def inline(self, st, fn, args, kw, n):
        if hasattr(fn, '__wrapped__'):
            raise Unsupported('decorated function %s' % fn.__qualname__)
        node = ast_of(fn)
        if fn.__code__.co_flags & 0x20:
            raise Unsupported('generator function %s' % fn.__qualname__)
        self.functions.add('%s.%s' % (fn.__module__, fn.__qualname__))
        owner = self.owner_of(fn)
        self.path.append(('call', fn.__qualname__) + (pos(n) if n is not None else ()))
        try:
            defaults = [self.lift(st, d) for d in (fn.__defaults__ or ())]
            kwd = {k: self.lift(st, d) for k, d in (fn.__kwdefaults__ or {}).items()}
            vals = self.bind_args(st, node.args, defaults, kwd, args, kw, n, fn.__name__)
            g = fn.__globals__
            if fn.__closure__:
                g = dict(g)
                for nm, c in zip(fn.__code__.co_freevars, fn.__closure__):
                    if nm != '__class__':
                        g[nm] = c.cell_contents
            # locals are unbound until assigned
            for nm in fn.__code__.co_varnames + fn.__code__.co_cellvars:
                vals.setdefault(nm, MISS)
            return self.run_body(st, Frame(vals, fn, owner, g), node.body, fn.__qualname__)
        finally:
            self.path.pop()

    def run_body(self, st, frame, body, name):
        if len(st.frames) > self.MAXDEPTH:
            raise Unsupported('recursion')
        st.frames.append(frame)
        self.cur_fn.append(name)
        try:
            outs = self.block(st, body)
        finally:
            self.cur_fn.pop()
        done = []
        for kd, s, v in outs:
            if kd == 'next':
                v = NONE
            elif kd != 'return':
                raise Unsupported('stray %s' % kd)
            s.frames[-1].vars['$ret'] = v
            done.append(s)
        if not done:
            raise Dead()
        m = merge(done)
        v = m.frames[-1].vars['$ret']
        m.frames.pop()
        st.become(m)
        return v

    cur_fn = None

    def call_lam(self, st, lam, args, kw, n):
        node = lam.node
        pf = st.frames[lam.frame]
        self.path.append(('lam',) + pos(node) + (pos(n) if n is not None else ()))
        try:
            defaults = []
            for d in node.args.defaults:
                defaults.append(self.ev(st, d))
            vals = self.bind_args(st, node.args, defaults, {}, args, kw, n, 'lam')
            f = Frame(vals, pf.fn, pf.cls, pf.globals, lam.frame)
            if isinstance(node, ast.Lambda):
                st.frames.append(f)
                v = self.ev(st, node.body)
                st.frames.pop()
                return v
            return self.run_body(st, f, node.body, lam.name)
        finally:
            self.path.pop()
