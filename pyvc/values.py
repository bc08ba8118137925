"""Symbolic values of the Python subset.  Every value is a tree with z3 terms at the leaves, so that loop indices and
bound variables can be substituted everywhere."""
import z3

Gene = z3.DeclareSort('Gene')          # opaque gene / character / category value
Content = z3.DeclareSort('Content')    # identity of an (unmodified) sequence content, argument of the objective

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


def fresh_int(p='x'):
    return z3.Int(fresh_name(p))


class V:
    __slots__ = ()


class Scal(V):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'Scal(%s)' % self.e


class _Single(V):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NONE = _Single('None')
MISS = _Single('MISSING')      # absent dictionary key / attribute / unbound variable
UNDEF = _Single('UNDEF')       # don't care: content of an object that has not been allocated


class Hole(V):
    """Unknown element of a loop-carried sequence or family while its closed form is being guessed."""
    __slots__ = ('loc', 'idx')

    def __init__(self, loc, idx=()):
        self.loc, self.idx = loc, tuple(idx)

    def __repr__(self):
        return 'Hole(%s,%s)' % (self.loc, list(self.idx))


class Poison(V):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Poison(%s)' % (self.loc,)


class Str(V):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'Str(%r)' % self.s


class OtherStr(V):
    """A string different from every string constant of the program."""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'OtherStr(%s)' % self.tag


class FStr(OtherStr):
    """formatted string: its parts"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.tag, self.parts = 'fstring', parts


class AnyV(V):
    """Opaque value supplied by the user; only identity, None-test and truth value (a free Boolean) are known."""
    __slots__ = ('tag', 'truth')

    def __init__(self, tag, truth=None):
        self.tag = tag
        self.truth = truth if truth is not None else z3.Bool('truth_' + tag)

    def __repr__(self):
        return 'AnyV(%s)' % self.tag


class Fam:
    """A family of heap objects indexed by integers (arity 0: a single object)."""
    _n = 0

    def __init__(self, name, kind, arity, cls=None):
        Fam._n += 1
        self.id = Fam._n
        self.name = name
        self.kind = kind        # 'list' 'dict' 'obj'
        self.arity = arity
        self.cls = cls
        self.keys = []          # dict: insertion ordered candidate keys
        self.loop = None        # loop path during whose execution the family is allocated
        self.pre = False        # exists in the pre-state

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class Ref(V):
    __slots__ = ('fam', 'idx')

    def __init__(self, fam, idx=()):
        self.fam = fam
        self.idx = tuple(idx)
        assert len(self.idx) == fam.arity

    def __repr__(self):
        return 'Ref(%r,%s)' % (self.fam, list(self.idx))


class Seq(V):
    """Sequence of symbolic length: element i is body[x := i]."""
    __slots__ = ('kind', 'n', 'x', 'body', 'cid', 'view', 'info')

    def __init__(self, kind, n, x, body, cid=None, view=None, info=None):
        self.kind, self.n, self.x, self.body, self.cid, self.view, self.info = kind, n, x, body, cid, view, info

    def __repr__(self):
        return 'Seq(%s,n=%s,%s->%s)' % (self.kind, self.n, self.x, self.body)


class SeqC(V):
    """Sequence of concrete length."""
    __slots__ = ('kind', 'items', 'cid')

    def __init__(self, kind, items, cid=None):
        self.kind, self.items, self.cid = kind, list(items), cid

    def __repr__(self):
        return 'SeqC(%s,%s)' % (self.kind, self.items)


class Union(V):
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union(%s)' % (self.alts,)


class SetV(V):
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq


class MapV(V):
    """Immutable user mapping with integer keys: value of key x is body, defined where dom holds."""
    __slots__ = ('x', 'dom', 'body', 'n')

    def __init__(self, x, dom, body, n):
        self.x, self.dom, self.body, self.n = x, dom, body, n


class Py(V):
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return 'Py(%r)' % (self.o,)


class Bound(V):
    """Bound method: python function object or the name of a builtin container method."""
    __slots__ = ('f', 'self')

    def __init__(self, f, s):
        self.f, self.self = f, s

    def __repr__(self):
        return 'Bound(%r,%r)' % (self.f, self.self)


class Lam(V):
    __slots__ = ('node', 'frame', 'name')

    def __init__(self, node, frame, name='<lambda>'):
        self.node, self.frame, self.name = node, frame, name


class Super(V):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, s):
        self.cls, self.self = cls, s


class Opq(V):
    """Callable supplied by a contract: handler(engine, state, args, kwargs) -> value."""
    __slots__ = ('name', 'handler')

    def __init__(self, name, handler):
        self.name, self.handler = name, handler

    def __repr__(self):
        return 'Opq(%s)' % self.name


class ExcV(V):
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls


_strc = {}


def strc(s):
    """gene constant of a string"""
    if s not in _strc:
        _strc[s] = z3.Const('str:' + s, Gene)
    return _strc[s]


ofint = z3.Function('ofint', INT, Gene)
toint = z3.Function('toint', Gene, INT)
ofreal = z3.Function('ofreal', REAL, Gene)
toreal = z3.Function('toreal', Gene, REAL)
T, F = z3.BoolVal(True), z3.BoolVal(False)


def is_true(c):
    return z3.is_true(c)


def is_false(c):
    return z3.is_false(c)


def simp(e):
    return z3.simplify(e)


def And(*cs):
    r = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            for d in c:
                if is_false(d):
                    return F
                if not is_true(d):
                    r.append(d)
            continue
        if is_false(c):
            return F
        if not is_true(c):
            r.append(c)
    if not r:
        return T
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def Or(*cs):
    r = []
    for c in cs:
        if is_true(c):
            return T
        if not is_false(c):
            r.append(c)
    if not r:
        return F
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


def Not(c):
    if is_true(c):
        return F
    if is_false(c):
        return T
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def Implies(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return T
    return z3.Implies(a, b)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def num(v):
    return z3.IntVal(v)


def is_num_sort(s):
    return s == INT or s == REAL


def kindkey(v):
    if isinstance(v, Scal):
        s = v.e.sort()
        if is_num_sort(s):
            return 'num'
        return s.name()
    if isinstance(v, Ref):
        return ('ref', v.fam.id)
    if isinstance(v, (Seq, SeqC)):
        return ('seq', v.kind)
    if isinstance(v, _Single):
        return v.n
    if isinstance(v, Hole):
        return ('hole', v.loc)
    if isinstance(v, AnyV):
        return ('any', v.tag)
    if isinstance(v, OtherStr):
        return ('other', v.tag)
    if isinstance(v, Lam):
        return ('lam', id(v.node), v.frame)
    if isinstance(v, Str):
        return ('str', v.s)
    if isinstance(v, Py):
        return ('py', id(v.o))
    return ('id', id(v))


def to_seq(v):
    """SeqC -> Seq"""
    if isinstance(v, Seq):
        return v
    x = fresh_int('s')
    items = v.items
    if not items:
        return Seq(v.kind, num(0), x, UNDEF, v.cid)
    body = items[-1]
    for i in range(len(items) - 2, -1, -1):
        body = ite(x == i, items[i], body)
    return Seq(v.kind, num(len(items)), x, body, v.cid)


def same(a, b):
    """cheap structural identity"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Scal):
        return a.e.eq(b.e)
    if isinstance(a, Ref):
        return a.fam is b.fam and all(p.eq(q) for p, q in zip(a.idx, b.idx))
    if isinstance(a, Str):
        return a.s == b.s
    if isinstance(a, Py):
        return a.o is b.o
    if isinstance(a, SeqC):
        return a.kind == b.kind and len(a.items) == len(b.items) and all(same(p, q) for p, q in zip(a.items, b.items)) \
            and ((a.cid is None and b.cid is None) or (a.cid is not None and b.cid is not None and a.cid.eq(b.cid)))
    if isinstance(a, Seq):
        if a.kind != b.kind or not a.n.eq(b.n):
            return False
        if not ((a.cid is None and b.cid is None) or (a.cid is not None and b.cid is not None and a.cid.eq(b.cid))):
            return False
        bb = b.body if a.x.eq(b.x) else subst(b.body, [(b.x, a.x)])
        return same(a.body, bb)
    if isinstance(a, MapV):
        r = [(b.x, a.x)]
        return a.n.eq(b.n) and a.dom.eq(sub_e(b.dom, r)) and same(a.body, subst(b.body, r))
    if isinstance(a, Union):
        return len(a.alts) == len(b.alts) and all(g.eq(h) and same(p, q) for (g, p), (h, q) in zip(a.alts, b.alts))
    if isinstance(a, AnyV):
        return a.tag == b.tag
    if isinstance(a, Hole):
        return a.loc == b.loc and len(a.idx) == len(b.idx) and all(p.eq(q) for p, q in zip(a.idx, b.idx))
    if isinstance(a, (OtherStr,)):
        return a.tag == b.tag
    if isinstance(a, (Opq, ExcV)):
        return a is b or (isinstance(a, Opq) and a.name == b.name and a.handler is b.handler)
    if isinstance(a, Lam):
        return a.node is b.node and a.frame == b.frame
    if isinstance(a, Super):
        return a.cls is b.cls and same(a.self, b.self)
    if isinstance(a, SetV):
        return same(a.seq, b.seq)
    if isinstance(a, Bound):
        return a.f == b.f and same(a.self, b.self)
    return False


def _combine(c, a, b):
    """merge two values of equal kindkey; c selects a"""
    if isinstance(a, Scal):
        x, y = a.e, b.e
        if x.sort() != y.sort():
            if x.sort() == INT:
                x = z3.ToReal(x)
            if y.sort() == INT:
                y = z3.ToReal(y)
        return Scal(If(c, x, y))
    if isinstance(a, Ref):
        return Ref(a.fam, [If(c, p, q) for p, q in zip(a.idx, b.idx)])
    if isinstance(a, Hole):
        return Hole(a.loc, [If(c, p, q) for p, q in zip(a.idx, b.idx)])
    if isinstance(a, (Seq, SeqC)):
        cid = None
        if a.cid is not None and b.cid is not None:
            cid = If(c, a.cid, b.cid)
        if isinstance(a, SeqC) and isinstance(b, SeqC) and len(a.items) == len(b.items):
            return SeqC(a.kind, [ite(c, p, q) for p, q in zip(a.items, b.items)], cid)
        if isinstance(a, SeqC) and not a.items:
            b = to_seq(b)
            return Seq(a.kind, If(c, num(0), b.n), b.x, b.body, cid)
        if isinstance(b, SeqC) and not b.items:
            a = to_seq(a)
            return Seq(a.kind, If(c, a.n, num(0)), a.x, a.body, cid)
        a, b = to_seq(a), to_seq(b)
        if a.n.eq(num(0)) and a.body is UNDEF:
            return Seq(a.kind, If(c, a.n, b.n), b.x, b.body, cid)
        if b.n.eq(num(0)) and b.body is UNDEF:
            return Seq(a.kind, If(c, a.n, b.n), a.x, a.body, cid)
        x = a.x
        bb = b.body if b.x.eq(x) else subst(b.body, [(b.x, x)])
        if not a.x.eq(b.x):
            x = fresh_int('s')
            bb = subst(b.body, [(b.x, x)])
            ab = subst(a.body, [(a.x, x)])
        else:
            ab = a.body
        view = None
        if a.view is not None and b.view is not None and a.view[0] is b.view[0]:
            view = (a.view[0], If(c, a.view[1], b.view[1]))
        return Seq(a.kind, If(c, a.n, b.n), x, ite(c, ab, bb), cid, view)
    return a


def ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if same(a, b):
        return a
    if not isinstance(a, Union) and not isinstance(b, Union) and kindkey(a) == kindkey(b):
        return _combine(c, a, b)
    alts = []
    for g, v in (a.alts if isinstance(a, Union) else [(T, a)]):
        alts.append((And(c, g), v))
    nc = Not(c)
    for g, v in (b.alts if isinstance(b, Union) else [(T, b)]):
        alts.append((And(nc, g), v))
    return mk_union(alts)


def mk_union(alts):
    out = []
    if any(isinstance(v, Scal) and v.e.sort() == Gene for _, v in alts):
        # one-character strings join the opaque gene values
        alts = [(g, Scal(strc(v.s)) if isinstance(v, Str) else v) for g, v in alts]
    for g, v in alts:
        if is_false(g) or v is UNDEF:
            continue
        if isinstance(v, Union):
            sub = [(And(g, h), w) for h, w in v.alts]
        else:
            sub = [(g, v)]
        for g2, v2 in sub:
            k = kindkey(v2)
            for i, (h, w) in enumerate(out):
                if kindkey(w) == k:
                    out[i] = (Or(h, g2), _combine(h, w, v2) if not same(w, v2) else w)
                    break
            else:
                out.append((g2, v2))
    if not out:
        return UNDEF
    if len(out) == 1:
        return out[0][1]
    return Union(out)


def canon(e, memo=None):
    """text of a term that does not depend on the order of the arguments of commutative operators"""
    memo = {} if memo is None else memo
    i = e.get_id()
    if i not in memo:
        if z3.is_quantifier(e) or z3.is_var(e) or not e.num_args():
            memo[i] = e.sexpr()
        else:
            a = [canon(c, memo) for c in e.children()]
            if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                a.sort()
            memo[i] = '(%s %s)' % (e.decl().sexpr() if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else e.decl().name(), ' '.join(a))
    return memo[i]


def sub_e(e, pairs):
    if not pairs:
        return e
    return z3.substitute(e, *pairs)


def subst(v, pairs):
    if not pairs:
        return v
    if isinstance(v, Scal):
        e = sub_e(v.e, pairs)
        return Scal(e)
    if isinstance(v, Ref):
        if not v.idx:
            return v
        return Ref(v.fam, [sub_e(i, pairs) for i in v.idx])
    if isinstance(v, Seq):
        view = None
        if v.view is not None:
            view = (subst(v.view[0], pairs), sub_e(v.view[1], pairs))
        info = v.info
        if info is not None:
            info = ('range', sub_e(info[1], pairs), sub_e(info[2], pairs)) if info[0] == 'range' else None
        return Seq(v.kind, sub_e(v.n, pairs), v.x, subst(v.body, pairs),
                   sub_e(v.cid, pairs) if v.cid is not None else None, view, info)
    if isinstance(v, SeqC):
        return SeqC(v.kind, [subst(i, pairs) for i in v.items], sub_e(v.cid, pairs) if v.cid is not None else None)
    if isinstance(v, Union):
        return mk_union([(z3.simplify(sub_e(g, pairs)), subst(w, pairs)) for g, w in v.alts])
    if isinstance(v, SetV):
        return SetV(subst(v.seq, pairs))
    if isinstance(v, Bound):
        return Bound(v.f, subst(v.self, pairs))
    if isinstance(v, Hole):
        return Hole(v.loc, [sub_e(i, pairs) for i in v.idx])
    if isinstance(v, MapV):
        return MapV(v.x, sub_e(v.dom, pairs), subst(v.body, pairs), v.n)
    if isinstance(v, AnyV):
        return v
    return v


def vsimp(v):
    """simplify z3 leaves"""
    if isinstance(v, Scal):
        return Scal(simp(v.e))
    if isinstance(v, Ref):
        return Ref(v.fam, [simp(i) for i in v.idx])
    if isinstance(v, Seq):
        return Seq(v.kind, simp(v.n), v.x, vsimp(v.body), v.cid, v.view, v.info)
    if isinstance(v, SeqC):
        return SeqC(v.kind, [vsimp(i) for i in v.items], v.cid)
    if isinstance(v, Union):
        return mk_union([(simp(g), vsimp(w)) for g, w in v.alts])
    return v


def leaves(v, out):
    """all z3 terms of a value"""
    if isinstance(v, Scal):
        out.append(v.e)
    elif isinstance(v, Ref):
        out.extend(v.idx)
    elif isinstance(v, Seq):
        out.append(v.n)
        leaves(v.body, out)
        if v.cid is not None:
            out.append(v.cid)
    elif isinstance(v, SeqC):
        for i in v.items:
            leaves(i, out)
        if v.cid is not None:
            out.append(v.cid)
    elif isinstance(v, Union):
        for g, w in v.alts:
            out.append(g)
            leaves(w, out)
    elif isinstance(v, SetV):
        leaves(v.seq, out)
    elif isinstance(v, Hole):
        out.extend(v.idx)
    elif isinstance(v, Bound):
        leaves(v.self, out)
    return out


def syms_of_expr(e, acc=None, seen=None):
    """names of uninterpreted constants and functions in a z3 term"""
    if acc is None:
        acc, seen = set(), set()
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_var(t):
            continue
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(d.name())
        stack.extend(t.children())
    return acc


def syms(v):
    acc, seen = set(), set()
    for e in leaves(v, []):
        syms_of_expr(e, acc, seen)
    return acc


def seq_len(s):
    return num(len(s.items)) if isinstance(s, SeqC) else s.n


def seq_get(s, i):
    """element at z3 Int i (no bounds check)"""
    if isinstance(s, SeqC):
        si = simp(i)
        if z3.is_int_value(si):
            j = si.as_long()
            if 0 <= j < len(s.items):
                return s.items[j]
            return UNDEF
        s = to_seq(s)
    return subst(s.body, [(s.x, i)])
