"""Binary numbers: shifts, exclusive or, binary notation and reading it back, for numbers >= 0.

Everything is built on two functions, shr(v, p) = v // 2**p and bit(v, p) = bit p of v; the facts used are the theorems of
lemmas/Lemmas.lean (section bits)."""
import ast
import z3
from .values import *
from .core import *

shr = z3.Function('shr', INT, INT, INT)
bit = z3.Function('bit', INT, INT, BOOL)
xor = z3.Function('xor', INT, INT, INT)
blen = z3.Function('blen', INT, INT)       # digits of the binary notation of v >= 0
ginv = z3.Function('ginv', INT, INT)       # the number whose Gray code is given
tz = z3.Function('tz', INT, INT)           # trailing ones


def b2i(c):
    return If(c, num(1), num(0))


def gray(v):
    return xor(v, shr(v, num(1)))


def axioms(e):
    if getattr(e, 'bits_known', False):
        return
    e.bits_known = True
    A = lambda vs, g, b, p: e.S.axiom(Fact(vs, g, b, pats=p))
    v, p, q, a, b, c, n = z3.Ints('bv bp bq ba bb bc bn')
    p2 = e.pow2
    A((v,), T, shr(v, num(0)) == v, [shr(v, num(0))])
    A((v, p, q), q == p + 1, Implies(And(v >= 0, p >= 0), shr(v, p) == 2 * shr(v, q) + b2i(bit(v, p))), [(shr(v, p), shr(v, q))])
    A((v, p), And(v >= 0, p >= 0), shr(v, p) == 2 * shr(v, p + 1) + b2i(bit(v, p)), [bit(v, p)])
    A((v,), v >= 0, v == 2 * shr(v, num(1)) + b2i(bit(v, num(0))), [shr(v, num(1))])
    A((v, p), And(v >= 0, p >= 0), And(shr(v, p) >= 0, shr(v, p) <= v), [shr(v, p)])
    A((v, p), And(v >= 0, p >= 0), (shr(v, p) == 0) == (v < p2(p)), [(shr(v, p), p2(p))])
    A((v, a), And(v >= 0, a >= 0), shr(shr(v, a), num(1)) == shr(v, a + 1), [shr(shr(v, a), num(1))])
    A((v,), v >= 0, And(blen(v) >= 1, v < p2(blen(v)), Implies(v > 0, p2(blen(v) - 1) <= v), Implies(v == 0, blen(v) == 1)), [blen(v)])
    A((v, p), And(v >= 0, p >= blen(v)), And(Not(bit(v, p)), shr(v, p) == 0), [(bit(v, p), blen(v))])


def xor_axioms(e):
    axioms(e)
    if getattr(e, 'xor_known', False):
        return
    e.xor_known = True
    A = lambda vs, g, b, p: e.S.axiom(Fact(vs, g, b, pats=p))
    v, p, a, b, c, n = z3.Ints('xv xp xa xb xc xn')
    p2 = e.pow2
    A((a, b), And(a >= 0, b >= 0), And(xor(a, b) >= 0, (xor(a, b) == 0) == (a == b)), [xor(a, b)])
    A((a, b), And(a >= 0, b == 0), xor(a, b) == a, [xor(a, b)])
    A((a, b), And(a == 0, b >= 0), xor(a, b) == b, [xor(a, b)])
    A((a, b, n), And(a >= 0, b >= 0, n >= 0, a < p2(n), b < p2(n)), xor(a, b) < p2(n), [(xor(a, b), p2(n))])


def gray_axioms(e):
    """Gray code (theorems gray_*): v -> v xor v // 2 has the inverse ginv on the numbers >= 0 and on the numbers below 2**n"""
    xor_axioms(e)
    if getattr(e, 'gray_known', False):
        return
    e.gray_known = True
    A = lambda vs, g, b, p: e.S.axiom(Fact(vs, g, b, pats=p))
    v, g, n = z3.Ints('gv gg gn')
    A((g,), g >= 0, And(ginv(g) >= 0, gray(ginv(g)) == g), [ginv(g)])
    A((v,), v >= 0, ginv(gray(v)) == v, [gray(v)])
    A((g, n), And(g >= 0, n >= 0), (ginv(g) < e.pow2(n)) == (g < e.pow2(n)), [(ginv(g), e.pow2(n))])
    k, a, b = z3.Ints('gk ga gb')
    A((g, k, a), And(g >= 0, k >= 0, a == xor(ginv(g), shr(ginv(g), k))), xor(a, shr(g, k)) == xor(ginv(g), shr(ginv(g), k + 1)), [(ginv(g), xor(a, shr(g, k)))])
    A((g, k), And(g >= 0, k >= 0), (shr(g, k) == 0) == (shr(ginv(g), k) == 0), [(ginv(g), shr(g, k)), shr(ginv(g), k)])


def adjacent(e, v):
    """Gray codes of v and v + 1 differ in exactly one bit (theorem gray_adjacent)"""
    gray_axioms(e)
    e.S.facts.append(Fact((), v >= 0, And(tz(v) >= 0, xor(gray(v), gray(v + 1)) == e.pow2(tz(v)))))


def bitop(e, st, op, a, b, node):
    x, y = e.arith(a), e.arith(b)
    if x.sort() != INT or y.sort() != INT:
        e.do_raise(st, TypeError, node)
    xor_axioms(e)
    if not e.guessing and not e.prove(st, And(x >= 0, y >= 0)):
        raise Unsupported('bit operation on a possibly negative number')
    x, y = simp(x), simp(y)
    if isinstance(op, ast.RShift):
        return Scal(simp(shr(x, y)))
    if isinstance(op, ast.LShift):
        return Scal(simp(x * e.pow2(y)))
    if isinstance(op, ast.BitXor):
        return Scal(x if z3.is_int_value(y) and y.as_long() == 0 else y if z3.is_int_value(x) and x.as_long() == 0 else xor(x, y))
    if isinstance(op, ast.BitAnd) and z3.is_int_value(y) and y.as_long() == 1:
        return Scal(b2i(bit(x, num(0))))
    raise Unsupported('bit operation')


def digits(e, st, v):
    """the binary notation of v >= 0"""
    axioms(e)
    v = simp(v)
    if not e.guessing and not e.prove(st, v >= 0):
        raise Unsupported('binary notation of a possibly negative number')
    if not e.guessing:
        e.coded.append((v, list(e.ks), And(*st.pc)))
    x = fresh_int('bd')
    return Seq('str', blen(v), x, Scal(If(bit(v, blen(v) - 1 - x), e.sc('1'), e.sc('0'))))


def b_bin(e, st, args, kw, node):
    d = digits(e, st, e.arith(args[0]))
    q = e.concat(st, SeqC('str', [Str('0'), Str('b')]), d, 'str')
    q.info = ('bin', d)
    return q


def b_int2(e, st, args, kw, node):
    """int(s, 2): the number with these binary digits, by prefixes"""
    axioms(e)
    base = simp(e.arith(args[1] if len(args) > 1 else kw['base']))
    if not (z3.is_int_value(base) and base.as_long() == 2):
        raise Unsupported('int with another base')
    if isinstance(args[0], Union):
        return e.split(st, args[0], lambda s, v: b_int2(e, s, [v] + list(args[1:]), kw, node))
    q = e.as_seq(st, args[0])
    n = seq_len(q)
    if isinstance(q, SeqC):
        q = to_seq(q)
    x = z3.Int('wx~%d' % e.pathid())
    s2 = st.copy()
    s2.add(And(x >= 0, x < n))
    el = e.as_gene(s2, prune(seq_get(q, x)))
    one, zero = e.sc('1'), e.sc('0')
    if not e.prove(st, n >= 1):
        e.raise_if(st, n <= 0, ValueError, node)
    if not e.prove(s2, Or(el == one, el == zero), RL_MED):
        raise Unsupported('int(s, 2) of something that may not be binary digits')
    W = e.ufun('word', [INT], INT, node)
    d = lambda m: b2i(sub_e(el, [(x, m)]) == one)
    g = And(*st.pc)
    a, b = z3.Int('wa~%d' % e.pathid()), z3.Int('wb~%d' % e.pathid())
    A = e.S.facts.append
    A(Fact((), g, W(num(0)) == 0))
    A(Fact((a, b), And(g, b == a + 1, a >= 0, b <= n), W(b) == 2 * W(a) + d(a), pats=[(W(a), W(b))]))
    A(Fact((a,), And(g, a >= 0, a <= n), And(W(a) >= 0, W(a) < e.pow2(a)), pats=[W(a)]))
    if not e.guessing:
        e.words.append((W(num(0)).decl(), list(e.ks), n, lambda m: sub_e(el, [(x, m)]), g))
    return Scal(W(n))
