import ast
import os
from .common import *
from .c02 import mut_env
from .c04 import pools
from pyvc.harness import REPO
from baumeva.ga import *

COMB = (SwapMutation, InversionMutation, MovementMutation, ShiftMutation)
ALL = COMB + (BinStringMutation, CategoricalMutation)
NAMES = ('weak', 'normal', 'strong')
RATES = {'weak': (3, 100), 'normal': (1, 10), 'strong': (3, 10)}
PER_GENE = {'weak': (3, 10), 'normal': (1, 1), 'strong': (3, 1)}


def strings():
    """every string constant of the code: together with 'any other string' these are all strings"""
    out = set()
    for d, _, fs in os.walk(os.path.join(REPO, 'baumeva')):
        for f in fs:
            if f.endswith('.py'):
                for n in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str):
                        out.add(n.value)
    return sorted(out - set(NAMES))


def validation(cls):
    def run():
        h = H('%s.__init__' % cls.__name__)
        e = h.e

        def attempt(v, what, ok):
            """ok: condition under which the level must be accepted"""
            saved = h.st
            h.st = saved.copy()
            e.sinks[0] = []
            dead = False
            try:
                h.call(cls, v)
            except Dead:
                dead = True
            if is_true(ok):
                h.check(not dead, '%s is accepted' % what)
            elif is_false(ok):
                if not dead:
                    h.check(F, '%s is rejected' % what)
                else:
                    h.check(T, '%s is rejected' % what)
            elif not dead:
                h.check(ok, '%s: accepted only if valid' % what)
            else:
                h.check(F, '%s: accepted if valid' % what)
            for s, exc, where in e.sinks[0]:
                e.obligation(s, Not(ok), '%s: rejected only if invalid' % what)
            e.sinks[0] = []
            h.st = saved
        x, n, b = h.real('level'), h.int('ilevel'), z3.Bool('blevel')
        attempt(Scal(x), 'a float', And(x >= 0, x <= 1))
        for s in NAMES:
            attempt(Str(s), repr(s), T)
        for s in strings():
            attempt(Str(s), repr(s[:30]), F)
        attempt(OtherStr('any other name'), 'any other string', F)
        attempt(Scal(n), 'an int', F)
        attempt(Scal(b), 'a bool', F)
        attempt(NONE, 'None', F)
        attempt(SeqC('tuple', []), 'a tuple', F)
        h.vacuity()
        return h
    run.cname = cls.__name__ + '.init'
    return run


def ints_of(t, keep, avoid):
    """integer subterms of t that do not mention `avoid`"""
    out, seen, stack = {}, set(), [t]
    av = avoid.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if x.sort() == INT and av not in consts_in(x):
            out[x.get_id()] = x
        stack.extend(x.children())
    return list(out.values())


def setup(cls, h, again):
    """-> ga, child family, children, earlier children, C, number of genes term, alternatives(j)"""
    e = h.e
    C, C0, n = h.int('C'), h.int('C0'), h.int('genes')
    h.assume(And(C >= 0, C0 >= 0, n >= (3 if cls in COMB else 1)))
    keys = BIN_KEYS if cls is BinStringMutation else CAT_KEYS
    chs = [members(h, 'child', C, n, keys)] + ([members(h, 'earlier', C0, n, keys)] if again else [])
    if cls in COMB:
        pc, attrs, alt = OrderCatPopulation, {}, None
        for f in chs:
            inv = h.fun('inv' + f.name, INT, Gene, INT)
            h.forall_assume(lambda a, b: (And(b >= 0, b < n), inv(a, f.G(a, b)) == b, [f.G(a, b)]), 2)
    elif cls is BinStringMutation:
        z, o = e.sc('0'), e.sc('1')
        for f in chs:
            h.forall_assume(lambda a, b: (And(b >= 0, b < n), Or(f.G(a, b) == z, f.G(a, b) == o), [f.G(a, b)]), 2)
        ng, nb = h.int('ngens'), h.fun('offset', INT, INT)
        h.assume(And(ng >= 1, nb(ng) == n))
        pc, attrs = BinaryPopulation, {'idx_bits': h.list('idx_bits', ng + 1, lambda x: Scal(nb(x)))}
        alt = lambda j: T
    else:
        gens, pf, inside, isl, m, (a, b, s), V = pools(h, n)
        for f in chs:
            h.forall_assume(lambda p, q: (And(q >= 0, q < n), inside(q, f.G(p, q)), [f.G(p, q)]), 2)
        pc, attrs = CatPopulation, {'gens': gens}
        alt = lambda j: Not(Or(And(isl(j), m(j) == 1), And(Not(isl(j)), a(j) + s(j) > b(j))))
    pop = population(h, 'population', pc, num(0), chs[0], **attrs)
    lists = [population(h, f.name + ' list', pc, c, f) for f, c in zip(chs, (C, C0))]
    ga = h.obj('ga_data', GaData, population=pop, parents=NONE, children=lists[-1])
    return ga, chs[0], lists[0], C, n, alt


def level(cls, lv, again=False):
    def run():
        h = H('%s.execute at level %s%s' % (cls.__name__, lv, ' in a later generation' if again else ''))
        e = h.e
        ga, ch, chl, C, n, alt = setup(cls, h, again)
        if lv in NAMES:
            arg = Str(lv)
            p, q = (RATES if cls in COMB else PER_GENE)[lv]
            rate = z3.RealVal(p) / z3.RealVal(q)
            if cls not in COMB:
                rate = rate / z3.ToReal(n)
        elif lv == 'any':
            rate = h.real('level')
            h.assume(And(rate >= 0, rate <= 1))
            arg = Scal(rate)
        else:
            arg, rate = Scal(z3.RealVal(lv)), None
        op = h.call(cls, arg)
        if again:
            h.method(op, 'execute', ga)
            h.st.heap[(ga.fam.id, 'children')] = Cell((), chl)
            e.draws.clear()
        h.method(op, 'execute', ga)
        i, j = h.int('i'), h.int('j')
        rng = [i >= 0, i < C] + ([] if cls in COMB else [j >= 0, j < n])

        def hits():
            """the decision draws of this child / gene, and the condition under which the rate says 'mutate'"""
            out = []
            for kind, t, lo, hi in e.draws.values():
                args = [t.arg(k) for k in range(t.num_args())]
                want = 1 if cls in COMB else 2
                if len(args) != want:
                    continue
                tt = t.decl()(*([i] if cls in COMB else [i, j]))
                if kind == 'unit':
                    out.append(tt < rate)
                elif z3.is_int_value(simp(lo)) and z3.is_int_value(simp(hi)):
                    sp = simp(hi).as_long() - simp(lo).as_long() + 1
                    out.append(z3.ToReal(tt - lo) < rate * sp)
            return out

        def same():
            g = h.get(Ref(ch, (i,)), 'genotype')
            return And(h.len(g) == n, e.as_gene(h.st, h.item(g, j)) == ch.G(i, j))

        def differs():
            g = h.get(Ref(ch, (i,)), 'genotype')
            if cls not in COMB:
                return Or(Not(alt(j)), e.as_gene(h.st, h.item(g, j)) != ch.G(i, j))
            k = fresh_int('pos')
            t = e.as_gene(h.st, h.item(g, k))
            cs = ints_of(t, None, k)
            return Or(*[And(c >= 0, c < n, z3.substitute(t, (k, c)) != ch.G(i, c)) for c in cs])
        full = [i >= 0, i < C, j >= 0, j < n]
        if lv == 0:
            h.check_scoped(full, same, 'level 0.0 changes nothing')
        elif lv == 1:
            h.check_scoped(rng, differs, 'level 1.0 mutates every child' if cls in COMB else 'level 1.0 changes every gene with an alternative')
        else:
            hs = hits()
            if not hs:
                h.check(F, 'one random draw decides every mutation')
            good = None
            for c in hs:          # the draw that decides is the one for which both directions hold
                s0, q0 = h.st, len(e.obls)
                e.full_timeout = 4
                h.check_scoped(full + [Not(c)], same, 'unchanged when the draw is not below rate * range')
                if all(o.ok for o in e.obls[q0:]):
                    h.check_scoped(rng + [c], differs, 'mutated when the draw is below rate * range')
                if all(o.ok for o in e.obls[q0:]):
                    good = c
                    break
                if c is not hs[-1]:
                    del e.obls[q0:]
        h.no_raise()
        h.vacuity()
        return h
    run.cname = '%s@%s' % (cls.__name__, lv)
    return run


CONTRACTS = [validation(c) for c in ALL] + [level(c, v) for c in ALL for v in (0, 1, 'any', 'weak', 'normal', 'strong')] + \
    [level(c, v, True) for c in ALL for v in ('any', 'weak')]
