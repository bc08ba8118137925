import inspect
from .common import *
from baumeva.ga import *
from baumeva.ga.fitness.multi_fitness import MultiFitness

PEN = {'dynamic': DynamicPenalty, 'adaptive': AdaptivePenalty, 'static': StaticPenalty}


def apps_of(v, names):
    """first application of one of the functions in a value"""
    stack = [v]
    while stack:
        w = stack.pop()
        if isinstance(w, Union):
            stack += [x for g, y in w.alts for x in (y, g)]
        elif isinstance(w, Seq):
            stack += [w.body]
        elif isinstance(w, SeqC):
            stack += list(w.items)
        elif isinstance(w, Scal):
            stack += [w.e]
        elif isinstance(w, z3.ExprRef) and not z3.is_quantifier(w):
            if w.num_args() and w.decl().name() in names:
                return w
            stack += w.children()
    return None


class Env:
    """a population with evaluated and not yet evaluated members, an objective function that records its calls"""

    counting = True     # record how often each individual is passed to the objective function

    def __init__(self, h, cls, keys, multi, ret, data, ncond=None, t='', like=None):
        self.h, self.t = h, t
        e = h.e
        self.N, self.L, self.D = h.int(t + 'N'), h.int(t + 'L'), h.int('ngens')
        h.assume(And(self.N >= 0, self.L >= 0, self.D >= 0))
        N = self.N
        self.fresh = h.fun(t + 'unevaluated', INT, BOOL)
        self.fams = []
        f = self.mem = h.fam(t + 'member', 'dict', 1)
        x = f.xs[0]
        f.range = And(x >= 0, x < N)
        gf, self.G = genes(h, t + 'member', self.L)
        gf.range = And(gf.xs[0] >= 0, gf.xs[0] < N)
        self.gf = gf
        self.bin = 'phenotype' in keys
        self.Dec = h.fun(t + 'decoded', INT, INT, REAL)
        self.M = M = h.int('nobj') if multi else num(1)
        if multi:
            h.assume(M >= 1)
        self.S, self.O, self.F = (h.fun(t + a, *(([INT, INT] if multi else [INT]) + [REAL])) for a in ('old.score', 'old.obj', 'old.x'))
        self.S1 = h.fun(t + 'old.score1', INT, REAL)
        self.Fe = h.fun(t + 'old.feasible', INT, BOOL)
        isn = self.fresh(x)
        self.lists = []

        def old(name, fn, listy):
            if not listy:
                return Union([(isn, NONE), (Not(isn), Scal(fn(x)))])
            lf = h.fam(t + 'old_' + name, 'list', 1)
            lf.range = And(lf.xs[0] >= 0, lf.xs[0] < N)
            y = fresh_int('y')
            h.cell(lf, '@', Seq('list', M, y, Scal(fn(lf.xs[0], y))))
            self.lists.append(lf)
            return Union([(isn, NONE), (Not(isn), Ref(lf, (x,)))])
        for k in keys:
            if k == 'genotype':
                h.cell(f, k, Ref(gf, (x,)))
            elif k == 'phenotype':
                pf = self.pf = h.fam(t + 'member.phen', 'list', 1)
                pf.range = And(pf.xs[0] >= 0, pf.xs[0] < N)
                y = fresh_int('y')
                h.cell(pf, '@', Seq('list', self.D, y, Scal(self.Dec(pf.xs[0], y))))
                und = h.fun(t + 'undecoded', INT, BOOL)
                h.cell(f, k, Union([(und(x), NONE), (Not(und(x)), Ref(pf, (x,)))]))
                self.lists.append(pf)
            elif k == 'score':
                h.cell(f, k, old('score', self.S if multi != 'rank' else self.S1, multi == 'list'))
            elif k == 'obj_score':
                h.cell(f, k, old('obj_score', self.O, bool(multi)))
            elif k == 'feasible':
                h.cell(f, k, Scal(Or(isn, self.Fe(x))))
            elif k == 'idx_individ':
                h.cell(f, k, Scal(h.fun(t + 'idx', INT, INT)(x)))
            elif k == 'rank':
                h.cell(f, k, Scal(h.fun(t + 'old.rank', INT, INT)(x)))
        self.pop = population(h, t + 'population', cls, N, f, is_phenotype=Scal(z3.BoolVal(self.bin)), is_sorted=Scal(z3.BoolVal(False)))
        self.calls = h.fam(t + 'calls', 'obj', 1)
        h.cell(self.calls, 'n', Scal(num(0)))
        self.data = Opq('input_data', None) if data == 'object' else data
        self.NV = num(1) if ncond is None else ncond
        self.V = h.fun(t + 'value', INT, INT, REAL)
        self.ret = ret
        self.like = like      # an earlier population evaluated with the same objective function
        self.fn = Opq('objective', self.objective)
        if self.bin:
            for c in (BinaryPopulation, BinaryGrayPopulation):
                e.contracts[vars(c)['binary_individ_to_float']] = self.decode
        self.gen = h.int(t + 'gen')
        h.assume(self.gen >= 0)
        self.best = h.fam(t + 'best', 'dict', 0)
        h.cell(self.best, 'feasible', Scal(z3.Bool(t + 'best_feasible')))
        h.cell(self.best, 'score', Scal(h.real(t + 'best_score')))
        self.ga = h.obj(t + 'ga_data', MultiGaData if multi else GaData, population=self.pop, idx_generation=Scal(self.gen), best_solution=Ref(self.best))

    # ------------------------------------------------------------ contracts of what the code calls
    def owner(self, st, v, names):
        """the individual a value belongs to"""
        if isinstance(v, Union):
            out = [(g, self.owner(st, w, names)) for g, w in v.alts if w is not NONE]
            r = out[-1][1]
            for g, o in reversed(out[:-1]):
                r = If(g, o, r)
            return r
        if isinstance(v, Ref) and (v.fam is self.gf or self.bin and v.fam is self.pf):
            return v.idx[0]
        q = self.h.e.as_seq(st, v)
        a = apps_of(q, [self.t + x for x in names])
        if a is None:
            raise Unsupported('cannot tell whose genes %r are' % (v,))
        return a.arg(0)

    def mine(self, st, v, names):
        if self.like is None:
            return True
        try:
            self.like.owner(st, v, names)
            return False
        except Unsupported:
            return True

    def decode(self, e, st, args, kw, n):
        """contract of binary_individ_to_float (C07): the decoded values of these genes, the genes unchanged"""
        g = args[1] if len(args) > 1 else kw['genotype']
        if not self.mine(st, g, ('member.g',)):
            return self.like.decode(e, st, args, kw, n)
        i = self.owner(st, g, ('member.g',))
        e.obligation(st, e.eq(st, g, Ref(self.gf, (i,))), 'the genes of one individual are decoded', n)
        r = e.alloc(st, 'list', n, 'decoded')
        y = fresh_int('y')
        e.put(st, r, '@', Seq('list', self.D, y, Scal(self.Dec(i, y))))
        return r

    def expected(self, i):
        """what the objective function must see for individual i"""
        y = fresh_int('y')
        return Seq('list', self.D, y, Scal(self.Dec(i, y))) if self.bin else Ref(self.gf, (i,))

    def objective(self, e, st, args, kw, n):
        if args and not self.mine(st, args[-1], ('decoded', 'member.g')):
            return self.like.objective(e, st, args, kw, n)
        want = 1 if self.data is NONE else 2
        e.obligation(st, z3.BoolVal(len(args) == want and not kw), 'the objective function gets its arguments', n)
        if want == 2:
            d = self.data
            e.obligation(st, e.identical(st, args[0], d) if isinstance(d, Opq) else e.eq(st, args[0], d), 'the extra input is passed on', n)
        g = args[-1]
        i = self.owner(st, g, ('decoded', 'member.g'))
        e.obligation(st, And(i >= 0, i < self.N), 'the objective function sees a member of the population', n)
        e.obligation(st, e.eq(st, g, self.expected(i)), 'the objective function sees the decoded values of the individual', n)
        if self.counting:
            c = Ref(self.calls, (i,))
            e.put(st, c, 'n', Scal(e.rd(st, c, 'n').e + 1))
        if self.ret == 'number':
            return Scal(self.V(i, num(0)))
        y = fresh_int('y')
        return Seq(self.ret, self.NV, y, Scal(self.V(i, y))) if self.ret == 'tuple' else self.as_list(e, st, n, Seq('list', self.NV, y, Scal(self.V(i, y))))

    def as_list(self, e, st, n, q):
        r = e.alloc(st, 'list', n, 'values')
        e.put(st, r, '@', q)
        return r


def conditional(h, env_ncond, multi):
    """the user's conditions: 'optimize' at position p (single) with the others '<=' or '!='"""
    e = h.e
    n, c, p = env_ncond, h.fun('condition', INT, Gene), h.int('opt_at')
    opt = e.sc('optimize')
    le, ne = e.sc('<='), e.sc('!=')
    h.assume(And(n >= 2, p >= 0, p < n, c(p) == opt))
    h.forall_assume(lambda i: (And(i >= 0, i < n, i != p), Or(c(i) == le, c(i) == ne), [c(i)]))
    return h.list('conditions', n, lambda x: Scal(c(x))), c, p


class PenaltyEnv:
    """contract of penalty.execute as the fitness sees it; result Pen(i) >= 0"""

    def __init__(self, env, cls, c, p, n, like=None):
        self.like = like
        h, e = env.h, env.h.e
        self.env, self.c, self.p, self.n = env, c, p, n
        self.Pen = h.fun(env.t + 'penalty_of', INT, REAL)
        h.forall_assume(lambda i: (T, self.Pen(i) >= 0, [self.Pen(i)]))
        self.obj = h.obj('penalty', cls) if like is None else like.obj
        self.sig = inspect.signature(cls.execute)
        for k in cls.__mro__:
            if 'execute' in vars(k) and k.__module__.startswith('baumeva'):
                e.contracts[vars(k)['execute']] = self.execute

    def execute(self, e, st, args, kw, n):
        env, c, p = self.env, self.c, self.p
        names = ['self', 'conditionals', 'values']
        kw = dict(kw, **dict(zip(names, args)))
        if not self.env.mine(st, kw['values'], ('value',)):
            return self.like.execute(e, st, [], kw, n)
        try:
            bound = self.sig.bind(**kw).arguments
        except TypeError:
            bound = {}
        e.obligation(st, z3.BoolVal(bool(bound) and all(k in bound for k in ('iter_generation', 'best_individ') if k in self.sig.parameters)),
                     'the penalty gets the arguments it takes', n)
        vals = e.as_seq(st, kw['values'])
        conds = e.as_seq(st, kw['conditionals'])
        i = env.owner(st, kw['values'], ('value',))
        j = self.e_j = e.sym('pj', INT, n)
        s2 = st.copy()
        s2.add(And(j >= 0, j < self.n - 1))
        src = If(j < p, j, j + 1)
        e.obligation(st, And(seq_len(vals) == self.n - 1, seq_len(conds) == self.n - 1), 'the penalty sees one value for every condition', n)
        e.obligation(s2, e.eq(s2, seq_get(vals, j), Scal(env.V(i, src))), 'the penalty sees the values of the conditions in order', n)
        e.obligation(s2, e.as_gene(s2, seq_get(conds, j)) == self.c(src), 'the penalty sees the conditions in order', n)
        if 'iter_generation' in kw:
            e.obligation(st, e.eq(st, kw['iter_generation'], Scal(env.gen)), 'the penalty sees the generation number', n)
        if 'best_individ' in kw:
            e.obligation(st, e.identical(st, kw['best_individ'], Ref(env.best)), 'the penalty sees the best solution', n)
        return Scal(self.Pen(i))


def hyperbola(cls, keys, ret, data, target, pen=None, again=False):
    nm = '%s, objective returns a %s%s%s%s' % (cls.__name__, ret, '' if data == 'none' else ', extra input', ', target' if target else '', ', %s penalty' % pen if pen else '') + (', used before' if again else '')

    def run():
        h = H('HyperbolaFitness.execute on ' + nm)
        e = h.e
        n = h.int('nconditions') if pen else num(1)
        d = {'object': 'object', 'zero': Scal(num(0)), 'none': NONE}[data]
        env0 = Env(h, cls, keys, False, ret, d, n, 'earlier ') if again else None
        env = Env(h, cls, keys, False, ret, d, n, like=env0)
        pe, kw, own, p = None, {}, [], num(0)
        if pen:
            conds, c, p = conditional(h, n, False)
            pe = PenaltyEnv(env, PEN[pen], c, p, n, PenaltyEnv(env0, PEN[pen], c, p, n) if again else None)
            kw = dict(penalty=pe.obj, conditions=conds)
            own = [conds.fam]
        tv = h.real('target')
        fit = h.call(HyperbolaFitness, env.fn, obj_value=Scal(tv) if target else NONE, input_data=NONE if d is NONE else env.data, **kw)
        if again:
            h.earlier(fit, 'execute', env0.ga)
        pre = h.st.copy()
        h.method(fit, 'execute', env.ga)
        i = h.int('i')
        rng = [i >= 0, i < env.N]
        m = Ref(env.mem, (i,))
        obj = lambda: env.V(i, p)
        penalty = pe.Pen(i) if pe else num(0)
        fit_of = lambda: 1 / (1 + absr(tv - obj()) + penalty) if target else -(obj() + penalty)
        h.check_scoped(rng, lambda: h.get(Ref(env.calls, (i,)), 'n').e == If(env.fresh(i), num(1), num(0)), 'one call for every unevaluated individual and none for the others')
        h.check_scoped(rng + [env.fresh(i)], lambda: [('objective value', e.eq(h.st, h.get(m, 'obj_score'), Scal(obj()))),
                                                     ('fitness', e.eq(h.st, h.get(m, 'score'), Scal(fit_of())))], 'newly evaluated')
        h.check_scoped(rng + [Not(env.fresh(i))], lambda: [('objective value kept', e.eq(h.st, h.get(m, 'obj_score'), Scal(env.O(i)))),
                                                          ('fitness kept', e.eq(h.st, h.get(m, 'score'), Scal(env.S(i)))),
                                                          ('feasibility kept', e.truth(h.st, h.get(m, 'feasible')) == env.Fe(i))], 'evaluated before')
        places(h, env, m, rng, pre, own)
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'hyp-%s-%s-%s-%s-%s-%s' % (cls.__name__, ret, data, target, pen, again)
    return run


def absr(x):
    return If(x >= 0, x, -x)


def places(h, env, m, rng, pre, own):
    e = h.e
    i = rng[1].arg(0)
    P = h.get(env.ga, 'population')
    h.check(e.identical(h.st, P, env.pop), 'the population stays the same object')
    h.check(h.len(P) == env.N, 'nobody joins or leaves')
    h.check_scoped(rng, lambda: e.identical(h.st, h.item(P, i), m), 'the order stays')
    h.check_scoped(rng, lambda: e.identical(h.st, h.get(m, 'genotype'), Ref(env.gf, (i,))), 'the genes are in their place')
    if env.bin:
        h.check_scoped(rng, lambda: e.eq(h.st, h.get(m, 'phenotype'), env.expected(i)), 'the decoded values are in their place')
    h.unchanged([env.gf, env.best] + env.lists + own, pre, 'frame')


def ranks(env):
    """contract of MultiFitness.assign_ranks (C15): every member gets a rank of at least 1, nothing else changes"""
    h, e = env.h, env.h.e
    env.R = h.fun(env.t + 'new.rank', INT, INT)
    h.forall_assume(lambda i: (T, env.R(i) >= 1, [env.R(i)]))

    def contract(e, st, args, kw, n):
        st.heap[(env.mem.id, 'rank')] = Cell(env.mem.xs, Scal(env.R(env.mem.xs[0])))
        e.log.append((env.mem, 'rank', env.mem.xs))
        return NONE
    e.contracts[vars(MultiFitness)['assign_ranks']] = contract


def multi(fc, cls, ret, data, target, again=False):
    nm = '%s.execute on %s, objective returns a %s%s%s' % (fc.__name__, cls.__name__, ret, '' if data == 'none' else ', extra input', ', target' if target else '') + (', used before' if again else '')

    def run():
        h = H(nm)
        e = h.e
        d = {'object': 'object', 'zero': Scal(num(0)), 'none': NONE}[data]
        vega = fc is VEGAHyperbolaFitness
        env0 = Env(h, cls, BIN_KEYS + ('rank',), 'list' if vega else 'rank', ret, d, t='earlier ') if again else None
        env = Env(h, cls, BIN_KEYS + ('rank',), 'list' if vega else 'rank', ret, d, like=env0)
        for v in (env0, env):
            if v is not None:
                v.NV = v.M
        if again:
            ranks(env0)
        tv = h.fun('target', INT, REAL)
        tl = h.list('targets', env.M, lambda x: Scal(tv(x)))
        fit = h.call(fc, env.fn, obj_value=tl if target else NONE, input_data=NONE if d is NONE else env.data)
        if again:
            h.earlier(fit, 'execute', env0.ga)
        ranks(env)
        pre = h.st.copy()
        h.method(fit, 'execute', env.ga)
        multi_post(h, env, vega, target, tv, lambda i, k: env.V(i, k), lambda i: num(0), pre, [tl.fam])
        return h
    run.cname = 'multi-%s-%s-%s-%s-%s-%s' % (fc.__name__, cls.__name__, ret, data, target, again)
    return run


def multi_post(h, env, vega, target, tv, value, penalty, pre, own):
    e = h.e
    i, k = h.int('i'), h.int('k')
    rng = [i >= 0, i < env.N]
    rk = rng + [k >= 0, k < env.M]
    m = Ref(env.mem, (i,))
    fit_of = lambda: 1 / (1 + absr(tv(k) - value(i, k)) + penalty(i)) if target else -(value(i, k) + penalty(i))
    new = [env.fresh(i)]
    h.check_scoped(rk + new, lambda: [('number of objective values', h.len(h.get(m, 'obj_score')) == env.M),
                                      ('objective values in order', e.eq(h.st, h.item(h.get(m, 'obj_score'), k), Scal(value(i, k))))], 'newly evaluated')
    if vega:
        h.check_scoped(rk + new, lambda: [('one fitness per objective', h.len(h.get(m, 'score')) == env.M),
                                          ('fitness', e.eq(h.st, h.item(h.get(m, 'score'), k), Scal(fit_of())))], 'newly evaluated')
    else:
        h.check_scoped(rng, lambda: e.eq(h.st, h.get(m, 'score'), Scal(1 / (1 + z3.ToReal(env.R(i))))), 'fitness from the current rank')
    x = env.mem.xs[0]
    for key in ('obj_score',) + (('score',) if vega else ()):
        o = subst(pre.heap[(env.mem.id, key)].body, [(x, i)])
        h.check_scoped(rng + [Not(env.fresh(i))], lambda: e.identical(h.st, h.get(m, key), o), 'evaluated before: %s kept' % key)
    h.check_scoped(rng + [Not(env.fresh(i))], lambda: e.truth(h.st, h.get(m, 'feasible')) == env.Fe(i), 'evaluated before: feasibility kept')
    h.check_scoped(rng, lambda: h.get(Ref(env.calls, (i,)), 'n').e == If(env.fresh(i), num(1), num(0)), 'one call to score an unevaluated individual and none for the others')
    places(h, env, m, rng, pre, own)
    h.no_raise()
    h.vacuity()


CONTRACTS = [hyperbola(c, k, r, d, t, p)
             for c, k in ((BinaryPopulation, BIN_KEYS), (BinaryGrayPopulation, BIN_KEYS), (CatPopulation, CAT_KEYS), (OrderCatPopulation, CAT_KEYS))
             for r, d, t, p in (('number', 'object', True, None), ('number', 'none', False, None), ('tuple', 'zero', False, None), ('list', 'none', True, None),
                                ('tuple', 'object', True, 'dynamic'), ('list', 'none', False, 'adaptive'), ('tuple', 'zero', False, 'static'))]
CONTRACTS += [multi(f, c, r, d, t) for f in (VEGAHyperbolaFitness, FFGAFitness) for c in (BinaryPopulation, BinaryGrayPopulation)
              for r, d, t in (('tuple', 'object', True), ('list', 'none', False), ('tuple', 'zero', False))]
CONTRACTS += [hyperbola(c, k, r, d, t, p, True) for c, k in ((BinaryPopulation, BIN_KEYS), (CatPopulation, CAT_KEYS))
              for r, d, t, p in (('number', 'object', True, None), ('tuple', 'none', False, 'dynamic'))]
CONTRACTS += [multi(f, BinaryPopulation, 'tuple', 'none', True, True) for f in (VEGAHyperbolaFitness, FFGAFitness)]
