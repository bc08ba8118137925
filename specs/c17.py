from .runs import *
from .c16 import family, collector
from baumeva.ga.fitness.multi_fitness import MultiFitness


def untouched(h, r, opt, own, pre, settings):
    """the optimiser's own settings and the caller's lists are as before the run"""
    e = h.e
    for a, v in settings.items():
        if a == 'num_objectives':
            continue
        w = h.get(opt, a)
        o = e.getattr(pre, opt, a, None)
        same = e.identical(h.st, w, o) if isinstance(o, (Ref, Opq)) or o is NONE else e.eq(h.st, w, o)
        h.check(same, 'the run leaves the setting %s alone' % a)
        if a in r.want and not isinstance(r.want[a], type):
            want = r.want[a]
            h.check(e.identical(h.st, w, want) if isinstance(want, (Ref, Opq)) or want is NONE else e.eq(h.st, w, want), 'the optimiser keeps the given %s' % a)
    h.unchanged(own, pre, "the caller's data")


def fitness(cls, cond, penalty):
    """creating a fitness object: arguments stored, the caller's conditions untouched and not shared"""
    def run():
        h = H('%s(...)%s%s' % (cls.__name__, ', conditions' if cond else '', ', penalty' if penalty else ''))
        e = h.e
        fn = Opq('objective', None)
        n, c = h.int('n'), h.fun('condition', INT, Gene)
        p = h.int('first')
        opt = e.sc('optimize')
        h.assume(And(n >= 1, p >= 0, p < n, c(p) == opt))
        h.forall_assume(lambda i: (And(i >= 0, i < p), c(i) != opt, [c(i)]))
        lst = h.list('conditions', n, lambda x: Scal(c(x)))
        pen = h.obj('penalty', DynamicPenalty)
        val, data = Scal(h.real('target')), Opq('input_data', None)
        pre = h.st.copy()
        f = h.call(cls, fn, obj_value=val, input_data=data, penalty=pen if penalty else NONE, conditions=lst if cond else NONE)
        h.check(e.identical(h.st, h.get(f, 'obj_function'), fn), 'objective function stored')
        h.check(e.eq(h.st, h.get(f, 'obj_value'), val), 'target stored')
        h.check(e.identical(h.st, h.get(f, 'input_data'), data), 'extra input stored')
        h.check(e.identical(h.st, h.get(f, 'penalty'), pen if penalty else NONE), 'penalty stored')
        h.check(Not(e.identical(h.st, h.get(f, 'conditions'), lst)), "the caller's condition list is not shared")
        h.unchanged([lst.fam], pre, "the caller's conditions")
        h.no_raise()
        h.vacuity()
        return h
    run.cname = '%s-%s-%s' % (cls.__name__, cond, penalty)
    return run


CONTRACTS = family('C17', (True,), untouched) + [collector(m, 'C17', untouched) for m in (False, True)] + \
    [fitness(c, k, p) for c in (HyperbolaFitness, VEGAHyperbolaFitness, FFGAFitness) for k in (True, False) for p in (True, False)]
