import pyvc.harness as harness
from .runs import *
from .c16 import family, collector
from . import c01, c02, c03, c04, c06, c09, c10, c11, c19
from baumeva.global_generator import GlobalGenerator

SEEDED = 'drawn after the generator was seeded with the configured value'


def seeding(h, initial):
    """the global configuration as an object of the pre-state; ghost: what the random module was last seeded with"""
    e = h.e
    seed = Scal(h.int('seed'))
    g = h.obj('generator', GlobalGenerator, _rnd_seed=seed)
    e.pyobjs[id(generator)] = g
    if initial:
        h.st.ghost['seeded'] = seed
    h.generator, h.seed = g, seed

    def on_seed(e, st, args, kw, n):
        v = args[0] if args else kw.get('a', NONE)
        st.ghost['seeded'] = v

    def on_draw(e, st, name, n):
        v = st.ghost.get('seeded')
        e.obligation(st, F if v is None else e.eq(st, v, seed), SEEDED, n)
    e.opaque['on_seed'], e.opaque['on_draw'] = on_seed, on_draw


def end(h):
    """obligations of the run that do not concern seeding are those of other properties"""
    e = h.e
    e.obls = [o for o in e.obls if o.label == SEEDED or o.label.startswith('loop summary') or 'seed' in o.label]
    v = h.st.ghost.get('seeded')
    e.obligation(h.st, F if v is None else e.eq(h.st, v, h.seed), 'afterwards the generator is still seeded with the configured value')
    e.obligation(h.st, e.eq(h.st, h.get(h.generator, '_rnd_seed'), h.seed), 'the configured seed is left alone')
    return h


def part(c, tag):
    """a contract of another property, run for its random draws only"""
    def run():
        harness.NEW[:] = [lambda h: seeding(h, True)]
        harness.SKIP = True
        try:
            h = c()
        finally:
            harness.NEW[:] = []
            harness.SKIP = False
        h.name = 'random decisions of ' + h.name
        return end(h)
    run.cname = 'draws-%s-%s' % (tag, getattr(c, 'cname', '?'))
    return run


def create(cls):
    """creating any population seeds the generator with the value configured at that moment"""
    def run():
        h = H('%s() seeds the generator' % cls.__name__)
        e = h.e
        seeding(h, False)
        p = h.call(cls)
        v = h.st.ghost.get('seeded')
        h.check(F if v is None else e.eq(h.st, v, h.seed), 'seeded with the configured value')
        new = Scal(h.int('new_seed'))
        e.setattr(h.st, h.generator, 'rnd_seed', new, None)
        h.check(e.eq(h.st, h.get(h.generator, 'rnd_seed'), new), 'the configuration can be read back')
        h.call(cls)
        v = h.st.ghost.get('seeded')
        h.check(F if v is None else e.eq(h.st, v, new), 'a changed seed takes effect for the next population')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'create-' + cls.__name__
    return run


def hooks(h):
    seeding(h, False)


def after(h, r, opt, own, pre, want):
    v = h.st.ghost.get('seeded')
    h.check(F if v is None else h.e.eq(h.st, v, h.seed), 'the run seeds the generator with the configured value')
    h.check(h.e.eq(h.st, h.get(h.generator, '_rnd_seed'), h.seed), 'the configured seed is left alone')


def whole(c):
    def run():
        harness.NEW[:] = [hooks]
        try:
            return c()
        finally:
            harness.NEW[:] = []
    run.cname = 'run-' + c.cname
    return run


POPS = (BinaryPopulation, BinaryGrayPopulation, CatPopulation, OrderCatPopulation)
CONTRACTS = [create(c) for c in POPS] + [whole(c) for c in family('C18', (True,), after)] + [whole(collector(m, 'C18', after)) for m in (False, True)]
for m in (c01, c02, c03, c04, c06, c09, c10, c11, c19):
    # the selections draw in the same way for every kind of population
    CONTRACTS += [part(c, m.__name__.split('.')[-1]) for c in m.CONTRACTS if m not in (c10, c19) or 'BinaryPopulation-False' in c.cname]
