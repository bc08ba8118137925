from .runs import *


def gen(rng, n):
    c = settings(rng, rng.choice(GAS))
    c['collector'] = rng.random() < .3
    if rng.random() < .1:
        c['gens_n'] = rng.choice([0, 12, 20])
    return c


def corner():
    rng = random.Random(5)
    out = []
    for g in GAS:
        for col in (False, True):
            for plan, early, at in (('const', 2, 1), ('const', 0, 1), ('steps', 1, 2), ('steps', 2, 1), ('const', None, 1), ('decay', 1, 3)):
                c = settings(rng, g)
                c.update(collector=col, plan=plan, early=early, at=at, gens_n=8, cond=None)
                out.append(c)
    return out


def check(case):
    with Trace() as t, quiet():
        random.seed(case['seed'])
        if case['collector']:
            col, kw, n, setp, early = collector(case)
            setp()
            first = col.ga_data
            col.optimize()
            data = col.ga_data
            need(data is first, 'the collector replaced its run data')
        else:
            opt, kw, n = build(case)
            data = opt.optimize()
    log = [x[0] for x in t.log]
    G = case['gens_n']
    cyc = ['sel', 'cross', 'mut', 'new', 'fit', 'upd']
    k = log.count('upd')
    need(log == ['fit', 'upd'] + cyc * (k - 1), 'phases ran in the order %s', log)
    need(1 <= k <= max(1, G), '%d generations recorded, %d requested', k, G)
    need(all(x[2] is data for x in t.log), 'phases worked on run data other than the one handed back')
    need(data.idx_generation == k and len(data.historical_best) == k, '%d generations run, data says %r', k, data.idx_generation)
    stall = [x[3] for x in t.log if x[0] == 'upd']
    early = case['early']
    if k < G:
        need(early is not None, 'run ended after %d of %d generations without an early-stop number', k, G)
        need(stall[-1] >= early, 'run ended after %d of %d generations with %d generations without improvement, early stop %d', k, G, stall[-1], early)
    if early is not None:
        for i, s in enumerate(stall[1:-1]):
            need(s <= early, 'run continued after %d generations without improvement, early stop %d', s, early)
