"""Pre-states shared by the contracts."""
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.harness import H, CallNode

BIN_KEYS = ('genotype', 'phenotype', 'score', 'obj_score', 'feasible', 'idx_individ')
CAT_KEYS = ('genotype', 'score', 'obj_score', 'feasible', 'idx_individ')


def genes(h, name, L, arity=1, sort=Gene, val=None):
    """family of gene lists of length L(i) with uninterpreted genes"""
    f = h.fam(name + '.genes', 'list', arity)
    G = z3.Function(name + '.g', *([INT] * (arity + 1) + [sort]))
    x = fresh_int('gi')
    n = L(*f.xs) if callable(L) else L
    body = Scal(G(*f.xs, x)) if val is None else val(*f.xs, x)
    h.cell(f, '@', Seq('list', n, x, body))
    return f, G


def members(h, name, n, L, keys, score=True, multi=None, phen=None):
    """family of individuals 0..n-1"""
    f = h.fam(name, 'dict', 1)
    f.range = And(f.xs[0] >= 0, f.xs[0] < n)
    gf, G = genes(h, name, L)
    gf.range = And(gf.xs[0] >= 0, gf.xs[0] < n)
    f.G, f.gf = G, gf
    x = f.xs[0]
    for k in keys:
        if k == 'genotype':
            h.cell(f, k, Ref(gf, (x,)))
        elif k == 'phenotype':
            pf = h.fam(name + '.phen', 'list', 1)
            pf.range = And(pf.xs[0] >= 0, pf.xs[0] < n)
            P = z3.Function(name + '.p', INT, INT, REAL)
            pl = z3.Function(name + '.pl', INT, INT)
            y = fresh_int('pi')
            h.forall_assume(lambda q: (T, pl(q) >= 0, [pl(q)]))
            h.cell(pf, '@', Seq('list', pl(pf.xs[0]), y, Scal(P(pf.xs[0], y))))
            f.pf, f.P = pf, P
            h.cell(f, k, Ref(pf, (x,)))
        elif k == 'score':
            S = z3.Function(name + '.score', INT, REAL)
            f.S = S
            h.cell(f, k, Scal(S(x)))
        elif k == 'obj_score':
            O = z3.Function(name + '.obj', INT, REAL)
            f.O = O
            h.cell(f, k, Scal(O(x)))
        elif k == 'feasible':
            Fe = z3.Function(name + '.feas', INT, BOOL)
            f.F = Fe
            h.cell(f, k, Scal(Fe(x)))
        elif k == 'idx_individ':
            I = z3.Function(name + '.idx', INT, INT)
            h.cell(f, k, Scal(I(x)))
        elif k == 'rank':
            R = z3.Function(name + '.rank', INT, INT)
            f.R = R
            h.cell(f, k, Scal(R(x)))
    return f


def population(h, name, cls, n, fam, **attrs):
    r = h.obj(name, cls, **attrs)
    h.cell(r.fam, '@', h.seq('list', n, lambda x: Ref(fam, (x,))))
    return r


def fams_of(f):
    out = [f]
    for a in ('gf', 'pf'):
        if hasattr(f, a):
            out.append(getattr(f, a))
    return out
