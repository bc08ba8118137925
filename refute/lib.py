"""Executable contracts on the real code: shared helpers.

A refuter module exposes  gen(rng, big) -> case (JSON data)  and  check(case) -> None or a message; optional corner() -> list
of cases tried first.  Everything is judged by what the public operations do, never by how they are written."""
import ast
import copy
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get('BAUM_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')


class Fail(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def close(a, b, tol=1e-9):
    if a == b:
        return True
    try:
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


def consts():
    """small integer constants of the code under test, used to bias sizes"""
    out = set()
    base = os.path.join(REPO, 'baumeva')
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith('.py'):
                try:
                    t = ast.parse(open(os.path.join(d, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and type(n.value) is int and 2 <= n.value <= 200:
                        out.add(n.value)
    return sorted(out)


_C = None


def size(rng, lo, hi=10, cap=70):
    """a size >= lo, mostly small, sometimes around a constant of the code"""
    global _C
    if _C is None:
        _C = consts()
    r = rng.random()
    if r < 0.25:
        return lo
    if r < 0.85 or not _C:
        return rng.randint(lo, max(lo, hi))
    c = rng.choice(_C) + rng.choice([-1, 0, 1, 2])
    return c if lo <= c <= cap else rng.randint(lo, max(lo, hi))


# ------------------------------------------------------------------ randomness
_real_random = random._inst.random
_real_getrandbits = random._inst.getrandbits


class Script:
    """replaces the draws of the shared generator: mode 'plain' only seeds it; 'edge' mixes extreme draws in;
    unit: a list of values served first by random.random()"""

    def __init__(self, seed, mode='plain', unit=None):
        self.seed, self.mode, self.unit = seed, mode, list(unit or [])
        self.log = []

    def __enter__(self):
        import baumeva
        random.seed(self.seed)
        self.own = random.Random(self.seed ^ 0x5bd1e995)
        inst = random._inst
        self.patched = []
        own, mode = self.own, self.mode

        def randbelow(n):
            r = own.random()
            if mode == 'low':
                v = 0 if r < .8 else own.randrange(n)
            elif mode == 'high':
                v = n - 1 if r < .8 else own.randrange(n)
            elif mode == 'edge':
                v = 0 if r < .3 else n - 1 if r < .6 else own.randrange(n)
            else:
                v = own.randrange(n)
            return v

        def unit():
            if self.unit:
                v = self.unit.pop(0)
            elif mode == 'plain':
                v = own.random()
            else:
                r = own.random()
                v = 0.0 if r < .25 else 1 - 2.0 ** -53 if r < .5 else own.random()
            self.log.append(v)
            return v
        inst._randbelow = randbelow
        inst.random = unit
        for m in list(sys.modules.values()):
            nm = getattr(m, '__name__', '')
            if nm == 'random' or nm.startswith('baumeva'):
                for k, v in list(vars(m).items()):
                    if v is ORIG_RANDOM:
                        setattr(m, k, unit)
                        self.patched.append((m, k))
        return self

    def __exit__(self, *a):
        inst = random._inst
        for k in ('_randbelow', 'random'):
            inst.__dict__.pop(k, None)
        for m, k in self.patched:
            setattr(m, k, ORIG_RANDOM)


ORIG_RANDOM = random.random
MODES = ('plain', 'plain', 'edge', 'low', 'high')


def rmode(rng):
    return [rng.randrange(1 << 30), rng.choice(MODES)]


# ------------------------------------------------------------------ snapshots
def snap(x):
    return copy.deepcopy(x)


def ids(pop):
    s = set()
    for d in pop:
        s.add(id(d))
        for v in d.values():
            if isinstance(v, (list, dict)):
                s.add(id(v))
    return s


def make_pop(cls, rows, **attrs):
    from baumeva.ga import BasePopulation
    p = cls()
    for r in rows:
        p.append(r)
    for k, v in attrs.items():
        setattr(p, k, v)
    return p


# ------------------------------------------------------------------ running
class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


_used = None


def operator(key, make):
    """the object under test; the same one for a case and its 'prev' case"""
    if _used is None:
        return make()
    if str(key) not in _used:
        _used[str(key)] = make()
    return _used[str(key)]


def run_case(mod, case, limit=20):
    """None, or a message describing how the case violates the property"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    global _used
    try:
        case = copy.deepcopy(case)
        if 'prev' in case:
            _used = {}
            mod.check(case.pop('prev'))
        mod.check(case)
        return None
    except Fail as e:
        return str(e)
    except Hang:
        return 'no result within %d s' % limit
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any('/baumeva/' in f.filename for f in tb):
            return 'unexpected %s: %s (at %s:%d)' % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno)
        raise
    finally:
        _used = None
        signal.alarm(0)


def search(mod, seconds, seed, maxn=None):
    """-> (evaluations, distinct, samples, failure) ; failure = (case, message) or None"""
    t0 = time.time()
    rng = random.Random(seed)
    n, seen, samples = 0, set(), []
    todo = list(mod.corner()) if hasattr(mod, 'corner') else []
    while True:
        if todo:
            case = todo.pop(0)
        else:
            if time.time() - t0 > seconds or (maxn and n >= maxn):
                break
            case = mod.gen(rng, n)
            if hasattr(mod, 'opkey') and rng.random() < .4:
                for _ in range(12):
                    c2 = mod.gen(rng, n)
                    if mod.opkey(c2) == mod.opkey(case):
                        case['prev'] = c2
                        break
        n += 1
        key = json.dumps(case, sort_keys=True, default=str)
        seen.add(hash(key))
        if len(samples) < 3:
            samples.append(case)
        m = run_case(mod, case)
        if m is not None:
            return n, len(seen), samples, (case, m)
    return n, len(seen), samples, None
