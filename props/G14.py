"""G14 Copies of build data are equal and fully independent."""
import copy
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from vlib import models as M
import gyp.simple_copy as S

V = T.V


EQV = z3.Function('same_data', V, V, T.Bool)
I0, K0 = z3.Int('any_index'), z3.String('any_key')      # arbitrary: what is shown for them holds for every index and key


def equal(r, x):
    """r is the same data as x, one level unfolded: atoms are equal, lists and dicts hold the same data at every index and key, in the same order"""
    ri, xi = T.acc('items', r), T.acc('items', x)
    return z3.And(z3.Implies(T.tester('ListV', x), z3.And(T.tester('ListV', r), T.length(ri) == T.length(xi), z3.Implies(z3.And(I0 >= 0, I0 < T.length(xi)), EQV(ri[I0], xi[I0])))),
                  z3.Implies(T.tester('DictV', x), z3.And(T.tester('DictV', r), T.acc('keys', r) == T.acc('keys', x), z3.Implies(z3.Contains(T.acc('keys', x), z3.Unit(K0)), EQV(T.dget(r, K0), T.dget(x, K0))))),
                  z3.Implies(z3.Not(z3.Or(T.tester('ListV', x), T.tester('DictV', x))), r == x))


def cands(lv):
    """what has been copied so far is the same data as what it was copied from"""
    out = {}
    if lv.done is None: return out
    if lv.done.sort() == T.SeqV:
        for n, q in lv.lists():
            out['count:' + n] = T.length(q) == T.length(lv.done)
            out['same:' + n] = z3.Implies(z3.And(I0 >= 0, I0 < T.length(q)), EQV(q[I0], lv.seq[I0]))
    else:
        for n, d, l in lv.kinds('dict'):
            out['keys:' + n] = T.acc('keys', d) == lv.done
            for m, x, l2 in lv.kinds('dict'):
                if m != n: out['same:%s:%s' % (n, m)] = z3.Implies(z3.Contains(T.acc('keys', d), z3.Unit(K0)), EQV(T.dget(d, K0), T.dget(x, K0)))
    return out


COPY = Contract('deepcopy', S.deepcopy, {'x': Any}, ret=Any, fresh_result=True, ensures=lambda e: {'equal': equal(e.rv, e.val('x'))}, facts=lambda e: [EQV(e.rv, e.val('x'))],
                raises={S.Error: None}, cands=cands)


def contracts():
    return [(COPY, lambda: Verifier({S.deepcopy: COPY}, models=M.PATHS))]


# ------------------------------------------------------------------ bounded contract runs
import collections
import datetime
ATOMS = [None, True, False, 0, 1, -1, 2.5, '', 'a', 'é', 10 ** 20, 1e300]
BAD = ['()', '(1, [2])', 'set()', 'frozenset()', 'b"x"', '1j', 'object()', 'collections.OrderedDict()', 'bytearray()', 'type("L", (list,), {})([1])', 'type("S", (str,), {})("s")', 'iter([])', 'len', 'datetime.date(2000, 1, 1)']


def data(rng, d):
    r = rng.random()
    if not d or r < .3: return rng.choice(ATOMS)
    if r < .65: return [data(rng, d - 1) for _ in range(rng.randrange(4))]
    return {rng.choice(['a', 'b', 'c', 'x', '', 'é', 1, True, None, 2.5]): data(rng, d - 1) for _ in range(rng.randrange(4))}


def c_data(tier, rng):
    for x in ATOMS: yield (x, 0)
    while True: yield (data(rng, rng.randrange(6)), rng.randrange(3))


def share(x, n):
    """the same data with some containers used at several places"""
    for _ in range(n):
        ls = [c for c in walk(x) if type(c) in (list, dict)]
        if ls: x = [ls[len(ls) // 2], x, {'k': ls[-1]}]
    return x


def walk(x):
    yield x
    for y in (x if type(x) is list else list(x.values()) + list(x) if type(x) is dict else ()): yield from walk(y)


def exact(x):
    if type(x) is list: return ['list'] + [exact(y) for y in x]
    if type(x) is dict: return ['dict'] + [(exact(k), exact(v)) for k, v in x.items()]
    return (type(x).__name__, x)


def r_data(a):
    x = share(*a)
    before = exact(x)
    y = S.deepcopy(x)
    if exact(y) != before: return 'the copy is %r, not %r' % (y, x)
    if exact(x) != before: return 'the original was changed to %r' % (x,)
    cont = lambda z: [c for c in walk(z) if type(c) in (list, dict)]
    ids = {id(c) for c in cont(x)}
    for c in cont(y):
        if id(c) in ids: return 'the copy contains the container %r of the original' % (c,)
    for c in cont(y):
        if type(c) is list: c.append('new')
        else: c['new'] = 1
    return None if exact(x) == before else 'changing the copy shows in the original'


def c_bad(tier, rng):
    while True: yield (rng.choice(BAD), [rng.choice(['list', 'dict', 'first', 'last']) for _ in range(rng.randrange(5))], data(rng, 2))


def r_bad(a):
    src, path, other = a
    x = eval(src)
    for k in path: x = [x] if k == 'list' else {'k': x} if k == 'dict' else [x, other] if k == 'first' else {'o': other, 'k': x}
    o = outcome(S.deepcopy, x)
    if o[0] == 'raise' and o[1] == 'Error': return None
    return 'data of type %s was %s' % (type(eval(src)).__name__, 'copied' if o[0] != 'raise' else 'rejected with %s' % (o[1:],))


def bounded():
    return [Bounded('copy', c_data, r_data, 'random nested data up to depth 8, with containers used at several places, keys of any atomic type', budget=(6, 60)),
            Bounded('unsupported', c_bad, r_bad, 'values of 14 unsupported types inside up to 4 containers', budget=(4, 30))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='deepcopy, with the dispatch table and helpers it goes through, is proved by induction on its argument: the copy is the same data at every index and key, contains no container of the original (a freshness obligation on every store), '
                 'and an unsupported type raises the module\'s Error. Dictionary keys that are not strings, and floats, are covered by the bounded check.',
            assumptions=['build data is finite and acyclic (termination)'])
