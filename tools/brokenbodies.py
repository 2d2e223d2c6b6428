#!/usr/bin/env python3-vt
"""The verifier against itself: each body below comes with a postcondition that is true ('good': every obligation must be discharged) or false for
some input ('bad': some obligation must be left, or the body refused).  The false ones are the mistakes a generator makes when it forgets aliasing,
loop frames, exceptions, the order of evaluation, bounds or the difference between the old and the new value."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import multiprocessing as mp
import z3
from pyvc import terms as T
from pyvc.types import *
from pyvc.core import *
from pyvc.contract import *

V = T.V
I, S, L, LL, D = IntT, StrT, TList(Any), TList(TList(Any)), TDict(Any)
CASES = []


def case(good, params, ens, raises=None, modifies=(), requires=None, classes=None, fields=(), cands=None):
    def deco(f):
        CASES.append((good, f, params, ens, raises, modifies, requires, classes or {}, fields, cands))
        return f
    return deco


def unit(x): return T.unit(V.IntV(x) if z3.is_int(x) else x)


# ---- assignment, arithmetic, conditions
@case(True, {'a': I, 'b': I}, lambda e: {'max': z3.And(e.r >= e['a'], e.r >= e['b'], z3.Or(e.r == e['a'], e.r == e['b']))})
def biggest(a, b):
    if a > b: return a
    return b


@case(False, {'a': I, 'b': I}, lambda e: {'max': z3.And(e.r >= e['a'], e.r >= e['b'])})
def biggest_wrong(a, b):
    if a < b: return a
    return b


@case(False, {'a': I}, lambda e: {'zero': e.r == 0})
def half(a): return a // 2 * 2 - a


@case(False, {'a': I}, lambda e: {'down': 2 * e.r <= e['a'], 'toward-zero': z3.Implies(e['a'] < 0, 2 * e.r >= e['a'])})
def floor(a): return a // 2


@case(True, {'a': I}, lambda e: {'order': e.r == e['a'] + 1})
def swap(a):
    x, y = a, a + 1
    x, y = y, x
    return x


@case(False, {'a': I}, lambda e: {'order': e.r == e['a'] + 1})
def swap_wrong(a):
    x, y = a, a + 1
    x = y
    y = x
    return y - 1


@case(False, {'a': I, 'b': I}, lambda e: {'short': e.r == z3.If(e['a'] != 0, e['b'], 0)})
def conj(a, b): return a or b


@case(True, {'a': I, 'b': I}, lambda e: {'short': e.r == z3.If(e['a'] != 0, e['a'], e['b'])})
def disj(a, b): return a or b


# ---- exceptions
@case(False, {'d': D, 'k': S}, lambda e: {'value': z3.BoolVal(True)})
def may_raise(d, k): return d[k]


@case(True, {'d': D, 'k': S}, lambda e: {'value': e.rv == T.dget(e['d'], e['k'])}, raises={KeyError: lambda e: z3.Not(T.dhas(e['d'], e['k']))})
def raises_key(d, k): return d[k]


@case(False, {'d': D, 'k': S}, lambda e: {'value': z3.BoolVal(True)}, raises={KeyError: lambda e: T.dhas(e['d'], e['k'])})
def raises_when_there(d, k): return d[k]


@case(False, {'l': L}, lambda e: {'value': z3.BoolVal(True)})
def first(l): return l[0]


@case(True, {'l': L}, lambda e: {'value': e.rv == e['l'][0]}, requires=lambda e: [T.length(e['l']) > 0])
def first_of_some(l): return l[0]


@case(True, {'l': L}, lambda e: {'fin': T.length(e.fin('l')) == T.length(e['l']) + 1}, modifies=['l'], raises={ValueError: lambda e: T.length(e.fin('l')) == T.length(e['l']) + 1})
def finally_runs(l):
    try:
        if len(l) > 3: raise ValueError
        return 1
    finally: l.append(0)


@case(False, {'l': L}, lambda e: {'fin': T.length(e.fin('l')) == T.length(e['l']) + 1}, modifies=['l'])
def finally_twice(l):
    try:
        if len(l) > 3: return 1
        l.append(1)
        return 2
    finally: l.append(0)


@case(False, {'d': D, 'k': S}, lambda e: {'none': z3.Implies(z3.Not(T.dhas(e['d'], e['k'])), e.r == 0)})
def handler(d, k):
    x = 0
    try:
        x = 1
        d[k]
    except KeyError: pass
    return x


# ---- aliasing and ownership
@case(False, {'l': L}, lambda e: {'same': e.fin('l') == e['l']}, modifies=['l'])
def alias(l):
    m = l
    m.append(1)
    return 0


@case(True, {'l': L}, lambda e: {'more': e.fin('l') == T.concat(e['l'], unit(z3.IntVal(1)))}, modifies=['l'])
def alias_good(l):
    m = l
    m.append(1)
    return 0


@case(False, {'l': L}, lambda e: {'nothing': z3.BoolVal(True)})
def frame(l):
    l.append(1)
    return 0


@case(True, {'l': L}, lambda e: {'copy': e.rs() == T.concat(e['l'], unit(z3.IntVal(1)))})
def copied(l):
    m = l[:]
    m.append(1)
    return m


@case(False, {'l': L}, lambda e: {'inner': T.acc('items', T.dget(e.rv, T.sv('x'))) == e['l']}, modifies=['l'])
def stored(l):
    d = {'x': l}
    l.append(1)
    return d


@case(False, {'k': S}, lambda e: {'one': T.acc('items', T.dget(e.rv, T.sv('a'))) == T.empty()})
def shared_value(k):
    x = []
    d = {'a': x, 'b': x}
    d['b'].append(k)
    return d


@case(False, {'l': LL}, lambda e: {'deep': e.fin('l') == e['l']}, modifies=['l'], requires=lambda e: [T.length(e['l']) > 0])
def shallow(l):
    m = l[:]
    m[0].append(1)
    return 0


@case(False, {'d': D}, lambda e: {'same': e.fin('d') == e['d']}, modifies=['d'])
def setdefault_inside(d):
    d.setdefault('new', []).append(1)
    return 0


@case(False, {'a': L, 'b': L}, lambda e: {'b': e.fin('b') == e['b']}, modifies=['a', 'b'])
def swap_names(a, b):
    a, b = b, a
    a.append(1)
    return 0


# ---- loops
@case(True, {'l': L}, lambda e: {'copy': e.rs() == e['l']}, cands=lambda lv: {n: q == lv.done for n, q in lv.lists() if lv.done is not None and q.sort() == lv.done.sort()})
def loop_copy(l):
    out = []
    for x in l: out.append(x)
    return out


@case(False, {'l': L}, lambda e: {'copy': e.rs() == e['l']})
def loop_twice(l):
    out = []
    for x in l:
        out.append(x)
        if len(out) > 5: out.append(x)
    return out


@case(False, {'l': L}, lambda e: {'copy': e.rs() == e['l']})
def loop_skip(l):
    out = []
    for x in l:
        if x is None: continue
        out.append(x)
    return out


@case(False, {'l': L}, lambda e: {'copy': e.rs() == e['l']})
def loop_break(l):
    out = []
    for x in l:
        if x is None: break
        out.append(x)
    return out


@case(False, {'l': L}, lambda e: {'kept': e.r == 0})
def loop_frame(l):
    n = 0
    for x in l: n = 1
    return n


@case(False, {'l': L}, lambda e: {'else': e.r == 1})
def loop_else(l):
    r = 0
    for x in l:
        if x is None: break
    else: r = 1
    return r


@case(False, {'l': L}, lambda e: {'range': e.r == T.length(e['l'])})
def off_by_one(l):
    n = 0
    for i in range(1, len(l)): n += 1
    return n


@case(False, {'n': I}, lambda e: {'sum': e.r >= e['n']})
def counting(n):
    i = 0
    while i < n - 1: i += 1
    return i


@case(False, {'l': L}, lambda e: {'mutated': T.length(e.fin('l')) == T.length(e['l'])}, modifies=['l'])
def mutate_in_loop(l):
    for x in l[:]: l.append(x)
    return 0


@case(False, {'l': L}, lambda e: {'late': e.rv == V.IntV(0)}, requires=lambda e: [T.length(e['l']) > 1])
def late_closure(l):
    fs = []
    i = 0
    f = lambda: i
    for x in l: i = i + 1
    return f()


@case(False, {'l': L}, lambda e: {'last': e.rv == e['l'][0]}, requires=lambda e: [T.length(e['l']) > 0])
def loop_variable(l):
    x = None
    for x in l: pass
    return x


@case(False, {'d': D}, lambda e: {'keys': e.rs() == T.empty()})
def dict_keys(d):
    out = []
    for k in d: out.append(k)
    return out


# ---- sequences, text, dictionaries
@case(False, {'l': L}, lambda e: {'minus': e.rv == e['l'][0]}, requires=lambda e: [T.length(e['l']) > 0])
def negative(l): return l[-1]


@case(False, {'l': L, 'n': I}, lambda e: {'slice': T.length(e.rs()) == e['n']}, requires=lambda e: [e['n'] >= 0])
def slice_short(l, n): return l[:n]


@case(False, {'l': L, 'n': I}, lambda e: {'cut': e.fin('l') == T.empty()}, modifies=['l'])
def del_slice(l, n):
    del l[:n]
    return 0


@case(True, {'l': L}, lambda e: {'cut': e.fin('l') == T.drop(e['l'], z3.IntVal(1))}, modifies=['l'], requires=lambda e: [T.length(e['l']) > 0])
def del_first(l):
    del l[:1]
    return 0


@case(False, {'l': L}, lambda e: {'cut': T.length(e.fin('l')) == T.length(e['l']) - 1}, modifies=['l'])
def del_first_wrong(l):
    del l[:1]
    return 0


@case(False, {'s': S, 't': S}, lambda e: {'has': z3.PrefixOf(e['t'], e.r)})
def joined(s, t): return s + t


@case(True, {'s': S, 't': S}, lambda e: {'has': z3.PrefixOf(e['s'], e.r)})
def joined_good(s, t): return s + t


@case(False, {'s': S}, lambda e: {'ends': z3.SuffixOf(T.sv('x'), e['s']) == e.rb()})
def starts(s): return s.startswith('x')


@case(False, {'d': D, 'k': S}, lambda e: {'others': T.dget(e.fin('d'), T.sv('a')) == T.dget(e['d'], T.sv('a'))}, modifies=['d'])
def put(d, k):
    d[k] = 1
    return 0


@case(True, {'d': D, 'k': S}, lambda e: {'others': T.dget(e.fin('d'), T.sv('a')) == T.dget(e['d'], T.sv('a'))}, modifies=['d'], requires=lambda e: [e['k'] != T.sv('a'), T.dhas(e['d'], T.sv('a'))])
def put_good(d, k):
    d[k] = 1
    return 0


@case(False, {'d': D, 'k': S}, lambda e: {'there': T.dhas(e.fin('d'), T.sv('a')) == T.dhas(e['d'], T.sv('a'))}, modifies=['d'])
def pop(d, k):
    d.pop(k, None)
    return 0


@case(False, {'v': Any}, lambda e: {'true': e.rb()})
def falsy(v): return v is None or bool(v)


@case(False, {'v': Any}, lambda e: {'eq': e.rb() == T.tester('NoneV', e['v'])})
def not_truth(v): return not v


# ---- the heap of fields
CELL = {'Cell': {'x': I, 'l': L}}


@case(False, {'a': TObj('Cell'), 'b': TObj('Cell')}, lambda e: {'b': T.aselect(e.fld('Cell', 'x', True), e['b']) == T.aselect(e.fld('Cell', 'x'), e['b'])}, classes=CELL, fields=[('Cell', 'x')])
def same_object(a, b):
    a.x = 1
    return 0


@case(True, {'a': TObj('Cell'), 'b': TObj('Cell')}, lambda e: {'b': T.aselect(e.fld('Cell', 'x', True), e['b']) == T.aselect(e.fld('Cell', 'x'), e['b'])}, classes=CELL, fields=[('Cell', 'x')],
      requires=lambda e: [e['a'] != e['b']])
def other_object(a, b):
    a.x = 1
    return 0


@case(False, {'a': TObj('Cell')}, lambda e: {'frame': z3.BoolVal(True)}, classes=CELL)
def field_frame(a):
    a.x = a.x + 1
    return 0


@case(False, {'a': TObj('Cell')}, lambda e: {'l': T.aselect(e.fld('Cell', 'l', True), e['a']) == V.ListV(T.empty())}, classes=CELL, fields=[('Cell', 'l')])
def field_alias(a):
    l = a.l = []
    l.append(1)
    return 0


@case(False, {'a': TObj('Cell'), 'b': TObj('Cell')}, lambda e: {'l': T.aselect(e.fld('Cell', 'l', True), e['b']) == T.aselect(e.fld('Cell', 'l'), e['b'])}, classes=CELL, fields=[('Cell', 'l')])
def field_shared(a, b):
    a.l.append(1)
    return 0


# ---- containers inside containers: a copy of the outside shares the inside
SOME = lambda n: (lambda e: [T.length(e[n]) > 0])
SAME = lambda n: (lambda e: {'deep': e.fin(n) == e[n]})
KD = TDict(TList(Any))


@case(False, {'l': LL}, SAME('l'), modifies=['l'], requires=SOME('l'))
def shares_list(l):
    m = list(l)
    m[0].append(1)
    return 0


@case(False, {'l': LL}, SAME('l'), modifies=['l'], requires=SOME('l'))
def shares_plus(l):
    m = l + []
    m[0].append(1)
    return 0


@case(False, {'l': LL}, SAME('l'), modifies=['l'], requires=SOME('l'))
def shares_extend(l):
    m = []
    m.extend(l)
    m[0].append(1)
    return 0


@case(False, {'l': LL}, SAME('l'), modifies=['l'], requires=SOME('l'))
def shares_augmented(l):
    m = []
    m += l
    m[0].append(1)
    return 0


@case(False, {'l': LL}, SAME('l'), modifies=['l'], requires=SOME('l'))
def shares_comprehension(l):
    m = [x for x in l]
    m[0].append(1)
    return 0


@case(False, {'l': LL}, SAME('l'), modifies=['l'], requires=SOME('l'))
def shares_reversed(l):
    m = list(reversed(l))
    m[-1].append(1)
    return 0


@case(False, {'l': LL}, SAME('l'), modifies=['l'], requires=SOME('l'))
def shares_element(l):
    for x in l: x.append(1)
    return 0


@case(False, {'l': LL}, SAME('l'), modifies=['l'], requires=SOME('l'))
def shares_loop(l):
    m = []
    for x in l: m.append(x)
    m[0].append(1)
    return 0


@case(False, {'d': KD, 'k': S}, SAME('d'), modifies=['d'], requires=lambda e: [T.dhas(e['d'], e['k'])])
def shares_copy(d, k):
    m = d.copy()
    m[k].append(1)
    return 0


@case(False, {'d': KD, 'k': S}, SAME('d'), modifies=['d'], requires=lambda e: [T.dhas(e['d'], e['k'])])
def shares_dict(d, k):
    m = dict(d)
    m[k].append(1)
    return 0


@case(False, {'d': KD, 'k': S}, SAME('d'), modifies=['d'], requires=lambda e: [T.dhas(e['d'], e['k'])])
def shares_update(d, k):
    m = {}
    m.update(d)
    m[k].append(1)
    return 0


@case(False, {'d': KD, 'k': S}, SAME('d'), modifies=['d'], requires=lambda e: [T.dhas(e['d'], e['k'])])
def shares_values(d, k):
    for v in d.values(): v.append(1)
    return 0


@case(False, {'d': KD, 'k': S}, SAME('d'), modifies=['d'], requires=lambda e: [T.dhas(e['d'], e['k'])])
def shares_items(d, k):
    for n, v in d.items(): v.append(1)
    return 0


@case(False, {'d': KD, 'k': S}, SAME('d'), modifies=['d'], requires=lambda e: [T.dhas(e['d'], e['k'])])
def shares_get(d, k):
    d.get(k, []).append(1)
    return 0


@case(False, {'d': KD, 'k': S}, SAME('d'), modifies=['d'], requires=lambda e: [T.dhas(e['d'], e['k'])])
def shares_tuple(d, k):
    a, b = (d[k], 1)
    a.append(1)
    return 0


@case(False, {'d': KD, 'k': S}, SAME('d'), modifies=['d'], requires=lambda e: [T.dhas(e['d'], e['k'])])
def shares_conditional(d, k):
    x = d[k] if k else []
    x.append(1)
    return 0


@case(False, {'d': KD, 'k': S, 'l': L}, lambda e: {'l': e.fin('l') == e['l']}, modifies=['d', 'l'])
def stores_then_changes(d, k, l):
    d[k] = l
    d[k].append(1)
    return 0


@case(False, {'l': LL}, SAME('l'), modifies=['l'], requires=SOME('l'))
def shares_pop(l):
    m = [l[0]]
    m[0].append(1)
    return 0


@case(False, {'l': LL}, lambda e: {'l': T.acc('items', e.fin('l')[0]) == T.acc('items', e['l'][0])}, modifies=['l'], requires=SOME('l'))
def shares_twice(l):
    l.append(l[0])
    l[-1].append(1)
    return 0


@case(False, {'l': LL}, lambda e: {'l': T.acc('items', e.fin('l')[0]) == T.acc('items', e['l'][0])}, modifies=['l'], requires=SOME('l'))
def shares_own_slice(l):
    l += l[:1]
    l[-1].append(1)
    return 0


@case(False, {'k': S}, lambda e: {'l': e.r == 0})
def shares_repeat(k):
    m = [[]] * 2
    m[0].append(1)
    return len(m[1])


@case(False, {'a': TObj('Grid')}, lambda e: {'l': T.aselect(e.fld('Grid', 'rows', True), e['a']) == T.aselect(e.fld('Grid', 'rows'), e['a'])}, classes={'Grid': {'rows': LL}}, fields=[('Grid', 'rows')])
def shares_field(a):
    m = a.rows[:]
    if m: m[0].append(1)
    return 0


@case(False, {'a': TObj('Grid'), 'b': TObj('Grid')}, lambda e: {'l': T.aselect(e.fld('Grid', 'rows', True), e['a']) == T.aselect(e.fld('Grid', 'rows'), e['a'])},
      classes={'Grid': {'rows': LL}}, fields=[('Grid', 'rows')], requires=lambda e: [e['a'] != e['b']])
def shares_two_fields(a, b):
    b.rows = a.rows
    b.rows.append([])
    return 0


@case(False, {'l': L}, lambda e: {'l': e.rs() == e['l']}, modifies=['l'])
def returned_alias(l):
    m = l
    def f(): m.append(1)
    f()
    return l


@case(False, {'l': L}, lambda e: {'l': e.rs() == e['l']})
def generator_late(l):
    out = list(l)
    g = (x for x in out)
    out.append(1)
    return list(g)


@case(False, {'a': L, 'b': L}, lambda e: {'b': e.fin('b') == e['b']}, modifies=['a', 'b'])
def loop_of_two(a, b):
    for x in (a, b): x.append(1)
    return 0


@case(False, {'d': D}, lambda e: {'d': e.fin('d') == e['d']}, modifies=['d'])
def walrus(d):
    if (x := d): pass
    x['k'] = 1
    return 0


@case(False, {'l': L}, lambda e: {'l': e.fin('l') == e['l']}, modifies=['l'])
def plus_equal(l):
    m = l
    m += [1]
    return 0


@case(True, {'l': L}, lambda e: {'l': e.fin('l') == e['l']}, modifies=['l'])
def plus(l):
    m = l
    m = m + [1]
    return 0


# ---- control flow and values once more
@case(False, {'l': L}, lambda e: {'r': e.r == 1}, requires=SOME('l'))
def return_in_finally(l):
    try: return 1
    finally:
        return 2


@case(False, {'d': D, 'k': S}, lambda e: {'r': e.r == 2})
def try_else(d, k):
    try: d[k]
    except KeyError: return 1
    else: return 2


@case(False, {'n': I}, lambda e: {'r': e.r == 1})
def while_else(n):
    while n > 0:
        if n == 5: break
        n -= 1
    else: return 1
    return 2


@case(False, {'a': I, 'b': I, 'c': I}, lambda e: {'r': e.rb() == z3.And(e['a'] < e['b'], e['a'] < e['c'])})
def chained(a, b, c): return a < b < c


@case(True, {'a': I, 'b': I, 'c': I}, lambda e: {'r': e.rb() == z3.And(e['a'] < e['b'], e['b'] < e['c'])})
def chained_good(a, b, c): return a < b < c


@case(False, {'s': S}, lambda e: {'r': T.length(e.r) == 1})
def char_at(s): return s[0:1]


@case(False, {'s': S}, lambda e: {'r': z3.BoolVal(True)})
def char_raises(s): return s[3]


@case(False, {'s': S, 't': S}, lambda e: {'r': e.rb() == (e['s'] == e['t'])})
def find_text(s, t): return s.find(t) == 0


@case(False, {'s': S}, lambda e: {'r': z3.Not(z3.Contains(e.r, T.sv('a')))})
def replace_once(s): return s.replace('a', 'b', 1)


@case(False, {'s': S}, lambda e: {'r': e.r == e['s']})
def lowered(s): return s.lower()


@case(False, {'l': L}, lambda e: {'r': e.rb() == T.member(e['l'], V.IntV(1))})
def not_in(l): return 1 not in l


@case(False, {'v': Any}, lambda e: {'r': e.rb() == T.tester('StrV', e['v'])})
def is_text(v): return isinstance(v, (str, list))


@case(False, {'v': Any}, lambda e: {'r': z3.BoolVal(True)})
def any_attribute(v): return v['x']


@case(False, {'v': Any}, lambda e: {'r': z3.BoolVal(True)})
def any_iteration(v): return [x for x in v]


@case(False, {'v': Any}, lambda e: {'r': z3.BoolVal(True)})
def any_plus(v): return v + 1


@case(False, {'n': I}, lambda e: {'r': z3.BoolVal(True)})
def division(n): return 1 // n


@case(False, {'k': S}, lambda e: {'r': e.r == 0})
def nonlocal_write(k):
    n = 0
    def f():
        nonlocal n
        n = 1
    f()
    return n


@case(False, {'k': S}, lambda e: {'r': e.r == 1})
def local_write(k):
    n = 0
    def f():
        n = 1
    f()
    return n


@case(False, {'k': S}, lambda e: {'r': e.r == 1})
def evaluated_late(k):
    n = 1
    f = lambda: n
    n = 2
    return f()


@case(False, {'k': S}, lambda e: {'r': e.r == 2})
def default_early(k):
    n = 1
    f = lambda m=n: m
    n = 2
    return f()


def grows(x, acc=[]):
    acc.append(x)
    return len(acc)


@case(False, {'k': S}, lambda e: {'r': e.r == 1})
def default_shared(k):
    grows(1)
    return grows(2)


TABLE = {'a': 1}


@case(False, {'k': S}, lambda e: {'r': e.r == 1})
def module_table(k):
    TABLE['a'] = 2
    return TABLE['a'] - 1 if k else TABLE['a']


@case(False, {'l': L}, lambda e: {'r': T.length(e.rs()) == T.length(e['l'])})
def filtered(l): return [x for x in l if x]


@case(False, {'l': L}, lambda e: {'r': e.rb() == z3.BoolVal(False)})
def any_of(l): return any(x is None for x in l)


@case(False, {'l': L}, lambda e: {'r': e.rb() == z3.BoolVal(True)})
def all_of(l): return all(x is None for x in l)


@case(False, {'l': L}, lambda e: {'r': e.rs() == e['l']})
def unique(l): return list(dict.fromkeys(l)) if False else sorted(l)


@case(False, {'d': D}, lambda e: {'r': z3.BoolVal(True)}, modifies=['d'])
def changed_while_iterating(d):
    for k in d: d[k + 'x'] = 1
    return 0


@case(False, {'l': L}, lambda e: {'r': z3.BoolVal(True)})
def unpack(l):
    a, b = l
    return a


@case(False, {'d': D, 'k': S}, lambda e: {'r': T.dget(e.fin('d'), e['k']) == V.IntV(1)}, modifies=['d'])
def setdefault_kept(d, k):
    d.setdefault(k, 1)
    return 0


@case(True, {'d': D, 'k': S}, lambda e: {'r': T.dhas(e.fin('d'), e['k'])}, modifies=['d'])
def setdefault_there(d, k):
    d.setdefault(k, 1)
    return 0


@case(False, {'d': D, 'k': S}, lambda e: {'r': e.rv == V.NoneV})
def get_none(d, k): return d.get(k)


@case(False, {'d': D, 'k': S}, lambda e: {'r': e.fin('d') == e['d']}, modifies=['d'], raises={KeyError: lambda e: z3.Not(T.dhas(e['d'], e['k']))})
def popped(d, k):
    d.pop(k)
    return 0


@case(False, {'d': D, 'k': S}, lambda e: {'r': T.acc('keys', e.fin('d')) == T.acc('keys', e['d'])}, modifies=['d'], requires=lambda e: [T.dhas(e['d'], e['k'])])
def key_order(d, k):
    v = d[k]
    del d[k]
    d[k] = v
    return 0


@case(False, {'a': L, 'b': L}, lambda e: {'r': e.r == T.length(e['a'])})
def zipped(a, b):
    n = 0
    for x, y in zip(a, b): n += 1
    return n


@case(False, {'l': L}, lambda e: {'r': e.r == T.length(e['l'])})
def enumerated(l):
    n = 0
    for i, x in enumerate(l): n = i
    return n


@case(False, {'l': L}, lambda e: {'r': e.rb()})
def identical(l): return l[:] is l


@case(False, {'n': I}, lambda e: {'r': e.rb() == (e['n'] == 1)})
def bool_is_int(n): return n is True


@case(False, {'l': L}, lambda e: {'r': T.member(e['l'], V.BoolV(True)) == e.rb()})
def one_in(l): return 1 in l


@case(False, {'l': L}, lambda e: {'r': e.fin('l') == e['l']}, modifies=['l'], raises={ValueError: lambda e: e.fin('l') == e['l']})
def changed_then_raised(l):
    l.append(1)
    raise ValueError


@case(False, {'l': L}, lambda e: {'r': z3.BoolVal(True)}, raises={ValueError: lambda e: z3.BoolVal(True)})
def changed_then_raised_frame(l):
    l.append(1)
    raise ValueError


@case(False, {'k': S}, lambda e: {'r': z3.BoolVal(True)})
def asserts(k):
    assert k
    return 0


@case(False, {'k': S}, lambda e: {'r': z3.BoolVal(True)})
def unbound(k):
    if k: x = 1
    return x


@case(False, {'l': L}, lambda e: {'r': e.r == 0})
def nested_break(l):
    n = 0
    for x in l:
        for y in l:
            break
        n = n + 1
    return n


@case(False, {'l': L}, lambda e: {'r': e.r == 0})
def inner_continue(l):
    n = 0
    for x in l:
        for y in l:
            continue
        else: n = 1
    return n


# ---- calls of other functions are followed, or replaced by what they promise
def helper(l):
    l.append(2)
    return l


@case(False, {'l': L}, lambda e: {'same': e.fin('l') == e['l']}, modifies=['l'])
def through_helper(l):
    helper(l)
    return 0


@case(False, {'l': L}, lambda e: {'same': e.fin('l') == e['l']}, modifies=['l'])
def default_arg(l, m=None):
    if m is None: m = l
    m.append(1)
    return 0


# ---- a list whose elements are changed while they are visited
LD = TList(TDict(Any, {'a': (IntT, True)}))
def cut_list(e): return z3.And(T.length(e.fin('l')) == T.length(e['l']))


MARKED = T.Fold('bb_marked', lambda: T.empty(), lambda acc, x, p: T.concat(acc, T.unit(T.dput(x, T.sv('a'), V.IntV(1)))), T.SeqV, ())
def marked(lv): return {'m:' + n: q == T.concat(MARKED(lv.done), T.drop(lv.seq, T.length(lv.done))) for n, q in lv.lists() if q.sort() == T.SeqV} if lv.done is not None and lv.done.sort() == T.SeqV else {}
def acc_is(lv): return {'s:' + n: q == lv.done for n, q in lv.lists() if q.sort() == T.SeqV} if lv.done is not None and lv.done.sort() == T.SeqV else {}


@case(False, {'l': LD}, lambda e: {'same': e.fin('l') == e['l']}, modifies=['l'])
def mark_says_same(l):
    for x in l: x['a'] = 1
    return 0


@case(False, {'l': LD}, lambda e: {'same': z3.Implies(T.length(e['l']) > 0, e.fin('l')[0] == e['l'][0])}, modifies=['l'])
def mark_first_same(l):
    for x in l: x['a'] = 1
    return 0


@case(False, {'l': LD}, lambda e: {'copied': T.acc('items', e.rv) == e['l']}, modifies=['l'], cands=acc_is)
def mark_copies(l):
    out = []
    for x in l:
        x['a'] = 1
        out.append(dict(x))
    return out


@case(False, {'l': LD}, lambda e: {'same': cut_list(e)}, modifies=['l'])
def mark_first_deletes(l):
    for x in l:
        x['a'] = 1
        del l[0]
    return 0


@case(False, {'l': LD}, lambda e: {'seen': T.acc('items', e.rv) == e['l']}, modifies=['l'], cands=acc_is)
def mark_next(l):
    out = []
    i = 0
    for x in l:
        out.append(dict(x))
        i += 1
        if i < len(l): l[i]['a'] = 1
    return out


@case(False, {'l': LD}, lambda e: {'seen': T.acc('items', e.rv) == e['l']}, modifies=['l'], cands=acc_is)
def mark_last(l):
    out = []
    for x in l:
        out.append(dict(x))
        l[-1]['a'] = 1
    return out


@case(False, {'l': LD}, lambda e: {'none': T.length(e.fin('l')) == 0}, modifies=['l'])
def mark_grows(l):
    n = 0
    for x in l:
        x['a'] = 1
        n += 1
        if n < 3: l.append(x)
    return 0


@case(True, {'l': LD}, lambda e: {'before': T.acc('items', e.rv) == e['l']}, modifies=['l'], cands=acc_is)
def mark_after_copy(l):
    out = []
    for x in l:
        out.append(dict(x))
        x['a'] = 1
    return out


D = TDict(Any)


def dv(e, n, k): return T.dget(e.val(n, True), T.sv(k))


@case(False, {'d': D, 'b': BoolT}, lambda e: {'r': dv(e, 'd', 'x') == V.IntV(1)}, modifies=['d'])
def set_in_one_arm(d, b):
    if b: d['x'] = 1
    else: d['x'] = 2


@case(True, {'d': D, 'b': BoolT}, lambda e: {'r': dv(e, 'd', 'x') == T.ite(e['b'], V.IntV(1), V.IntV(2))}, modifies=['d'])
def set_in_both_arms(d, b):
    if b: d['x'] = 1
    else: d['x'] = 2


@case(False, {'d': D, 'b': BoolT, 'c': BoolT}, lambda e: {'r': T.dhas(e.val('d', True), T.sv('y'))}, modifies=['d'])
def keys_joined(d, b, c):
    if b: d['x'] = 1
    elif c: d['y'] = 2
    else: d['z'] = 1


@case(False, {'d': TDict(Any, {'t': (TDict(Any), False)})}, lambda e: {'r': T.dhas(dv(e, 'd', 't'), T.sv('k'))}, modifies=['d'])
def default_dictionary(d):
    if not d.get('t'): d['t'] = {}
    if len(d['t']) > 3: d['t']['k'] = 1


@case(False, {'l': L, 'b': BoolT}, lambda e: {'r': T.length(e.fin('l')) == T.length(e['l'])}, modifies=['l'])
def appended_in_one_arm(l, b):
    if b: l.append(1)
    else: l = [1]


@case(False, {'l': L, 'm': L, 'b': BoolT}, lambda e: {'r': e.fin('l') == e['l']}, modifies=['l', 'm'])
def alias_in_one_arm(l, m, b):
    if b: x = l
    else: x = m
    x.append(1)


def one(job):
    i, merge = job
    good, f, params, ens, raises, modifies, requires, classes, fields, cands = CASES[i]
    params = {k: v for k, v in params.items()}
    c = Contract(f.__name__, f, params, ensures=ens, raises=raises or {}, modifies=modifies, requires=requires, fields=fields, cands=cands)
    def mk():
        v = Verifier({}, classes=classes)
        v.merge = merge
        return v
    r = run_contract(c, mk, 4000)
    done = not r.error and bool(r.obls) and all(o[1] == 'proved' for o in r.obls)
    if done == good: return None
    if good: return '%s: a correct body was not accepted: %s %s' % (f.__name__, r.error, [o[:3] for o in r.obls if o[1] != 'proved'])
    return '%s: a wrong body was accepted' % f.__name__


if __name__ == '__main__':
    with mp.get_context('fork').Pool(8) as p: bad = [m for m in p.map(one, [(i, m) for m in (False, True) for i in range(len(CASES))], 1) if m]
    for m in bad: print(m)
    print('%d bodies, %d of them wrong: %d surprises, without and with joined branches' % (len(CASES), sum(not c[0] for c in CASES), len(bad)))
    sys.exit(1 if bad else 0)
