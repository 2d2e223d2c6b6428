"""G03 Merging settings follows the documented list and dictionary policies."""
import copy
import os
import re
import posixpath
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from pyvc.call import uf
from vlib import models as M
import gyp.input as I
import gyp.common as C

V = T.V


# ------------------------------------------------------------------ specification
STR = lambda v: T.acc('s', v)
is_ = lambda n, v: T.tester(n, v)
MPR = z3.Function('path_moved', V, T.String, T.String, V)                 # what MakePathRelative makes of an item (G04)
MERGED = z3.Function('merged_into_nothing', V, T.String, T.String, V)     # what MergeDicts makes of {} and a dictionary
ITEM = z3.Function('merge_item', V, T.String, T.String, T.Bool, V)        # an item as it arrives in the list merged into
PS = (T.String, T.String, T.Bool)


def scalar(x): return z3.Or(is_('StrV', x), is_('IntV', x))
def singleton(x): return z3.And(scalar(x), z3.Not(z3.And(is_('StrV', x), z3.PrefixOf(T.sv('-'), STR(x)))))
def hashable(x): return z3.Not(z3.Or(is_('ListV', x), is_('DictV', x)))


COPY = T.Fold('copied_items', lambda t, f, p: T.empty(), lambda acc, x, q, t, f, p: T.concat(acc, T.unit(ITEM(x, t, f, z3.BoolVal(False)))), T.SeqV, PS)
without = T.Fold('without', lambda x: T.empty(), lambda acc, y, p, x: T.ite(z3.simplify(y == x), acc, T.concat(acc, T.unit(y))), T.SeqV, (V,))
APPENDED = T.Fold('appended', lambda q0, t, f, p: q0, lambda acc, x, q, q0, t, f, p: T.ite(z3.And(singleton(x), T.member(acc, ITEM(x, t, f, p))), acc, T.concat(acc, T.unit(ITEM(x, t, f, p)))), T.SeqV, (T.SeqV,) + PS)
NEW = T.Fold('prepended', lambda t, f, p: T.empty(), lambda acc, x, q, t, f, p: T.ite(z3.And(singleton(x), T.member(acc, ITEM(x, t, f, p))), acc, T.concat(acc, T.unit(ITEM(x, t, f, p)))), T.SeqV, PS)
OLD = T.Fold('not_prepended', lambda q0, t, f, p: q0, lambda acc, x, q, q0, t, f, p: T.ite(z3.And(singleton(x), z3.Not(T.member(NEW(q, t, f, p), ITEM(x, t, f, p)))), without(acc, ITEM(x, t, f, p)), acc), T.SeqV, (T.SeqV,) + PS)
REMOVED = T.FoldR('remove_first_', lambda x: T.empty(), lambda acc, y, q, x: T.ite(z3.simplify(y == x), q, T.concat(T.unit(y), acc)), T.SeqV, (V,))
HASHED = T.Fold('hashable_elements', lambda: z3.K(V, z3.BoolVal(False)), lambda acc, x, q: T.ite(hashable(x), z3.Store(acc, x, z3.BoolVal(True)), acc), T.SetV)


def item_facts(x, t, f, p):
    """the definition of ITEM at x"""
    return [z3.Implies(scalar(x), ITEM(x, t, f, p) == T.ite(p, MPR(x, t, f), x)), z3.Implies(is_('DictV', x), ITEM(x, t, f, p) == MERGED(x, t, f)),
            z3.Implies(is_('ListV', x), ITEM(x, t, f, p) == V.ListV(COPY(T.acc('items', x), t, f, z3.BoolVal(False))))]


def hash_facts(q, x): return [z3.Implies(hashable(x), z3.Select(HASHED(q), x) == T.member(q, x))]


def lem_hash():
    q, y, x = z3.Const('q', T.SeqV), z3.Const('y', V), z3.Const('x', V)
    yield 'base', [], z3.And(*hash_facts(T.empty(), x))
    yield 'step', hash_facts(q, x), z3.And(*hash_facts(T.concat(q, T.unit(y)), x))


def lem_without():
    q, p, b, f, w = (z3.Const(n, T.SeqV) for n in 'qpbfw')
    y, x = z3.Const('y', V), z3.Const('x', V)
    stays = lambda t: z3.Implies(z3.Not(T.member(t, x)), without(t, x) == t)
    yield 'stays-base', [], stays(T.empty())
    yield 'stays-step', [stays(q)], stays(T.concat(q, T.unit(y)))
    split = lambda a, c: without(T.concat(a, c), x) == T.concat(without(a, x), without(c, x))
    yield 'split-base', [], split(p, T.empty())
    yield 'split-step', [split(p, q)], without(T.concat(T.concat(p, q), T.unit(y)), x) == T.concat(without(p, x), without(T.concat(q, T.unit(y)), x))


def lem_removed():
    q, p, b, f, w = (z3.Const(n, T.SeqV) for n in 'qpbfw')
    y, x = z3.Const('y', V), z3.Const('x', V)
    one = T.unit(y)
    split = lambda a, c: without(T.concat(a, c), x) == T.concat(without(a, x), without(c, x))
    same = lambda t: without(REMOVED(t, x), x) == without(t, x)
    yield 'removed-from-nothing', [], same(T.empty())
    yield 'removed-later', [same(q), split(one, q), split(one, REMOVED(q, x))], same(T.concat(one, q))
    behind = lambda t: z3.Implies(z3.Not(T.member(t, x)), REMOVED(T.concat(t, b), x) == T.concat(t, REMOVED(b, x)))
    yield 'behind-nothing', [], behind(T.empty())
    yield 'behind-step', [behind(f)], z3.Implies(z3.Not(T.member(T.concat(one, f), x)), REMOVED(T.concat(one, T.concat(f, b)), x) == T.concat(one, T.concat(f, REMOVED(b, x))))
    # the facts used in the loop, from the lemmas above
    q2 = T.concat(f, b)
    n = T.length(f)
    r = z3.Const('r', T.SeqV)
    yield 'facts', [r == T.concat(f, REMOVED(b, x)), same(b)], z3.And(z3.SubSeq(r, 0, n) == f, n <= T.length(r), without(z3.SubSeq(r, n, T.length(r) - n), x) == without(b, x))


DATA = TUnion(NoneT, BoolT, IntT, StrT, TList(Any), TDict(Any))
ERR = {TypeError: lambda e: z3.BoolVal(True), C.GypError: lambda e: z3.BoolVal(True)}
MAKE = Contract('MakePathRelative', I.MakePathRelative, {'to_file': StrT, 'fro_file': StrT, 'item': Any}, ret=Any, raises={TypeError: lambda e: z3.BoolVal(True)}, trusted=True,
                ensures=lambda e: {'moved': z3.And(e.rv == MPR(e.val('item'), e['to_file'], e['fro_file']), hashable(e.rv))})
DICTS0 = Contract('MergeDicts', I.MergeDicts, {'to': TDict(Any), 'fro': TDict(Any), 'to_file': StrT, 'fro_file': StrT}, ret=NoneT, raises=ERR, modifies={'to'}, trusted=True,
                  ensures=lambda e: {'merged': z3.Implies(e.val('to') == T.EMPTY_DICT, e.val('to', True) == MERGED(e.val('fro'), e['to_file'], e['fro_file']))})


def lists_args(e): return (e['to_file'], e['fro_file'], e['is_paths'])


def target_list(lv):
    """the list merged into"""
    e = lv.eng.entry
    for n, q in lv.lists():
        v = lv.value(n)
        if isinstance(v, Loc) and v.rid == e.params['to'].rid and not v.path: yield n, q


def items_of(lv):
    """local values of unknown type"""
    ps = [str(p) for p in lv.eng.entry.params]
    for n, x in lv.boxed():
        if n.split('@')[0] not in ps and not is_of(lv.value(n)): yield n, x


def is_of(v): return isinstance(v, Sc) and not sort_of(v.ty) == V


def lists_cands(lv):
    out = {}
    e = lv.eng.entry
    a, to0 = lists_args(e), e['to']
    if lv.done is None:
        # the loop that removes a prepended item from further back
        if lv.outer is None: return out
        d = lv.outer.done
        for n, q in target_list(lv):
            for m, b in lv.scalars(TBool): out['kept:%s:%s' % (n, m)] = z3.Or(b, q == T.concat(NEW(d, *a), OLD(d, to0, *a)))
            for i, k in lv.scalars(TInt):
                out['front:%s:%s' % (n, i)] = z3.And(k == T.length(NEW(d, *a)), k <= T.length(q), z3.SubSeq(q, 0, k) == NEW(d, *a))
                for m, x in items_of(lv):
                    out['back:%s:%s:%s' % (n, i, m)] = without(z3.SubSeq(q, k, T.length(q) - k), x) == without(OLD(d, to0, *a), x)
        return out
    d = lv.done
    for n, t, v in lv.kinds('set'):
        out['hashed:' + n] = t == HASHED(d)
        for m, q in lv.lists(): out['hashed:%s:%s' % (n, m)] = z3.Or(z3.Not(e['append']), t == HASHED(q))
    for n, q in target_list(lv):
        out['appended:' + n] = z3.Or(z3.Not(e['append']), q == APPENDED(d, to0, *a))
        out['prepended:' + n] = z3.Or(e['append'], q == T.concat(NEW(d, *a), OLD(d, to0, *a)))
        out['same:' + n] = q == to0
    for n, q in lv.lists(): out['copied:' + n] = q == COPY(d, a[0], a[1], z3.BoolVal(False))
    for n, k in lv.scalars(TInt): out['index:' + n] = z3.Or(e['append'], k == T.length(NEW(d, *a)))
    return out


def remove_facts(q, n, x):
    """removing the first x of q, when there is none before n; and when there is none at all"""
    r = REMOVED(q, x)
    f, b = z3.SubSeq(q, 0, n), z3.SubSeq(q, n, T.length(q) - n)
    return [z3.Implies(z3.And(n >= 0, n <= T.length(q), T.member(q, x), z3.Not(T.member(f, x))),
                       z3.And(z3.SubSeq(r, 0, n) == f, n <= T.length(r), without(z3.SubSeq(r, n, T.length(r) - n), x) == without(b, x))),
            z3.Implies(z3.Not(T.member(q, x)), without(q, x) == q)]


def lists_loop_facts(lv):
    if lv.done is not None or lv.outer is None: return []
    out = []
    for n, q in target_list(lv):
        for i, k in lv.scalars(TInt):
            for m, x in items_of(lv):
                out += remove_facts(q, k, x)
                b = z3.SubSeq(q, k, T.length(q) - k)
                out += [z3.Implies(z3.Not(T.member(q, x)), z3.And(z3.Not(T.member(b, x)), without(b, x) == b))]
    return out


def lists_facts(eng, s, seq, done, x, rest):
    a = lists_args(eng.entry)
    return item_facts(x, *a) + item_facts(x, a[0], a[1], z3.BoolVal(False)) + hash_facts(APPENDED(done, eng.entry['to'], *a), ITEM(x, *a))


def lists_ens(e):
    a = lists_args(e)
    q = T.acc('items', e.val('to', True))
    return {'appended': z3.Implies(e['append'], q == APPENDED(e['fro'], e['to'], *a)),
            'prepended': z3.Implies(z3.Not(e['append']), q == T.concat(NEW(e['fro'], *a), OLD(e['fro'], e['to'], *a)))}


LISTS = Contract('MergeLists', I.MergeLists, {'to': TList(Any), 'fro': TList(Any), 'to_file': StrT, 'fro_file': StrT, 'is_paths': BoolT, 'append': BoolT}, ret=NoneT, raises=ERR, modifies={'to'},
                 ensures=lists_ens, cands=lists_cands, elem_facts=lists_facts, loop_facts=lists_loop_facts)


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, models=dict(M.PATHS)))
    return [(LISTS, mk(MAKE, DICTS0, LISTS)), (Lemma('the-set-of-hashable-elements', lem_hash), mk()), (Lemma('a-list-without-an-item', lem_without), mk()), (Lemma('removing-the-first-occurrence', lem_removed), mk())]


# ------------------------------------------------------------------ bounded: reference merge on plain values, from the documentation
class Bad(Exception): pass
class Skip(Exception): pass


PATHS = {'destination', 'files', 'include_dirs', 'inputs', 'libraries', 'outputs', 'sources'}


def path_key(k):
    k = k.rstrip('=+?!')
    return k in PATHS or bool(re.search('_(dir|file|path)s?$', k))


def moved(item, to_file, fro_file):
    if to_file == fro_file: return item
    if not isinstance(item, str):
        if str(item)[0] == '-': return item
        item = str(item)
    if item[:1] in tuple('/$-<>^'): return item
    if '\\' in item or item == '' or item[0] in '"\'': raise Skip('left to G04')
    r = posixpath.normpath(posixpath.join(posixpath.relpath(posixpath.join(os.getcwd(), posixpath.dirname(fro_file)), posixpath.join(os.getcwd(), posixpath.dirname(to_file))), item))
    return r + '/' if item.endswith('/') else r


def ref_copy(x, ctx):
    if isinstance(x, dict):
        out = {}
        ref_dicts(out, x, ctx)
        return out
    if isinstance(x, list): return [ref_copy(y, ctx) for y in x]
    if type(x) not in (str, int): raise Bad('kind')
    return x


def ref_lists(to, fro, ctx, is_path, append):
    news, rest = [], list(to)
    for x in fro:
        scalar = type(x) in (str, int)
        single = scalar and not (isinstance(x, str) and x.startswith('-'))
        y = moved(x, *ctx) if scalar and is_path else ref_copy(x, ctx)
        if append:
            if not single or not any(same(y, z) for z in rest): rest.append(y)
        elif not single: news.append(y)
        else:
            rest = [z for z in rest if not same(y, z)]
            if not any(same(y, z) for z in news): news.append(y)
    return news + rest


def same(a, b): return type(a) is type(b) and a == b


def ref_dicts(to, fro, ctx):
    lists = {k: v for k, v in fro.items() if isinstance(v, list)}
    for k in lists:
        base, ext = (k[:-1], k[-1]) if k[-1] in '=+?' else (k, '')
        others = [e for e in ('', '+', '=', '?') if e != ext and base + e in fro]
        if any(not isinstance(fro[base + e], list) for e in others): raise Skip('a scalar named like a list with a policy')
        if others and {ext, *others} != {'', '+'}: raise Bad('policies')
    for k, v in fro.items():
        if type(v) in (str, int):
            if k in to and type(to[k]) not in (str, int): raise Bad('kind')
            to[k] = moved(v, *ctx) if path_key(k) else v
        elif isinstance(v, dict):
            if not isinstance(to.setdefault(k, {}), dict): raise Bad('kind')
            ref_dicts(to[k], v, ctx)
        elif isinstance(v, list):
            if k in to and not isinstance(to[k], list): raise Bad('kind')
            base, ext = (k[:-1], k[-1]) if k[-1] in '=+?' else (k, '')
            if ext == '?' and base in to: continue
            if ext == '=': to[base] = []
            if not isinstance(to.setdefault(base, []), list): raise Bad('kind')
            to[base] = ref_lists(to[base], v, ctx, path_key(base), ext != '+')
        else: raise Bad('kind')


def containers(x, out=None):
    out = {} if out is None else out
    if isinstance(x, (list, dict)):
        out[id(x)] = x
        for y in x.values() if isinstance(x, dict) else x: containers(y, out)
    return out


def typed(x):
    """equality that tells 1 from '1' and sees the order of keys"""
    return repr(x)


def r_merge(x):
    to, fro, tf, ff = x
    to1, fro1 = copy.deepcopy(to), copy.deepcopy(fro)
    want = copy.deepcopy(to)
    try:
        ref_dicts(want, fro, (tf, ff))
        bad = False
    except Skip: return None
    except Bad: bad = True
    I.path_sections.clear()
    I.path_sections.update(I.base_path_sections)
    o = outcome(I.MergeDicts, to1, fro1, tf, ff)
    if o[0] == 'raise' and o[1] not in ('GypError', 'TypeError'): return 'failed with %r' % (o,)
    if bad: return None if o[0] == 'raise' else 'accepted, and gives %r' % to1
    if o[0] == 'raise': return 'rejected: %r' % (o,)
    m = diff('the merged settings', to1, want) or diff('the settings merged from', fro1, fro)
    if m: return m
    if typed(fro1) != typed(fro): return 'the settings merged from have changed: %r' % fro1
    shared = set(containers(to1)) & set(containers(fro1))
    if shared: return 'the result shares %r with the settings merged from' % containers(fro1)[shared.pop()]
    return None


ITEMS = ['a', 'b', 'c', '-x', '-y', '', 1, 2, '1', 'a', 'b']
KEYS = ['l', 'm', 'sources', 's', 'n', 'd', 'e', 'x_dir', 'l/', 'm!']


class Gen:
    def __init__(self, rng): self.rng = rng

    def items(self, depth, n=4):
        rng = self.rng
        out = []
        for _ in range(rng.randrange(0, n)):
            r = rng.random()
            if depth > 0 and r < .12: out.append(self.d(depth - 1))
            elif depth > 0 and r < .24: out.append(self.items(depth - 1, 4))
            else: out.append(rng.choice(ITEMS))
        return out

    def d(self, depth, odd=.03):
        rng = self.rng
        out = {}
        for k in rng.sample(KEYS, rng.choice([0, 1, 2, 3])):
            if rng.random() < odd: kind = rng.choice('sld')
            else: kind = {'s': 's', 'n': 's', 'x_dir': 's', 'd': 'd', 'e': 'd'}.get(k, 'l')
            if kind == 's': out[k] = rng.choice(['v', 'w', 3, '3', '-z', 0])
            elif kind == 'd': out[k] = self.d(depth - 1) if depth > 0 else {}
            else:
                for e in rng.choice([[''], [''], [''], ['+'], ['='], ['?'], ['', '+'], ['+', '']] + ([rng.sample(['', '+', '=', '?'], 2)] if rng.random() < .1 else [])):
                    out[k + e] = self.items(depth)
        ks = list(out)
        rng.shuffle(ks)
        return {k: out[k] for k in ks}


def c_merge(tier, rng):
    while True:
        g = Gen(rng)
        a = g.d(rng.choice([0, 1, 2]))
        if rng.random() < .7: a = {k.rstrip('=+?') if isinstance(v, list) else k: v for k, v in a.items()}
        yield (a, g.d(rng.choice([0, 1, 2])), 'f.gyp', 'f.gyp')


def lists_of(alpha, n):
    import itertools
    for k in range(n + 1):
        for x in itertools.product(alpha, repeat=k): yield list(x)


def c_lists(tier, rng):
    """one list into another, all short ones, under every policy"""
    n = 3
    for fro in lists_of(['a', 'b', '-x'], n):
        for to in lists_of(['a', 'b', '-x'], n):
            for e in ('', '+', '=', '?'): yield ({'l': to}, {'l' + e: fro}, 'f', 'f')
    for e in ('', '+', '=', '?'):
        for fro in lists_of(['a', '-x', 1, '1'], 2): yield ({}, {'l' + e: fro}, 'f', 'f')
    while True:
        al = ['a', 'b', 'c', 'd', '-x', '-y', 1, 2, '1', ['a'], {'k': ['a']}, []]
        yield ({'l': [rng.choice(al) for _ in range(rng.randrange(0, 7))]}, {'l' + rng.choice(['', '+', '+', '=', '?']): [rng.choice(al) for _ in range(rng.randrange(0, 7))]}, 'f', 'f')


def c_policies(tier, rng):
    """every pair and triple of policies for one list, in every order, with and without the list there"""
    import itertools
    for n in (1, 2, 3, 4):
        for es in itertools.permutations(['', '+', '=', '?'], n):
            for to in ({}, {'l': []}, {'l': ['b', 'z']}, {'l': 's'}, {'l': {}}, {'l': 0}, {'l?': ['q']}, {'l+': 'q'}, {'l=': ['q']}):
                for vs in ([['a', 'b'], ['b', 'c'], ['d'], ['e']], [[], [], [], []]):
                    for wrap in (0, 1):
                        fro = {'l' + e: v for e, v in zip(es, vs)}
                        yield ({'d': to}, {'d': fro}, 'f', 'f') if wrap else (to, fro, 'f', 'f')


def c_kinds(tier, rng):
    vals = ['s', '', 0, 5, [], ['a'], {}, {'x': 's'}, {'x': [['y']]}, None, 1.5, (1,), [None], [1.5], {'x': None}, [[None]], [{'x': 2.5}], [{'x': {'y': [3.5]}}]]
    plain = lambda x: type(x) in (str, int) or (isinstance(x, list) and all(map(plain, x))) or (isinstance(x, dict) and all(map(plain, x.values())))
    for v in vals:
        yield ({}, {'k': v}, 'f', 'f')
        for w in vals:
            if plain(w): yield ({'k': w}, {'k': v}, 'f', 'f')


def c_paths(tier, rng):
    files = ['f.gyp', 'a/f.gyp', 'a/b/f.gyp', 'c/f.gyp', 'c/d/f.gyp', 'a/g.gypi']
    items = ['x', 'x/y', '../x', '../a/x', './x', 'x/', '/abs', '$(V)/x', '-lx', '<(v)/x', '>(v)', '^(v)', '~/x', 'x//y', 'a/../x', '.']
    secs = ['sources', 'include_dirs', 'defines', 'my_dir', 'my_dirs', 'my_file', 'some_paths', 'mydir', 'libraries', 'sources!', 'sources/', 'actions']
    for tf in files:
        for ff in files:
            yield ({}, {s: list(items) for s in secs}, tf, ff)
    while True:
        k = rng.choice(secs)
        e = rng.choice(['', '', '+', '=', '?'])
        some = lambda: [rng.choice(items) for _ in range(rng.randrange(1, 4))]
        fro = {k + e: some()} if rng.random() < .8 else {rng.choice(['my_dir', 'destination', 'other']): rng.choice(items)}
        if rng.random() < .3: fro = {'d': fro, 'actions': [dict(fro), [dict(fro)]]}
        yield ({k: some()}, fro, rng.choice(files), rng.choice(files))


def bounded():
    return [Bounded('lists', c_lists, r_merge, 'all lists of up to 3 of 3 items under the 4 policies, random ones of up to 6 of 12 items', budget=(6, 60)),
            Bounded('policies', c_policies, r_merge, 'all combinations of policies for one list in every order', budget=(4, 30)),
            Bounded('kinds', c_kinds, r_merge, 'all pairs of 18 values', budget=(3, 10)),
            Bounded('dictionaries', c_merge, r_merge, 'random dictionaries up to 3 deep over 10 keys, with and without policies', budget=(7, 60)),
            Bounded('paths', c_paths, r_merge, 'six pairs of build files, 17 items, 12 keys, all policies', budget=(4, 40))]


META = dict(level='other', technique='contract-based deductive verification (pyvc)', note='')


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='MergeLists (append and prepend, any lists of any items, its recursion into sublists) produces exactly the list the policies describe, raising only TypeError or GypError; '
                 'the facts about lists used in its loops are proved as lemmas by induction. MergeDicts (policies by key suffix, kinds, no sharing, the source unchanged) is bounded, against an independent reference merge.',
            assumptions=['MakePathRelative is a function of its three arguments here (its own behaviour is G04)', 'MergeDicts of {} and a dictionary is a function of the dictionary and the two file names (bounded in this property)',
                         'items are values of GYP files (str, int, list, dict) or other boxed values; an item of a class with its own equality is not covered'])
