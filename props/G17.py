"""G17 Dependency lists are qualified, expanded and deduplicated without loss."""
import itertools
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from vlib import spec as S
import gyp.input as I
import gyp.common as C

V = T.V
SECTIONS = ["dependencies", "export_dependent_settings"]      # the documented dependency sections

# ------------------------------------------------------------------ spec
uniq = S.uniq
without = T.Fold('without', lambda x: T.empty(), lambda acc, y, p, x: T.ite(z3.simplify(y == x), acc, T.concat(acc, T.unit(y))), T.SeqV, (V,))


def cands_unify(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    for n, q in lv.lists():
        out['uniq:' + n] = q == uniq(lv.done)
        out['elems:' + n] = T.elems(q) == T.elems(lv.done)
    out.update(S.memo_cands(lv))
    return out


def cands_filter(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    for n, q in lv.lists():
        for m, b in lv.boxed(): out['without:%s:%s' % (n, m)] = q == without(lv.done, b)
    out.update(S.memo_cands(lv))
    return out


UNIFY = Contract('Unify', I.Unify, {'items': TList(StrT)}, ret=TList(StrT), ensures=lambda e: {'first-occurrences': e.rs() == uniq(e['items'])}, cands=cands_unify)
FILTER = Contract('Filter', I.Filter, {'items': TList(StrT), 'item': StrT}, ret=TList(StrT),
                  ensures=lambda e: {'all-but-item': e.rs() == without(e['items'], V.StrV(e['item']))}, cands=cands_filter)

VARS = TDict(Any, {'prune_self_dependency': (IntT, False), 'link_dependency': (IntT, False)})
TARGET = TDict(Any, {'dependencies': (TList(StrT), False), 'export_dependent_settings': (TList(StrT), False), 'variables': (VARS, False), 'type': (StrT, False)})
TARGETS = TDict(TARGET)


def on_section(d, key, f):
    """the target d with f applied to its list `key` if it is there and not empty"""
    k = T.sv(key)
    items = T.acc('items', T.dget(d, k))
    return T.ite(z3.And(T.dhas(d, k), items != T.empty()), T.dput(d, k, V.ListV(f(items))), d)


def dedup(d):
    for k in SECTIONS: d = on_section(d, k, uniq)
    return d


DICTARR = z3.ArraySort(T.String, V)
rd = T.Fold('dedup_targets', lambda v0: v0, lambda acc, x, p, v0: z3.Store(acc, x, dedup(T.aselect(acc, x))), DICTARR, (DICTARR,), elem=T.String)


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}))
    out = [(UNIFY, mk()), (FILTER, mk()), (RDD, mk(UNIFY)), (RSD, mk(FILTER))]
    return out


def cands_rdd(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqS: return out
    for n, d, loc in lv.kinds('dict'):
        v0 = lv.value(n, lv.entry)
        if isinstance(v0, Loc):
            out['dedup:' + n] = T.acc('vals', d) == rd(lv.done, T.acc('vals', lv.eng.read(lv.entry, v0)))
    return out


def prune(d):
    v = T.dget(d, T.sv('variables'))
    p = T.dget(v, T.sv('prune_self_dependency'))
    return z3.And(T.dhas(d, T.sv('variables')), T.dhas(v, T.sv('prune_self_dependency')), T.acc('i', p) != 0)


def self_pruned(d, x):
    """every dependency section of d without x, if d asks for it"""
    p = prune(d)
    for k in SECTIONS: d = on_section(d, k, lambda q: T.ite(z3.And(p, T.member(q, V.StrV(x))), without(q, V.StrV(x)), q))
    return d


rsd = T.Fold('self_pruned_targets', lambda v0: v0, lambda acc, x, p, v0: z3.Store(acc, x, self_pruned(T.aselect(acc, x), x)), DICTARR, (DICTARR,), elem=T.String)


def cands_rsd(lv):
    out = {}
    if lv.done is None: return out
    for n, d, loc in lv.kinds('dict'):
        v0 = lv.value(n, lv.entry)
        if not isinstance(v0, Loc) or loc.path: continue
        e0 = T.acc('vals', lv.eng.read(lv.entry, v0))
        if lv.done.sort() == T.SeqS: out['pruned:' + n] = T.acc('vals', d) == rsd(lv.done, e0)
        elif lv.outer is not None:
            for m, x in lv.scalars(TStr):
                if z3.is_string_value(x): continue
                for kn, k in lv.scalars(TStr):
                    if z3.is_string_value(k) and k.as_string() in SECTIONS:
                        d0 = T.aselect(e0, x)
                        c = z3.And(prune(d0), T.member(lv.done, V.StrV(x)))
                        out['sec:%s:%s:%s' % (n, m, kn)] = T.acc('vals', d) == z3.Store(e0, x, T.dput(d0, k, V.ListV(T.ite(c, without(lv.seq, V.StrV(x)), lv.seq))))
    return out


RSD = Contract('RemoveSelfDependencies', I.RemoveSelfDependencies, {'targets': TARGETS}, modifies=['targets'],
               ensures=lambda e: {'keys': T.acc('keys', e.fin('targets')) == T.acc('keys', e['targets']),
                                  'pruned': T.acc('vals', e.fin('targets')) == rsd(T.acc('keys', e['targets']), T.acc('vals', e['targets']))},
               cands=cands_rsd)

RDD = Contract('RemoveDuplicateDependencies', I.RemoveDuplicateDependencies, {'targets': TARGETS}, modifies=['targets'],
               ensures=lambda e: {'keys': T.acc('keys', e.fin('targets')) == T.acc('keys', e['targets']),
                                  'dedup': T.acc('vals', e.fin('targets')) == rd(T.acc('keys', e['targets']), T.acc('vals', e['targets']))},
               cands=cands_rdd)


# ------------------------------------------------------------------ bounded contract runs
# oracles are written from the property statement, on plain Python values
def first_occurrences(xs):
    out = []
    for i, x in enumerate(xs):
        if x not in xs[:i]: out.append(x)
    return out


def lists(n, alpha):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k): yield list(t)


def c_uniq(tier, rng):
    yield from lists(5 if tier == 'quick' else 7, 'abc')
    yield from lists(4, ['', 'a', 'A', 'a '])
    while True: yield [rng.choice(['t%d' % i for i in range(8)] + ['']) for _ in range(rng.randrange(30))]


def r_uniq(xs):
    want = first_occurrences(xs)
    for f in (I.Unify, C.uniquer, lambda l: list(C.OrderedSet(l))):
        src = list(xs)
        got = f(src)
        if list(got) != want: return diff('first occurrences of %r' % xs, got, want)
        if src != xs: return 'the argument was changed to %r' % src
    return None


def c_filter(tier, rng):
    for xs in lists(4 if tier == 'quick' else 6, 'abc'):
        for it in 'abd': yield (xs, it)
    while True:
        a = ['t%d' % i for i in range(6)] + ['', 't']
        yield ([rng.choice(a) for _ in range(rng.randrange(30))], rng.choice(a))


def r_filter(x):
    xs, it = x
    src = list(xs)
    return diff('items without %r' % it, I.Filter(src, it), [e for e in xs if not e == it]) or diff('the argument', src, xs)


def rand_targets(rng):
    names = ['%s.gyp:%s#target' % (f, n) for f in 'ab' for n in ('x', 'y', 'xy')]
    rng.shuffle(names)
    names = names[:rng.randrange(1, 6)]
    out = {}
    for n in names:
        d = {'target_name': n, 'type': rng.choice(['none', 'executable', 'static_library'])}
        for s in SECTIONS:
            if rng.random() < .75: d[s] = [rng.choice(names) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
        if rng.random() < .6:
            d['variables'] = {}
            if rng.random() < .7: d['variables']['prune_self_dependency'] = rng.choice([0, 1])
            if rng.random() < .7: d['variables']['link_dependency'] = rng.choice([0, 1])
        d['sources'] = [n, n]
        out[n] = d
    return out


def c_targets(tier, rng):
    while True: yield rand_targets(rng)


def tcopy(t):
    import copy
    return copy.deepcopy(t)


def flag(t, n, f): return t[n].get('variables', {}).get(f, 0)


def sect(t, want):
    """t with every dependency section replaced by want(name, dict, list)"""
    out = tcopy(t)
    for n, d in out.items():
        for s in SECTIONS:
            if s in d: d[s] = want(n, d, d[s])
    return out


def r_targets(t):
    a = tcopy(t)
    I.RemoveDuplicateDependencies(a)
    m = diff('without duplicates', a, sect(t, lambda n, d, l: first_occurrences(l)))
    if m: return m
    a = tcopy(t)
    I.RemoveSelfDependencies(a)
    m = diff('without self dependencies', a, sect(t, lambda n, d, l: [x for x in l if x != n or not flag(t, n, 'prune_self_dependency')]))
    if m: return m
    a = tcopy(t)
    I.RemoveLinkDependenciesFromNoneTargets(a)
    return diff('without link dependencies of none targets', a,
                sect(t, lambda n, d, l: [x for x in l if d['type'] != 'none' or not flag(t, x, 'link_dependency')]))


def c_qualify(tier, rng):
    files = ['a.gyp', 'd/b.gyp', '/abs/c.gyp', 'd/e/f.gyp', 'C:x.gyp']
    refs = ['t', 't#host', '../a.gyp:t', 'b.gyp:u#target', '/abs/c.gyp:t', 'e/f.gyp:*', 'x/../b.gyp:t#*', ':t', 'C:x.gyp:v', './b.gyp:u', '../d/b.gyp:u', 't#']
    while True:
        t = []
        for i in range(rng.randrange(1, 4)):
            deps = [rng.choice(refs) for _ in range(rng.randrange(0, 5))]
            d = {'deps': deps, 'file': rng.choice(files), 'name': 'n%d' % i, 'toolset': rng.choice(['target', 'host'])}
            if rng.random() < .5: d['export'] = [rng.choice(deps) for _ in range(rng.randrange(0, 3))] if deps and rng.random() < .9 else [rng.choice(refs)]
            t.append(d)
        yield (t, rng.random() < .6)


def o_resolve(ref, bf, toolset, multi):
    import posixpath as pp
    f, name, ts = None, ref, None
    if ':' in name: f, name = name[:name.rindex(':')], name[name.rindex(':') + 1:]
    if '#' in name: name, ts = name[:name.rindex('#')], name[name.rindex('#') + 1:]
    if f:
        f = pp.normpath(pp.join(pp.dirname(bf), f))
        if not f.startswith('/'): f = pp.relpath(pp.join('/base/dir', f), '/base/dir')
    else: f = bf
    ts = (ts or toolset) if multi else toolset
    return '%s:%s#%s' % (f, name, ts)


def r_qualify(x):
    spec, multi = x
    t, want, bad = {}, {}, False
    for d in spec:
        q = '%s:%s#%s' % (d['file'], d['name'], d['toolset'])
        t[q] = {'toolset': d['toolset'], 'dependencies': list(d['deps']), 'other': ['t']}
        w = [o_resolve(r, d['file'], d['toolset'], multi) for r in d['deps']]
        want[q] = {'toolset': d['toolset'], 'dependencies': w, 'other': ['t']}
        if 'export' in d:
            t[q]['export_dependent_settings'] = list(d['export'])
            e = [o_resolve(r, d['file'], d['toolset'], multi) for r in d['export']]
            want[q]['export_dependent_settings'] = e
            bad = bad or any(y not in w for y in e)
    old = I.multiple_toolsets
    with scratch() as dd:
        os.makedirs(dd + '/base/dir')
        os.chdir(dd + '/base/dir')
        I.multiple_toolsets = multi
        try: got = outcome(I.QualifyDependencies, t)
        finally: I.multiple_toolsets = old
    if bad: return None if got[:2] == ('raise', 'GypError') else 'a dependency outside "dependencies" was accepted: %r' % (got,)
    if got[0] != 'ok': return 'rejected: %r' % (got,)
    return diff('qualified', t, want)


def c_wild(tier, rng):
    while True:
        data = {}
        for f in ['a.gyp', 'd/b.gyp', 'c.gyp']:
            ts = []
            for n in rng.sample(['t', 'u', 'v', 'w*'], rng.randrange(0, 4)):
                for ts_ in rng.choice([['target'], ['host'], ['target', 'host']]):
                    d = {'target_name': n, 'toolset': ts_}
                    if rng.random() < .3: d['suppress_wildcard'] = rng.choice([0, 1, '1', '0'])
                    ts.append(d)
            data[f] = ts
        refs = ['%s:%s#%s' % (f, n, s) for f in list(data) for n in ('t', 'u', '*') for s in ('target', 'host', '*')]
        if rng.random() < .1: refs += ['no.gyp:*#target', 'no.gyp:t#target']
        tg = {}
        for f in rng.sample(list(data), rng.randrange(1, 3)):
            d = {}
            for s in SECTIONS:
                if rng.random() < .8: d[s] = [rng.choice([r for r in refs if '*' not in r or not r.startswith(f + ':') or rng.random() < .06]) for _ in range(rng.randrange(0, 5))]
            tg['%s:me#target' % f] = d
        yield (tg, data)


def r_wild(x):
    tg, data = x
    dd = {f: {'targets': tcopy(ts)} for f, ts in data.items()}
    got_t = tcopy(tg)
    want, bad = {}, False
    for q, d in tg.items():
        own = q[:q.rindex(':')]
        want[q] = {}
        for s, l in d.items():
            w = []
            for r in l:
                f, rest = r[:r.rindex(':')], r[r.rindex(':') + 1:]
                n, ts = rest[:rest.rindex('#')], rest[rest.rindex('#') + 1:]
                if n != '*' and ts != '*': w.append(r)
                elif f == own or f not in data: bad = True
                else:
                    w += ['%s:%s#%s' % (f, t['target_name'], t['toolset']) for t in data[f]
                          if not int(t.get('suppress_wildcard', 0)) and n in ('*', t['target_name']) and ts in ('*', t['toolset'])]
            want[q][s] = w
    got = outcome(I.ExpandWildcardDependencies, got_t, dd)
    if bad: return None if got[0] == 'raise' else 'an impossible wildcard was accepted: %r' % got_t
    if got[0] != 'ok': return 'rejected: %r' % (got,)
    return diff('expanded', got_t, want) or diff('the build files', dd, {f: {'targets': ts} for f, ts in data.items()})


def c_oset(tier, rng):
    while True:
        yield [(rng.choice(['add', 'add', 'discard', 'or', 'pop', 'update']), [rng.choice('abcde') for _ in range(rng.randrange(1, 4))]) for _ in range(rng.randrange(1, 9))]


def r_oset(ops):
    s, m = C.OrderedSet(), {}
    for op, a in ops:
        if op == 'add': s.add(a[0]); m.setdefault(a[0])
        elif op == 'discard': s.discard(a[0]); m.pop(a[0], None)
        elif op == 'or': s |= a; [m.setdefault(y) for y in a]
        elif op == 'update':
            s.update(a)
            for x in a: m.setdefault(x)
        elif op == 'pop' and m:
            last = list(m)[-1]
            if s.pop() != last: return 'pop did not give the last element'
            m.pop(last)
        if list(s) != list(m) or len(s) != len(m) or list(reversed(s)) != list(m)[::-1] or any((x in s) != (x in m) for x in 'abcdef'):
            return 'after %s %r: %r, wanted %r' % (op, a, list(s), list(m))
    return None


def bounded():
    return [
        Bounded('first-occurrences', c_uniq, r_uniq, 'every list over 3 names up to length 5 (7), then random lists up to length 30; Unify, uniquer and OrderedSet', budget=(8, 60), nontrivial=lambda x: len(set(x)) < len(x)),
        Bounded('filter', c_filter, r_filter, 'every list over 3 names up to length 4 (6) with every item, then random lists', budget=(8, 60), nontrivial=lambda x: x[1] in x[0]),
        Bounded('prune', c_targets, r_targets, 'random tables of up to 5 targets', budget=(12, 120)),
        Bounded('qualify', c_qualify, r_qualify, 'random tables of up to 3 targets and 4 references each, with and without multiple toolsets', budget=(12, 120), nontrivial=lambda x: any(d['deps'] for d in x[0])),
        Bounded('wildcards', c_wild, r_wild, 'random tables over 3 build files with wildcard names and toolsets', budget=(12, 120), nontrivial=lambda x: any('*' in r for d in x[0].values() for l in d.values() for r in l)),
        Bounded('ordered-set', c_oset, r_oset, 'random operation sequences of length up to 8 (the contract assumed for OrderedSet)', budget=(6, 60)),
    ]


META = dict(level='other', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='Unify, Filter, RemoveDuplicateDependencies and RemoveSelfDependencies are proved against their contracts for all inputs; '
                 'QualifyDependencies, ExpandWildcardDependencies, RemoveLinkDependenciesFromNoneTargets, uniquer and OrderedSet are run against their contracts on bounded inputs.')
