"""G15 Configurations inherit from target, parents and nothing else."""
import copy
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from vlib import models as M
from vlib.load import load
from props import G03
import gyp.input as I
import gyp.common as C
import gyp.simple_copy as S

V = T.V


# ------------------------------------------------------------------ specification
is_ = lambda n, v: T.tester(n, v)
key = lambda s: V.StrV(s)
OVERLAY = z3.Function('overlaid_by', V, V, T.String, T.String, V)       # (settings, settings, file, file): what MergeDicts makes of them (G03)
INH = z3.Function('with_ancestors', V, T.String, V, T.SeqV, T.String, V)     # (settings so far, configuration, configurations, path from the one asked for, file): defined by inh_def
PARENTS = T.Fold('parents_overlaid', lambda a, c, p, f: a, lambda acc, x, q, a, c, p, f: INH(acc, T.acc('s', x), c, p, f), V, (V, V, T.SeqV, T.String))
ERR = {TypeError: lambda e: z3.BoolVal(True), C.GypError: lambda e: z3.BoolVal(True), KeyError: lambda e: z3.BoolVal(True)}


def parents_of(cfg): return T.ite(T.dhas(cfg, T.sv('inherit_from')), T.acc('items', T.dget(cfg, T.sv('inherit_from'))), T.empty())


def without(d, k): return T.ite(T.dhas(d, k), T.ddel(d, k), d)


def inh_def(a, n, cs, p, f):
    """a configuration on its own path adds nothing; otherwise its parents come first, in their order, then it, and "abstract" goes"""
    cfg = T.dget(cs, n)
    return INH(a, n, cs, p, f) == T.ite(T.member(p, key(n)), a, without(OVERLAY(PARENTS(parents_of(cfg), a, cs, T.concat(p, T.unit(key(n))), f), cfg, f, f), T.sv('abstract')))


OVER = Contract('MergeDicts', I.MergeDicts, {'to': TDict(Any), 'fro': TDict(Any), 'to_file': StrT, 'fro_file': StrT}, ret=NoneT, raises=ERR, modifies={'to'}, trusted=True,
                ensures=lambda e: {'merged': e.val('to', True) == OVERLAY(e.val('to'), e.val('fro'), e['to_file'], e['fro_file'])},
                assumed=['MergeDicts changes the dictionary merged into, to a function of its arguments (G03), and nothing else'])
CONF = TDict(Any, {'inherit_from': (TList(StrT), False), 'abstract': (Any, False)})
TARGET = TDict(Any, {'configurations': (TDict(CONF), False), 'default_configuration': (Any, False)})
new_of = lambda e, final=False: e.val('new_configuration_dict', final)
path_of = lambda e: T.acc('items', e.val('visited'))
configs_of = lambda e: T.dget(e.val('target_dict'), T.sv('configurations'))


def inherit_cands(lv):
    e = lv.eng.entry
    if lv.done is None: return {}
    return {'overlaid': lv.eng.box(lv.st, e.params['new_configuration_dict']) == PARENTS(lv.done, new_of(e), configs_of(e), T.concat(path_of(e), T.unit(key(e['configuration']))), e['build_file'])}


INHERIT = Contract('MergeConfigWithInheritance', I.MergeConfigWithInheritance, {'new_configuration_dict': TDict(Any), 'build_file': StrT, 'target_dict': TARGET, 'configuration': StrT, 'visited': TList(StrT)}, ret=NoneT, raises=ERR,
                   modifies={'new_configuration_dict'}, cands=inherit_cands, facts=lambda e: [inh_def(new_of(e), e['configuration'], configs_of(e), path_of(e), e['build_file'])],
                   ensures=lambda e: {'ancestors-then-own': new_of(e, True) == INH(new_of(e), e['configuration'], configs_of(e), path_of(e), e['build_file'])})


# --- all configurations of a target
S0, SUF = z3.String('any_key'), ('=', '+', '?', '!', '/')
X0, B0 = z3.String('any_configuration'), z3.String('any_forbidden_key')
FORBIDDEN = ('actions', 'all_dependent_settings', 'configurations', 'dependencies', 'direct_dependent_settings', 'libraries', 'link_settings', 'sources', 'standalone_static_library', 'target_name', 'type')
TARGET1 = TDict(Any, {'configurations': (TDict(CONF), True), 'default_configuration': (Any, True)})


def base_term(k):
    n = z3.Length(k)
    last = z3.SubString(k, n - 1, z3.IntVal(1))
    return T.ite(z3.Or(*[last == T.sv(x) for x in SUF]), z3.SubString(k, z3.IntVal(0), n - 1), k)


def stays(stay, k): return T.member(stay, key(base_term(k)))
BASE = T.Fold('settings_that_move', lambda d, stay: T.EMPTY_DICT, lambda acc, k, q, d, stay: T.ite(stays(stay, k), acc, T.dset(acc, k, T.dget(d, k))), V, (V, T.SeqV), elem=T.String)


COPY = Contract('deepcopy', S.deepcopy, {'x': Any}, ret=Any, raises={}, trusted=True, ensures=lambda e: {'equal': e.rv == e.val('x')}, assumed=['deepcopy returns an equal value that shares nothing with the original (G14)'])


FILE = z3.Function('file_of_target', T.String, T.String)
BUILDFILE = Contract('BuildFile', C.BuildFile, {'fully_qualified_target': StrT}, ret=StrT, raises={IndexError: lambda e: z3.BoolVal(True)}, trusted=True, ensures=lambda e: {'file': e.rv == key(FILE(e['fully_qualified_target']))}, assumed=['BuildFile is a function of the name (G07 of its parts)'])


def truthy(v): return SETUP_ENG.truth(None, Sc(v, Any))
SETUP_ENG = Verifier({})
def stay_of(e): return T.acc('items', e.eng.box(e.st0, e.params['non_configuration_keys']))
def abstract(e, c): return z3.And(T.dhas(c, T.sv('abstract')), truthy(T.dget(c, T.sv('abstract'))))
def target0(e):
    """the target, with one default configuration if it has none"""
    t = e.val('target_dict')
    if e.eng.cur.name == 'SetUpConfigurations': return t
    ks = T.concat(T.acc('keys', t), T.seq_of([T.sv('configurations')], T.SeqS), T.seq_of([T.sv('default_configuration')], T.SeqS))
    v = z3.Store(T.acc('vals', t), T.sv('configurations'), T.dset(T.EMPTY_DICT, T.sv('Default'), T.EMPTY_DICT))
    return V.DictV(ks, z3.Store(v, T.sv('default_configuration'), key(T.sv('Default'))))


def configs0(e): return T.dget(target0(e), T.sv('configurations'))


def inherited(e):
    """what the configuration X0 becomes"""
    t = target0(e)
    return INH(BASE(T.acc('keys', t), t, stay_of(e)), X0, configs0(e), T.empty(), FILE(e['target']))


def concrete(e): return z3.Not(abstract(e, T.dget(configs0(e), X0)))


def setup_facts(e):
    t, f, ab = target0(e), FILE(e['target']), T.sv('abstract')
    cfg = T.dget(configs0(e), X0)
    return [inh_def(BASE(T.acc('keys', t), t, stay_of(e)), X0, configs0(e), T.empty(), f), z3.Not(T.dhas(inherited(e), ab))]       # by lemma


def lem_abstract():
    """a configuration with its ancestors is without "abstract" """
    a, cs, n, f, p = z3.Const('a', V), z3.Const('cs', V), z3.String('n'), z3.String('f'), z3.Const('p', T.SeqV)
    cfg, ab = T.dget(cs, n), T.sv('abstract')
    over = OVERLAY(PARENTS(parents_of(cfg), a, cs, T.unit(key(n)), f), cfg, f, f)
    yield 'kept', [INH(a, n, cs, T.empty(), f) == over, z3.Not(T.dhas(over, ab))], z3.Not(T.dhas(INH(a, n, cs, T.empty(), f), ab))
    yield 'dropped', [], z3.Not(T.dhas(T.ddel(over, ab), ab))
    yield 'one-of-them', [inh_def(a, n, cs, T.empty(), f)], INH(a, n, cs, T.empty(), f) == T.ite(T.dhas(over, ab), T.ddel(over, ab), over)


def setup_ens(e):
    t0, t1 = target0(e), e.val('target_dict', True)
    cs = T.dget(t1, T.sv('configurations'))
    other = z3.And(S0 != T.sv('configurations'))
    return {'concrete-ones-only': T.dhas(cs, X0) == z3.And(T.dhas(configs0(e), X0), concrete(e)), 'inherited': z3.Implies(T.dhas(cs, X0), T.dget(cs, X0) == inherited(e)),
            'target-level-keys-stay': T.dhas(t1, S0) == z3.And(T.dhas(t0, S0), stays(stay_of(e), S0)), 'target-level-settings-stay': z3.Implies(z3.And(T.dhas(t1, S0), other), T.dget(t1, S0) == T.dget(t0, S0)),
            'nothing-forbidden': z3.Implies(T.dhas(cs, X0), z3.Not(T.dhas(T.dget(cs, X0), B0)))}


def setup_cands(lv):
    e = lv.eng.entry
    if lv.done is None: return {}
    out = {}
    t0, stay, c0 = target0(e), stay_of(e), configs0(e)
    t = lv.eng.box(lv.st, e.params['target_dict'])
    c = T.dget(t, T.sv('configurations'))
    strs = lv.done.sort() == T.SeqS
    seen = lambda k: T.member(lv.done, k if strs else key(k))
    over_target = strs and lv.seq is not None and lv.seq.eq(T.acc('keys', t))
    over_configs = strs and lv.seq is not None and lv.seq.eq(T.acc('keys', c))
    dicts = [(n, d) for n, d, _ in lv.kinds('dict') if not n.startswith('%') and d.sort() == V and not d.eq(t) and not d.eq(c)]
    if over_target:
        for n, d in dicts: out['moves:' + n] = d == BASE(lv.done, t0, stay)
    if strs and not over_configs:
        for n, q in lv.lists():
            if not n.startswith('%') and q.sort() == T.SeqV:
                for s in (S0, T.sv('configurations')): out['to-delete:%s:%s' % (n, s)] = T.member(q, key(s)) == z3.And(seen(s), z3.Not(stays(stay, s)))
    if over_configs:
        for n, d in dicts:
            out['built:' + n] = T.dhas(d, X0) == z3.And(seen(X0), concrete(e))
            out['built-right:' + n] = z3.Implies(T.dhas(d, X0), T.dget(d, X0) == inherited(e))
            out['kept:' + n] = z3.Implies(T.dhas(d, X0), T.dget(d, X0) == T.dget(c, X0))
        out['checked'] = z3.Implies(seen(X0), z3.Not(T.dhas(T.dget(c, X0), B0)))
    elif strs and not over_target:
        out['others'] = z3.Implies(S0 != T.sv('configurations'), T.dget(t, S0) == T.dget(t0, S0))
        out['same-names'] = T.dhas(c, X0) == T.dhas(c0, X0)
        out['put-back'] = z3.Implies(seen(X0), T.dget(c, X0) == inherited(e))
        out['not-put-back'] = z3.Implies(z3.Not(seen(X0)), T.dget(c, X0) == T.dget(c0, X0))
        out['checking'] = z3.Not(seen(B0))
    elif not strs:
        for s in (S0, T.sv('configurations')):
            out['deleted:%s' % s] = T.dhas(t, s) == z3.And(T.dhas(t0, s), z3.Not(seen(s)))
    return out


def setup_req(e): return [T.member(stay_of(e), key(T.sv('configurations'))), z3.Or(*[B0 == T.sv(k) for k in FORBIDDEN])]
SETUP = Contract('SetUpConfigurations', I.SetUpConfigurations, {'target': StrT, 'target_dict': TARGET1}, ret=NoneT, raises={**ERR, IndexError: lambda e: z3.BoolVal(True)}, modifies={'target_dict'}, globs={'non_configuration_keys': TList(StrT)},
                 requires=setup_req, ensures=setup_ens, cands=setup_cands, facts=setup_facts, loop_facts=lambda lv: setup_facts(lv.eng.entry))
NONE = Contract('SetUpConfigurations-of-a-target-without-configurations', I.SetUpConfigurations, {'target': StrT, 'target_dict': TARGET}, ret=NoneT, raises={**ERR, IndexError: lambda e: z3.BoolVal(True)}, modifies={'target_dict'}, globs={'non_configuration_keys': TList(StrT)},
                requires=lambda e: setup_req(e) + [z3.Not(T.dhas(e.val('target_dict'), T.sv(k))) for k in ('configurations', 'default_configuration')], ensures=setup_ens, cands=setup_cands, facts=setup_facts, loop_facts=lambda lv: setup_facts(lv.eng.entry))


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, models=dict(M.PATHS)))
    return [(INHERIT, mk(OVER, INHERIT)), (Lemma('with-ancestors-not-abstract', lem_abstract), mk()), (SETUP, mk(COPY, BUILDFILE, INHERIT, SETUP)), (NONE, mk(COPY, BUILDFILE, INHERIT, NONE))]


# ------------------------------------------------------------------ bounded: independent statement of the configurations
STAY = ['actions', 'configurations', 'copies', 'default_configuration', 'dependencies', 'dependencies_original', 'libraries', 'postbuilds', 'product_dir', 'product_extension', 'product_name', 'product_prefix', 'rules', 'run_as',
        'sources', 'standalone_static_library', 'suppress_wildcard', 'target_name', 'toolset', 'toolsets', 'type', 'variables']
NOT_INSIDE = ['actions', 'all_dependent_settings', 'configurations', 'dependencies', 'direct_dependent_settings', 'libraries', 'link_settings', 'sources', 'standalone_static_library', 'target_name', 'type']


def base_key(k): return k[:-1] if k[-1:] in ('=', '+', '?', '!', '/') and k else k


def overlay(acc, name, configs, path):
    """the settings acc overlaid by those of the ancestors of the configuration, in their order, and then its own; a configuration above itself counts once"""
    if name in path: return
    if name not in configs: raise G03.Bad('unknown parent')
    for p in configs[name].get('inherit_from', []): overlay(acc, p, configs, path + [name])
    G03.ref_dicts(acc, configs[name], ('p.gyp', 'p.gyp'))
    acc.pop('abstract', None)


def ref_setup(target, stay):
    target = copy.deepcopy(target)
    configs = target.get('configurations', {'Default': {}})
    concrete = [n for n, c in configs.items() if not c.get('abstract')]
    if not concrete and 'default_configuration' not in target: raise G03.Bad('no concrete configuration')
    out = {}
    for n in concrete:
        c = {k: copy.deepcopy(v) for k, v in target.items() if base_key(k) not in stay}
        overlay(c, n, configs, [])
        if any(k in NOT_INSIDE for k in c): raise G03.Bad('key not allowed')
        out[n] = c
    left = {k: v for k, v in target.items() if base_key(k) in stay}
    left.setdefault('default_configuration', min(concrete) if concrete else None)
    left['configurations'] = out
    return left


def r_setup(x):
    target, extra = x
    stay = STAY + list(extra)
    t = copy.deepcopy(target)
    bad = False
    try: want = ref_setup(target, stay)
    except G03.Skip: return None
    except G03.Bad: bad = True
    old = I.non_configuration_keys
    I.non_configuration_keys = I.base_non_configuration_keys + list(extra)
    try: o = outcome(I.SetUpConfigurations, 'p.gyp:t#target', t)
    finally: I.non_configuration_keys = old
    if bad: return None if o[0] == 'raise' else 'accepted, and gives %r' % (t.get('configurations'),)
    if o[0] == 'raise': return 'rejected: %r' % (o[1:],)
    m = diff('the target', {k: v for k, v in t.items() if k != 'configurations'}, {k: v for k, v in want.items() if k != 'configurations'}) or diff('the configurations', list(t['configurations']), list(want['configurations']))
    if m: return m
    for n in want['configurations']:
        m = diff('configuration ' + n, t['configurations'][n], want['configurations'][n])
        if m: return m
        if repr(t['configurations'][n]) != repr(want['configurations'][n]): return 'configuration %s: %r instead of %r' % (n, t['configurations'][n], want['configurations'][n])
    seen = set()
    for n, c in t['configurations'].items():
        ids = set(G03.containers(c))
        if ids & seen: return 'configuration %s shares a list or dictionary with another' % n
        seen |= ids
    if seen & set(G03.containers({k: v for k, v in t.items() if k != 'configurations'})): return 'a configuration shares a list or dictionary with the target'


KEYS = ['defines', 'hue', 'sub', 'cflags', 'defines!', 'defines/', 'product_name', 'sources', 'sources!', 'variables', 'type', 'mine', 'product_name?', 'x=']
INSIDE = ['defines', 'hue', 'sub', 'cflags', 'defines+', 'defines=', 'defines?', 'defines!', 'mine', 'variables', 'product_name']


def value(k, rng, tag):
    b = base_key(k)
    if k in ('defines/', 'sources/'): return [['exclude', rng.choice('abc')] for _ in range(rng.randrange(2))]
    if b in ('defines', 'sources', 'cflags', 'x'): return [rng.choice(['a', 'b', '-c', tag, tag + '2']) for _ in range(rng.randrange(3))]
    if b in ('sub', 'variables'): return {q: v for q, v in (('k', tag), ('l', [rng.choice(['a', tag])]), ('m', {'n': tag})) if rng.random() < .6}
    if b == 'type': return 'executable'
    return rng.choice([tag, 1, 0, 'same'])


def c_setup(tier, rng):
    """inputs: (a target, further target-level keys)"""
    while True:
        t = {}
        for k in rng.sample(KEYS, rng.randrange(1, 7)): t[k] = value(k, rng, 't')
        if rng.random() < .9:
            names = rng.sample(['Debug', 'Release', 'Base', 'Zero', 'A', 'x64'], rng.randrange(1, 6))
            cs = {}
            for n in names:
                c = {}
                for k in rng.sample(INSIDE, rng.randrange(0, 4)): c[k] = value(k, rng, n)
                if rng.random() < .02: c[rng.choice(NOT_INSIDE)] = rng.choice(['v', ['v']])
                if rng.random() < .4: c['abstract'] = rng.choice([1, 1, 1, 0])
                if rng.random() < .6: c['inherit_from'] = [rng.choice(names) for _ in range(rng.randrange(0, 3))] + (['none'] if rng.random() < .02 else [])
                ks = list(c)
                rng.shuffle(ks)
                cs[n] = {k: c[k] for k in ks}
            t['configurations'] = cs
            if rng.random() < .3: t['default_configuration'] = rng.choice(names)
        if rng.random() < .05: t['abstract'] = rng.randrange(2)
        ks = list(t)
        rng.shuffle(ks)
        yield {k: t[k] for k in ks}, ['mine'] if rng.random() < .4 else []


def c_keys(tier, rng):
    """inputs: every target-level key, forbidden key and unknown key, with every suffix, in the target and in a configuration"""
    for k in STAY + NOT_INSIDE + ['mine', 'defines', 'link', 'typed', 'link_setting', 'variable', 'sources_', '']:
        for s in ('', '=', '+', '?', '!', '/', '!!', '-'):
            if base_key(k + s) in ('configurations', 'default_configuration'): continue
            for v in ('v', ['a'], {'a': 'b'}):
                if s in ('=', '+', '?') and not isinstance(v, list) or not k + s: continue
                if k + s == '': continue
                yield {'target_name': 't', k + s: v}, []
                yield {'target_name': 't', 'configurations': {'R': {k + s: v}}}, ['mine']
                yield {'target_name': 't', 'configurations': {'R': {}, 'B': {'abstract': 1, k + s: v}, 'S': {'inherit_from': ['B']}}, k + s: v}, ['mine']


def c_trees(tier, rng):
    """inputs: all inheritance relations of up to 3 configurations, each abstract or not"""
    import itertools
    names = ['C', 'A', 'B']
    for n in (1, 2, 3):
        for order in itertools.permutations(names[:n]):
            for par in itertools.product([list(p) for k in range(n + 1) for p in itertools.permutations(names[:n], k)], repeat=n):
                for ab in itertools.product((0, 1), repeat=n):
                    cs = {}
                    for m, p, a in zip(order, par, ab):
                        cs[m] = {'hue': m, 'defines': [m, 'same']}
                        if p: cs[m]['inherit_from'] = p
                        if a: cs[m]['abstract'] = 1
                    yield {'hue': 't', 'defines': ['t'], 'configurations': cs}, []


def c_load(tier, rng):
    """inputs: targets as in a file"""
    for t, extra in c_setup(tier, rng):
        t = {k: v for k, v in t.items() if base_key(k) not in ('sources', 'variables') and k[-1:] not in '!/'}
        for c in t.get('configurations', {}).values():
            for k in list(c):
                if base_key(k) in ('variables', 'sources') or k[-1:] in '!/': del c[k]
        yield dict(t, target_name='t', type='none'), extra


def strings(x):
    if isinstance(x, dict): return {strings(k): strings(v) for k, v in x.items()}
    if isinstance(x, list): return [strings(v) for v in x]
    return str(x) if type(x) is int else x


def r_load(x):
    target, extra = x
    bad = False
    try: want = ref_setup(dict(target, toolset='target'), STAY + list(extra))
    except G03.Skip: return None
    except G03.Bad: bad = True
    o = load({'p.gyp': {'targets': [target]}}, non_config=list(extra))
    if bad: return None if o[0] == 'raise' else 'accepted'
    if o[0] == 'raise': return 'rejected: %r' % (o[1:],)
    got = o[1].targets['p.gyp:t#target']
    return diff('the target', {k: got[k] for k in got}, strings(want))


def bounded():
    return [Bounded('targets', c_setup, r_setup, 'random targets with up to 5 configurations', budget=(6, 60)), Bounded('keys', c_keys, r_setup, 'every known key with every suffix at target level, in a configuration and in a parent', budget=(4, 10)),
            Bounded('trees', c_trees, r_setup, 'every inheritance relation among up to 3 configurations, abstract or not', budget=(10, 60)), Bounded('loading', c_load, r_load, 'random targets loaded from a file', budget=(6, 40))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='MergeConfigWithInheritance: for all configurations, what it makes of the settings so far is the recursive definition (a configuration on its own path adds nothing; otherwise the parents in their order, then its own settings, then "abstract" goes). SetUpConfigurations: for any target, any configuration name and any key, '
                 'exactly the concrete configurations survive, each is the target settings that may move overlaid by that definition, exactly the target-level keys stay, with their values, and no key that is not allowed is in any configuration; the same for a target without configurations, which gets one. '
                 'A target with configurations but without default_configuration, independence of the results and the whole of loading are bounded.',
            assumptions=['MergeDicts changes only the dictionary merged into, to a function of its arguments (G03)', 'deepcopy returns an equal, independent value (G14)', 'BuildFile is a function of the target name (G02)', 'non_configuration_keys contains "configurations" (Load builds it from the base list)', 'recursion ends: the path of configurations grows and none is on it twice', 'KeyError, TypeError, IndexError and GypError count as rejection'])
