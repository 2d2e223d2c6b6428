"""G21 Affected-target analysis never misses a target and never invents one."""
import contextlib
import io
import itertools
import json
import os
import posixpath
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from pyvc.call import uf
from vlib import models as M
import gyp.generator.analyzer as A
import gyp.common as C

V = T.V
TGT = TObj('Target')
CLS = {'Target': {'name': StrT, 'match_status': IntT, 'deps': TSet(TGT), 'back_deps': TSet(TGT), 'visited': BoolT, 'requires_build': BoolT, 'added_to_compile_targets': BoolT,
                  'in_roots': BoolT, 'is_executable': BoolT, 'is_static_library': BoolT, 'is_or_has_linked_ancestor': BoolT}}
X0, Y0 = z3.Int('any_target'), z3.Int('any_dependency')             # arbitrary: what is shown for them holds for all
RANK = uf('rank', T.Int, T.Int)             # exists because no target depends on itself through other targets (G01)
AFF = uf('affected', T.Int, T.Bool)         # an arbitrary set of targets that holds every target with a changed file and every target that depends on one in it
x_ = z3.Int('x')
MATCHES, BY_DEP, NOT, TBD = [V.IntV(n) for n in (1, 2, 3, 4)]


def obj(i): return V.ObjV(i)
def fld(e, n, final=False): return e.fld('Target', n, final)
def has(s, i): return T.aselect(s, obj(i))
def matched(m, i): return z3.Or(m[i] == MATCHES, m[i] == BY_DEP)


# ------------------------------------------------------------------ _DoesTargetDependOnMatchingTargets
def state_ok(e, m):
    return [z3.ForAll([x_], z3.Or(*[m[x_] == v for v in (MATCHES, BY_DEP, NOT, TBD)])), z3.ForAll([x_], z3.Implies(matched(m, x_), AFF(x_))),
            z3.Implies(z3.And(m[X0] == NOT, has(fld(e, 'deps')[X0], Y0)), m[Y0] == NOT)]


def grows(m, m1): return z3.And(z3.ForAll([x_], z3.Implies(m[x_] != TBD, m1[x_] == m[x_])), z3.ForAll([x_], (m1[x_] == MATCHES) == (m[x_] == MATCHES)))


def above(m, m1, t): return z3.ForAll([x_], z3.Implies(RANK(x_) > RANK(t), m1[x_] == m[x_]))


def ens_dep(e):
    m, m1 = fld(e, 'match_status'), fld(e, 'match_status', True)
    a, b, c = state_ok(e, m1)
    return {'what-is-found-is-affected': z3.Implies(e.r, AFF(e['target'])), 'answer-recorded': z3.And(e.r == matched(m1, e['target']), z3.Implies(z3.Not(e.r), m1[e['target']] == NOT)),
            'statuses': a, 'only-affected-match': b, 'what-an-unaffected-target-uses-is-unaffected': c, 'statuses-stay': grows(m, m1), 'users-untouched': above(m, m1, e['target'])}


def cands_dep(lv):
    e = lv.eng.entry
    m0 = fld(e, 'match_status')
    m = lv.st.fields[('fld', 'Target', 'match_status')]
    a, b, c = state_ok(e, m)
    out = {'statuses': a, 'affected': b, 'closed': c, 'grows': grows(m0, m)}
    if 'target' in e.params:
        out['users'] = above(m0, m, e['target'])
        out['itself'] = m[e['target']] == m0[e['target']]
    if lv.done is not None and lv.done.sort() == T.SeqV:
        out['done'] = z3.Implies(T.member(lv.done, obj(Y0)), m[Y0] == NOT)
        for n, q in lv.lists():
            if q.sort() == T.SeqV:
                out['found:' + n] = z3.Implies(T.member(q, obj(X0)), z3.And(T.member(lv.done, obj(X0)), AFF(X0)))
                out['missed:' + n] = z3.Implies(z3.And(T.member(lv.done, obj(X0)), z3.Not(T.member(q, obj(X0)))), m[X0] == NOT)
    return out


def facts_dep(eng, s, seq, done, x, rest):
    e = eng.entry
    d = T.acc('oid', x)
    return [z3.Implies(AFF(d), AFF(e['target'])), RANK(d) < RANK(e['target'])] if 'target' in e.params else []


def req_dep(e): return state_ok(e, fld(e, 'match_status'))


DEP = Contract('_DoesTargetDependOnMatchingTargets', A._DoesTargetDependOnMatchingTargets, {'target': TGT}, ret=BoolT, requires=req_dep, fields=[('Target', 'match_status')], ensures=ens_dep, cands=cands_dep, elem_facts=facts_dep)
FIND = Contract('_GetTargetsDependingOnMatchingTargets', A._GetTargetsDependingOnMatchingTargets, {'possible_targets': TList(TGT)}, ret=TList(TGT), requires=req_dep, fields=[('Target', 'match_status')], cands=cands_dep,
                ensures=lambda e: {'reported-are-asked-for-and-affected': z3.Implies(T.member(e.rs(), obj(X0)), z3.And(T.member(T.acc('items', e.val('possible_targets')), obj(X0)), AFF(X0))),
                                   'the-others-are-unaffected': z3.Implies(z3.And(T.member(T.acc('items', e.val('possible_targets')), obj(X0)), z3.Not(T.member(e.rs(), obj(X0)))), fld(e, 'match_status', True)[X0] == NOT),
                                   'what-an-unaffected-target-uses-is-unaffected': state_ok(e, fld(e, 'match_status', True))[2]})


# ------------------------------------------------------------------ _AddCompileTargets, _GetCompileTargets
UNDER = uf('under_a_requested_target', T.Int, T.Bool)   # an arbitrary set of targets that holds the requested ones and the dependencies of those in it
y_ = z3.Int('y')
TRUE = V.BoolV(z3.BoolVal(True))


class Marks:
    """the fields _AddCompileTargets works with, and the targets chosen so far"""
    def __init__(self, fields, chosen):
        g = lambda n: (lambda i, a=fields[('fld', 'Target', n)]: T.aselect(a, i))
        self.match = lambda i, m=g('match_status'): m(i) == MATCHES
        for n, f in (('vi', 'visited'), ('ir', 'in_roots'), ('ad', 'added_to_compile_targets'), ('lk', 'is_or_has_linked_ancestor'), ('req', 'requires_build'), ('exe', 'is_executable'), ('lib', 'is_static_library')):
            setattr(self, n, lambda i, h=g(f): h(i) == TRUE)
        self.users = g('back_deps')
        self.has = lambda i: T.aselect(chosen, obj(i))


def settled(m, asked, r, but=None):
    """what holds of the visited targets of rank r and more"""
    S = z3.And(m.vi(X0), RANK(X0) >= r, *([X0 != but] if but is not None else []))
    user = z3.And(S, T.aselect(m.users(X0), obj(Y0)))
    alone = z3.And(m.lib(X0), m.match(X0), z3.Not(m.lk(X0)))
    return {'users-visited': z3.Implies(user, m.vi(Y0)),
            'requested': z3.Implies(z3.And(S, T.member(asked, obj(X0))), m.ir(X0)),
            'used-by-requested': z3.Implies(z3.And(user, m.ir(Y0)), m.ir(X0)),
            'covered-with-its-user': z3.Implies(z3.And(user, m.ad(Y0)), m.ad(X0)),
            'covered': z3.Implies(z3.And(S, m.ir(X0), z3.Or(m.req(X0), m.match(X0))), m.ad(X0)),
            'executables-built': z3.Implies(z3.And(S, m.ir(X0), m.exe(X0)), m.has(X0)),
            'linked-with-its-user': z3.Implies(z3.And(user, m.ir(Y0), m.lk(Y0)), m.lk(X0)),
            'lone-libraries-built': z3.Implies(z3.And(S, m.ir(X0), alone), m.has(X0)),
            'nothing-twice': z3.Implies(z3.And(user, m.has(X0), m.ad(Y0)), z3.Or(m.exe(X0), alone)),
            'nothing-needless': z3.Implies(z3.And(S, m.has(X0)), z3.Or(m.exe(X0), m.req(X0), m.match(X0)))}


def always(m):
    return {'chosen-are-under-requested': z3.ForAll([x_], z3.Implies(m.has(x_), z3.And(m.vi(x_), m.ad(x_), m.ir(x_)))),
            'under-requested': z3.ForAll([x_], z3.Implies(z3.And(m.vi(x_), m.ir(x_)), UNDER(x_))),
            'only-changed-or-users': z3.ForAll([x_], z3.Implies(m.vi(x_), AFF(x_))),
            'not-visited-not-covered': z3.ForAll([x_], z3.Implies(z3.Not(m.vi(x_)), z3.Not(m.ad(x_)))),
            'covered-by-something': z3.ForAll([x_], z3.Implies(m.ad(x_), z3.Or(m.has(x_), z3.Exists([y_], z3.And(T.aselect(m.users(x_), obj(y_)), m.ad(y_))))))}


def frame(a, b, t):
    eq = lambda i: z3.And(a.ir(i) == b.ir(i), a.ad(i) == b.ad(i), a.lk(i) == b.lk(i), a.has(i) == b.has(i))
    return {'visited-stay': z3.ForAll([x_], z3.Implies(a.vi(x_), z3.And(b.vi(x_), eq(x_)))), 'below': z3.ForAll([x_], z3.Implies(RANK(x_) < RANK(t), z3.And(eq(x_), a.vi(x_) == b.vi(x_))))}


def marks(e, final=False):
    st = e.st1 if final else e.st0
    return Marks(st.fields, e.nat(st, e.params['result']))


def asked(e): return T.acc('items', e.val('roots')) if 'roots' in e.params else T.acc('items', e.val('supplied_targets'))


def acyclic(m): return z3.Implies(T.aselect(m.users(X0), obj(Y0)), RANK(Y0) > RANK(X0))


def req_add(e):
    m, t = marks(e), e['target']
    return [acyclic(m), e['add_if_no_ancestor'] == m.match(t), AFF(t), z3.ForAll([x_], z3.Implies(T.member(asked(e), obj(x_)), UNDER(x_)))] + list(settled(m, asked(e), RANK(t)).values()) + list(always(m).values())


def ens_add(e):
    m, m1, t = marks(e), marks(e, True), e['target']
    return {**settled(m1, asked(e), RANK(t)), **always(m1), **frame(m, m1, t), 'itself': m1.vi(t)}


def cands_add(lv):
    e, out = lv.eng.entry, {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    top = 'target' not in e.params
    for n, c, v in lv.kinds('set'):
        if n.startswith('%'): continue
        m = Marks(lv.st.fields, c)
        for k, f in always(m).items(): out['%s:%s' % (k, n)] = f
        if top:
            for k, f in settled(m, asked(e), RANK(X0)).items(): out['%s:%s' % (k, n)] = f
            out['done:' + n] = z3.Implies(T.member(lv.done, obj(X0)), m.vi(X0))
            continue
        t, m0 = e['target'], marks(e)
        for k, f in settled(m, asked(e), RANK(t), t).items(): out['%s:%s' % (k, n)] = f
        a = z3.ForAll([x_], z3.Implies(z3.And(m0.vi(x_), x_ != t), z3.And(m.vi(x_), m0.ir(x_) == m.ir(x_), m0.ad(x_) == m.ad(x_), m0.lk(x_) == m.lk(x_), m0.has(x_) == m.has(x_))))
        out['stay:' + n] = a
        out['below:' + n] = frame(m0, m, t)['below']
        out['itself:' + n] = z3.And(m.vi(t), z3.Not(m.has(t)))
        out['requested:t:' + n] = z3.Implies(T.member(asked(e), obj(t)), m.ir(t))
        d = T.member(lv.done, obj(Y0))
        out['done:' + n] = z3.Implies(d, m.vi(Y0))
        out['done-ir:' + n] = z3.Implies(z3.And(d, m.ir(Y0)), m.ir(t))
        out['done-ad:' + n] = z3.Implies(z3.And(d, m.ad(Y0)), m.ad(t))
        out['done-lk:' + n] = z3.Implies(z3.And(d, m.ir(Y0), m.lk(Y0)), m.lk(t))
    return out


def facts_add(eng, s, seq, done, x, rest):
    e, d = eng.entry, T.acc('oid', x)
    if 'target' not in e.params: return []
    return [z3.Implies(UNDER(d), UNDER(e['target'])), RANK(d) > RANK(e['target']), AFF(d)]


MARKED = [('Target', f) for f in ('visited', 'in_roots', 'added_to_compile_targets', 'is_or_has_linked_ancestor')]
ADD = Contract('_AddCompileTargets', A._AddCompileTargets, {'target': TGT, 'roots': TList(TGT), 'add_if_no_ancestor': BoolT, 'result': TSet(TGT)}, ret=Any, requires=req_add, fields=MARKED, modifies=['result'], ensures=ens_add, cands=cands_add, elem_facts=facts_add)


def req_get(e):
    m = Marks(e.st0.fields, z3.K(V, z3.BoolVal(False)))
    c = T.acc('items', e.val('matching_targets'))
    return [acyclic(m), z3.ForAll([x_], z3.And(z3.Not(m.vi(x_)), z3.Not(m.ad(x_)))), z3.ForAll([x_], z3.Implies(T.member(c, obj(x_)), z3.And(m.match(x_), AFF(x_)))), z3.ForAll([x_], z3.Implies(T.member(asked(e), obj(x_)), UNDER(x_)))]


def ens_get(e):
    m = Marks(e.st1.fields, e.nat(e.st1, e.res))
    out = {**settled(m, asked(e), RANK(X0)), **always(m)}
    out['changed-visited'] = z3.Implies(T.member(T.acc('items', e.val('matching_targets')), obj(X0)), m.vi(X0))
    return out


GET = Contract('_GetCompileTargets', A._GetCompileTargets, {'matching_targets': TList(TGT), 'supplied_targets': TList(TGT)}, ret=TSet(TGT), requires=req_get, fields=MARKED, ensures=ens_get, cands=cands_add)


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, models={**M.PATHS, print: lambda eng, st, a, k, n: [(st, Py(None))]}, classes=CLS, class_objs={'Target': A.Target}))
    return [(DEP, mk(DEP)), (FIND, mk(DEP, FIND)), (ADD, mk(ADD)), (GET, mk(ADD, GET))]


# ------------------------------------------------------------------ bounded: the whole analysis against the definition
TYPES = ['executable', 'static_library', 'shared_library', 'loadable_module', 'none']
ROOT = '/w/top'


def local(dir_, p):
    """the file a path in a build file of the directory names"""
    return os.path.normpath(posixpath.join(ROOT, dir_, p))


def expect(g, files, tests, extra, given, includes):
    """(status, test targets, compile targets, invalid targets) from the definition.
    g: {qualified name: (type, [paths], [actions' inputs], [rules' inputs], [dependencies])}, includes: {build file: [included]}"""
    changed = {local('', f) for f in files}
    bf = {t: t.rsplit(':', 1)[0] for t in g}
    short = {t: t.rsplit(':', 1)[1].split('#')[0] for t in g}
    def direct(t):
        d = posixpath.dirname(bf[t])
        if local('', bf[t]) in changed or any(local('', i) in changed for i in includes.get(bf[t], [])): return True
        ty, src, acts, rules, deps = g[t]
        return any(p and p[0] != '$' and not p.startswith('!!!') and local(d, p) in changed for p in src + [q for l in acts + rules for q in l])
    hit = {t for t in g if direct(t)}
    users = {t: [u for u in g if t in g[u][4]] for t in g}
    def closure(start, step):
        out, todo = set(start), list(start)
        for x in todo:
            for y in step(x):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out
    affected = closure(hit, lambda t: users[t])
    roots = {t for t in g if not users[t] and os.path.normpath(bf[t]) in map(os.path.normpath, given)}
    named = lambda ns: {t for t in g if short[t] in set(ns) - {'all'}}
    want = sorted({short[t] for t in named(tests) & affected} | ({'all'} if 'all' in tests and roots & affected else set()))
    asked = named(tests + extra) | (roots if 'all' in tests + extra else set())
    under = closure(asked, lambda t: g[t][4])
    builds = lambda t: g[t][0] != 'none' or g[t][2] or g[t][3]
    above = {t: closure([t], lambda x: users[x]) - {t} for t in g}
    todo, chosen = sorted(affected & under, key=lambda t: len(above[t])), set()
    for t in todo:                           # users come first: they have fewer users
        linked = g[t][0] in ('executable', 'shared_library') or any(g[u][0] in ('executable', 'shared_library') for u in above[t] & under)
        if g[t][0] == 'executable' or not (above[t] & chosen) and (builds(t) or t in hit) or g[t][0] == 'static_library' and t in hit and not linked: chosen.add(t)
    comp = sorted({short[t] for t in chosen} | set(want))
    invalid = sorted(set(tests + extra) - {'all'} - set(short.values()))
    if not hit: return ('No dependencies', [], [], invalid)
    return ('Found dependency' if comp else 'No dependencies', want, comp, invalid)


def analyse(g, files, tests, extra, given, includes, forced, order):
    """the real analysis"""
    target_dicts, data = {}, {}
    for t in order:
        ty, src, acts, rules, deps = g[t]
        d = {'type': ty, 'target_name': t, 'toolset': 'target'}
        if src: d['sources'] = list(src)
        if acts: d['actions'] = [{'action_name': 'a', 'inputs': list(l)} for l in acts]
        if rules: d['rules'] = [{'rule_name': 'a', 'inputs': list(l)} for l in rules]
        if deps: d['dependencies'] = list(deps)
        target_dicts[t] = d
        b = t.rsplit(':', 1)[0]
        data[b] = {'included_files': [os.path.basename(b)] + [os.path.relpath(local('', i), local('', posixpath.dirname(b))) for i in includes.get(b, [])]}
    with scratch() as d:
        cfg, out = os.path.join(d, 'c.json'), os.path.join(d, 'o.json')
        with open(cfg, 'w') as f: json.dump({'files': files, 'test_targets': tests, 'additional_compile_targets': extra}, f)
        opts = type('Options', (), {'toplevel_dir': ROOT, 'includes': forced})()
        params = {'options': opts, 'build_files': list(given), 'generator_flags': {'config_path': cfg, 'analyzer_output_path': out}}
        with contextlib.redirect_stdout(io.StringIO()):
            A.GenerateOutput(list(order), target_dicts, data, params)
        with open(out) as f: return json.load(f)


DIRS = ['', 'd/', 'd/e/', 'x/']
PATHS_ = ['a.c', 'b.c', 'd/a.c', '../a.c', '../d/a.c', '../../a.c', 'd/../a.c', './b.c', 'd//a.c', 'e/a.c', '../../../w/top/a.c', '$(V)/a.c', '!!!/a.c', '../e/a.c', 'a.c/', ROOT + '/a.c', ROOT + '/d/a.c', '/a.c', '/w/a.c', '../top/a.c', '../../top/d/a.c', '../../../../a.c', '', 'a.h', 'd/e/x.c', '../x.c', 'sub/../../a.c']
FILES = ['a.c', 'b.c', 'd/a.c', 'd/e/a.c', 'd/e/x.c', 'x/a.c', 'a.h', 'x/x.c', 'd/b.c', 'w/top/a.c', 'top/a.c', 'none.c', 'd/x.c']


def graph(rng):
    outside = rng.random() < .15
    bfs = [rng.choice(DIRS + (['../o/', ROOT + '/d/', '/o/'] if outside else [])) + 'f%d.gyp' % i for i in range(rng.randrange(1, 4))]
    sets = rng.choice([[''], [''], ['#target'], ['#target', '#host']])
    names = []
    for i in range(rng.randrange(1, 8)):
        t = '%s:%s%s' % (rng.choice(bfs), 't%d' % (i if rng.random() < .85 else 0), rng.choice(sets))
        if t not in names: names.append(t)
    g = {}
    for i, t in enumerate(names):
        some = lambda n, p: [rng.choice(PATHS_) for _ in range(rng.randrange(n + 1))] if rng.random() < p else []
        deps = [u for u in names[i + 1:] if rng.random() < rng.choice([.2, .5])]
        g[t] = (rng.choice(TYPES), some(2, .5), [some(2, 1) for _ in range(rng.randrange(4))] if rng.random() < .3 else [], [some(2, 1) for _ in range(rng.randrange(4))] if rng.random() < .2 else [], deps)
    return g, bfs


def c_all(tier, rng):
    while True:
        g, bfs = graph(rng)
        short = sorted({t.rsplit(':', 1)[1].split('#')[0] for t in g})
        pick = lambda p: sorted(n for n in short + ['all', 'nosuch'] if rng.random() < (p if n not in ('nosuch',) else .1))
        inc = {b: [rng.choice(['i.gypi', 'd/i.gypi', 'x/j.gypi', '../i.gypi']) for _ in range(rng.randrange(3))] for b in bfs if rng.random() < .3}
        files = [rng.choice(FILES) for _ in range(rng.randrange(1, 4))]
        if rng.random() < .15: files.append(rng.choice(['i.gypi', 'd/i.gypi', 'x/j.gypi'] + [os.path.relpath(local('', b), ROOT) for b in bfs if not b.startswith('/o')]))
        if rng.random() < .5:
            t = rng.choice(sorted(g))                                   # a file one of the targets names, if it is in the tree
            ps = [p for p in g[t][1] + [q for l in g[t][2] + g[t][3] for q in l] if p and p[0] not in '$!']
            if ps:
                f = local(posixpath.dirname(t.rsplit(':', 1)[0]), rng.choice(ps))
                if f.startswith(ROOT + '/'): files.append(f[len(ROOT) + 1:])
        order = sorted(g)
        rng.shuffle(order)
        given = sorted({b if rng.random() < .8 else './' + b for b in bfs if rng.random() < .7 and b[0] not in './'} | {b for b in bfs if rng.random() < .4})
        yield (g, files, pick(rng.choice([.2, .6])), pick(rng.choice([.1, .5])), given, inc, order)


def r_all(x):
    g, files, tests, extra, given, inc, order = x
    status, want, comp, invalid = expect(g, files, tests, extra, given, inc)
    got = analyse(g, files, tests, extra, given, inc, [], order)
    if 'error' in got: return 'error: %s' % got['error']
    for what, a, b in (('the affected targets', sorted(got['test_targets']), want), ('the targets to compile', sorted(got['compile_targets']), comp), ('the unknown targets', sorted(got.get('invalid_targets', [])), invalid), ('the status', got['status'], status)):
        m = diff(what, a, b)
        if m: return m


def c_forced(tier, rng):
    for inc in (['i.gypi'], ['./d/../i.gypi'], ['x.gypi', 'd/i.gypi'], ['../i.gypi'], []):
        for files in (['i.gypi'], ['a.c'], ['d/i.gypi', 'a.c'], ['x.gypi']):
            for tests, extra in ((['t0'], []), (['t0', 't1'], ['all']), ([], ['t1'])): yield (inc, files, tests, extra)


def r_forced(x):
    inc, files, tests, extra = x
    g = {'f.gyp:t0': ('executable', ['a.c'], [], [], ['f.gyp:t1']), 'f.gyp:t1': ('static_library', ['b.c'], [], [], [])}
    got = analyse(g, files, tests, extra, ['f.gyp'], {}, inc, list(g))
    if any(os.path.normpath(i) in files for i in inc): status, want, comp, _ = 'Found dependency (all)', tests, sorted(set(tests + extra)), []
    else: status, want, comp, _ = expect(g, files, tests, extra, ['f.gyp'], {})
    return diff('the answer', (got.get('status'), sorted(got.get('test_targets', [])), sorted(got.get('compile_targets', []))), (status, want, comp))


def c_run(tier, rng):
    while True:
        n = rng.randrange(1, 4)
        dirs = [rng.choice(['', 'd/', 'd/e/', 'x/']) for _ in range(n)]
        bfs = ['%sf%d.gyp' % (d, i) for i, d in enumerate(dirs)]
        ts = [(b, 't%d' % i) for i, b in enumerate(bfs)] + [(bfs[0], 'u')]
        desc = {}
        for i, (b, t) in enumerate(ts):
            deps = [j for j in range(i + 1, len(ts)) if rng.random() < .5 and (j < n or not i)]
            desc[(b, t)] = (rng.choice(TYPES), [rng.choice(['a.c', '../a.c', 'd/a.c', '../../a.c', '<(DEPTH)/b.c', 'e/a.c']) for _ in range(rng.randrange(3))], [ts[j] for j in deps])
        inc = {b: rng.choice(['i.gypi', 'd/i.gypi']) for b in bfs if rng.random() < .4}
        files = [rng.choice(['a.c', 'd/a.c', 'b.c', 'x/a.c', 'd/e/a.c', 'i.gypi', 'd/i.gypi'] + bfs) for _ in range(rng.randrange(1, 3))]
        yield ([(b, t) + desc[(b, t)] for b, t in ts], inc, files, sorted(t for b, t in ts if rng.random() < .6) + (['all'] if rng.random() < .4 else []), rng.random() < .3)


def r_run(x):
    ts, inc, files, tests, dot = x
    import gyp
    bfs = sorted({t[0] for t in ts})
    with scratch() as d:
        top = os.path.join(d, 'top')
        rel = lambda p, b: os.path.relpath(p, os.path.dirname(b) or '.')
        for b in bfs:
            os.makedirs(os.path.join(top, os.path.dirname(b)), exist_ok=True)
            content = {'targets': [{'target_name': t, 'type': ty, 'sources': src, 'dependencies': [('' if db == b else rel(db, b)) + ':' + dt for db, dt in deps]} for bb, t, ty, src, deps in ts if bb == b]}
            if b in inc: content['includes'] = [rel(inc[b], b)]
            with open(os.path.join(top, b), 'w') as f: f.write(repr(content))
        for i in set(inc.values()):
            os.makedirs(os.path.join(top, os.path.dirname(i)), exist_ok=True)
            with open(os.path.join(top, i), 'w') as f: f.write("{'variables': {'v%': 1}}")
        with open(os.path.join(top, 'c.json'), 'w') as f: json.dump({'files': files, 'test_targets': tests, 'additional_compile_targets': []}, f)
        old = os.getcwd()
        os.chdir(top)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()) as err:
                rc = gyp.main(['-f', 'analyzer', '--no-parallel', '--depth=.', '--toplevel-dir=.', '-Gconfig_path=c.json', '-Ganalyzer_output_path=o.json', ('./' if dot else '') + ts[0][0]])
            if rc != 0: return 'gyp failed: %s' % err.getvalue()[-300:]
            with open('o.json') as f: got = json.load(f)
        finally: os.chdir(old)
    seen, todo = [bfs and ts[0][0]], [ts[0][0]]
    for b in todo:
        for t in ts:
            if t[0] == b:
                for db, dt in t[4]:
                    if db not in seen:
                        seen.append(db)
                        todo.append(db)
    depth = lambda b: lambda p: p.replace('<(DEPTH)', os.path.relpath('.', os.path.dirname(b) or '.'))
    g = {'%s:%s#target' % (b, t): (ty, [depth(b)(p) for p in src], [], [], ['%s:%s#target' % q for q in deps]) for b, t, ty, src, deps in ts if b in seen}
    status, want, comp, invalid = expect(g, files, tests, [], [ts[0][0]], {b: [i] for b, i in inc.items()})
    return diff('the answer', (got.get('status'), sorted(got.get('test_targets', [])), sorted(got.get('compile_targets', [])), sorted(got.get('invalid_targets', []))), (status, want, comp, invalid))


def bounded():
    return [Bounded('analysis', c_all, r_all, 'random graphs of 1-7 targets in up to 3 build files (directories of the tree, and outside it), paths with "..", absolute paths, variables, includes, toolsets, equal names, "all"; changed files inside the tree', per=20, budget=(12, 400)),
            Bounded('forced includes', c_forced, r_forced, 'the included files of the command line, changed and not', per=20, budget=(2, 5)),
            Bounded('whole run', c_run, r_run, 'gyp -f analyzer on trees of 1-3 build files, includes and dependencies between them', per=10, budget=(8, 200))]


META = {
    'level': 'proof',
    'technique': 'contracts on the two traversals of the target graph (recursive functions over a heap of target objects), discharged by z3/cvc5 for all graphs; a bounded comparison of the whole analysis with its definition',
    'note': '',
    'assumptions': ['no target depends on itself through other targets (G01): a rank exists that decreases along dependencies', 'deps and back_deps hold the dependencies in both directions (built by _GenerateTargets, compared by the bounded checks only)', 'printing has no other effect', 'relative build files are named relative to the source root'],
}
