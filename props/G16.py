"""G16 Dependent settings and link inputs reach exactly the right targets."""
import posixpath
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from vlib import models as M
from vlib.load import load
import gyp.input as I
import gyp.common as C

V = T.V


# ------------------------------------------------------------------ specification.  N stands for any target, D for any of its direct dependencies, P for any set of targets
# that is closed as described at its use: a result that lies in every closed set, and is itself closed, is exactly the closure
NODE = TObj('DependencyGraphNode')
CLASSES = {'DependencyGraphNode': {'ref': Opt(StrT), 'dependencies': TList(NODE), 'dependents': TList(NODE)}}
REFS = z3.ArraySort(T.Int, V)
N, D = z3.Int('some_node'), z3.Int('some_dependency')
P = z3.Const('a_closed_set', T.SetV)
X0, E0 = z3.String('some_target'), z3.String('some_export')
OWNER = z3.Function('node_of_ref', V, T.Int)
oid = lambda v: T.acc('oid', v)
node = lambda i: V.ObjV(i)
key = lambda s: V.StrV(s)
is_ = lambda n, v: T.tester(n, v)
inside = lambda q, p: z3.IsSubset(T.elems(q), p)
named = lambda r: z3.And(is_('StrV', r), z3.Length(T.acc('s', r)) > 0)
REFSOF = T.Fold('refs_of', lambda r: T.empty(), lambda acc, x, q, r: T.ite(z3.And(named(z3.Select(r, oid(x))), z3.Not(T.member(acc, z3.Select(r, oid(x))))), T.concat(acc, T.unit(z3.Select(r, oid(x)))), acc), T.SeqV, (REFS,))
LATE = T.Fold('comes_after_its_dependent', lambda a, b: z3.BoolVal(False), lambda acc, x, q, a, b: z3.Or(acc, z3.And(x == b, z3.Not(T.member(q, a)))), T.Bool, (V, V))
ALLOF = T.Fold('all_refs_in', lambda p, r: z3.BoolVal(True), lambda acc, x, q, p, r: z3.And(acc, z3.Or(is_('NoneV', z3.Select(r, oid(x))), z3.Select(p, z3.Select(r, oid(x))))), T.Bool, (T.SetV, REFS))


def fld(e, n): return e.fld('DependencyGraphNode', n)
def deps_of(e, i):
    v = z3.Select(fld(e, 'dependencies'), i)
    return T.acc('items', v) if v.sort() == V else v
def ref_of(e, i): return z3.Select(fld(e, 'ref'), i)


# --- the direct dependencies, each once, in their order
def direct_cands(lv):
    if lv.done is None: return {}
    return {'refs:' + n: q == REFSOF(lv.done, fld(lv.eng.entry, 'ref')) for n, q in lv.lists() if not n.startswith('%')}


DIRECT = Contract('DirectDependencies', I.DependencyGraphNode.DirectDependencies, {'self': NODE, 'dependencies': NoneT}, ret=TList(StrT), cands=direct_cands, fresh_result=True,
                  ensures=lambda e: {'direct': e.rs() == REFSOF(deps_of(e, e['self']), fld(e, 'ref'))})


# --- what they export, and what those export
TARGETS = TDict(TDict(Any, {'export_dependent_settings': (TList(StrT), False)}))


def exports(t, x):
    s = T.dget(t, x)
    return T.ite(T.dhas(s, T.sv('export_dependent_settings')), T.acc('items', T.dget(s, T.sv('export_dependent_settings'))), T.empty())


def import_req(e): return [inside(e['dependencies'], P)]


def import_ens(e):
    q = e.rs()
    return {'kept': inside(e['dependencies'], T.elems(q)), 'closed': z3.Implies(z3.And(T.member(q, key(X0)), T.member(exports(e.val('targets'), X0), key(E0))), T.member(q, key(E0))), 'no-others': inside(q, P),
            'in-place': T.acc('items', e.val('dependencies', True)) == q}


def import_lists(lv):
    for n, q in lv.lists():
        if not n.startswith('%') and n.split('@')[0] == 'dependencies': yield n, q


def import_cands(lv):
    e = lv.eng.entry
    out = {}
    t = e.val('targets')
    for n, q in import_lists(lv):
        out['kept:' + n] = inside(e['dependencies'], T.elems(q))
        out['no-others:' + n] = inside(q, P)
        for i, k in lv.scalars(TInt):
            out['bound:%s:%s' % (n, i)] = z3.And(k >= 0, k <= T.length(q))
            out['in:%s:%s' % (n, i)] = z3.And(k >= 0, k < T.length(q))
            out['positive:' + i] = k >= 1
            done = z3.Implies(z3.And(T.member(T.take(q, k), key(X0)), T.member(exports(t, X0), key(E0))), T.member(q, key(E0)))
            out['done:%s:%s' % (n, i)] = done
            if lv.done is not None:
                q0 = lv.entry_list(n)
                if q0 is not None: out.update({'prefix:%s:%s' % (n, i): z3.And(k >= 0, k < T.length(q), k < T.length(q0)), 'prefix1:%s:%s' % (n, i): T.take(q, k + 1) == T.take(q0, k + 1), 'prefix2:%s:%s' % (n, i): T.nth(q, k) == T.nth(q0, k), 'prefix3:%s:%s' % (n, i): T.take(q, k) == T.take(q0, k)})
        if lv.done is not None: out['imported:' + n] = z3.Implies(T.member(lv.done, key(E0)), T.member(q, key(E0)))
    return out


def import_loop_facts(lv):
    e = lv.eng.entry
    out = []
    for n, q in import_lists(lv):
        for i, k in lv.scalars(TInt):
            # the part before position k + 1 is the part before k and the item at k
            out.append(z3.Implies(z3.And(k >= 0, k < T.length(q)), z3.And(T.elems(T.take(q, k + 1)) == T.elems(T.concat(T.take(q, k), T.unit(T.nth(q, k)))), T.member(q, T.nth(q, k)))))
        for m, x in lv.scalars(TStr): out.append(z3.Implies(z3.Select(P, key(x)), inside(exports(e.val('targets'), x), P)))
    return out


IMPORT = Contract('_AddImportedDependencies', I.DependencyGraphNode._AddImportedDependencies, {'self': NODE, 'targets': TARGETS, 'dependencies': TList(StrT)}, ret=TList(StrT), modifies={'dependencies'},
                  raises={KeyError: lambda e: z3.BoolVal(True)}, requires=import_req, ensures=import_ens, cands=import_cands, loop_facts=import_loop_facts)


def both_ens(e):
    q = e.rs()
    d = REFSOF(deps_of(e, e['self']), fld(e, 'ref'))
    return {'direct': inside(d, T.elems(q)), 'closed': import_ens_closed(e, q), 'no-others': z3.Implies(inside(d, P), inside(q, P))}


def import_ens_closed(e, q): return z3.Implies(z3.And(T.member(q, key(X0)), T.member(exports(e.val('targets'), X0), key(E0))), T.member(q, key(E0)))


BOTH = Contract('DirectAndImportedDependencies', I.DependencyGraphNode.DirectAndImportedDependencies, {'self': NODE, 'targets': TARGETS, 'dependencies': NoneT}, ret=TList(StrT), raises={KeyError: lambda e: z3.BoolVal(True)},
                requires=lambda e: [inside(REFSOF(deps_of(e, e['self']), fld(e, 'ref')), P)], ensures=both_ens)


# --- all dependencies, recursively.  P: any set that has the refs of the dependencies of a node as soon as it has its own
def closed(e, q):
    """if N is in, so is its dependency D"""
    return z3.Implies(T.member(q, ref_of(e, N)), z3.Or(is_('NoneV', ref_of(e, D)), T.member(q, ref_of(e, D))))


def ordered(e, q): return z3.Or(is_('NoneV', ref_of(e, D)), z3.Not(LATE(q, ref_of(e, D), ref_of(e, N))))


def deep_req(e):
    q = start_of(e)
    return [closed(e, q), ordered(e, q), inside(q, P), ALLOF(deps_of(e, e['self']), P, fld(e, 'ref'))]


def start_of(e):
    v = e.params['dependencies']
    return T.empty() if not isinstance(v, Loc) else e.eng.items(e.st0, v)


def deep_ens(e):
    q0, q = start_of(e), e.eng.items(e.st1, e.res)
    out = {'kept': inside(q0, T.elems(q)), 'direct': z3.Implies(z3.And(node(e['self']) == node(N), z3.Not(is_('NoneV', ref_of(e, D)))), T.member(q, ref_of(e, D))),
           'closed': closed(e, q), 'dependencies-first': ordered(e, q), 'no-others': inside(q, P)}
    v = e.params['dependencies']
    if isinstance(v, Loc): out['in-place'] = e.eng.items(e.st1, v) == q
    return out


def deep_hyp(e): return [T.member(deps_of(e, N), node(D)), is_('StrV', ref_of(e, N)), OWNER(ref_of(e, N)) == N, OWNER(ref_of(e, D)) == D, N != D]


def deep_lists(lv):
    for n, q in lv.osets(): yield n, q


def deep_cands(lv):
    e = lv.eng.entry
    out = {}
    if lv.done is None: return out
    for n, q in deep_lists(lv):
        out['kept:' + n] = inside(start_of(e), T.elems(q))
        out['closed:' + n] = closed(e, q)
        out['ordered:' + n] = ordered(e, q)
        out['inside:' + n] = inside(q, P)
        out['direct:' + n] = z3.Implies(z3.And(T.member(lv.done, node(D)), z3.Not(is_('NoneV', ref_of(e, D)))), T.member(q, ref_of(e, D)))
    return out


def deep_facts(eng, s, seq, done, x, rest):
    e = eng.entry
    return [OWNER(ref_of(e, oid(x))) == oid(x),
            # all refs of a sequence are in P: those of its elements are (lemma), and P is closed
            z3.Implies(z3.And(ALLOF(seq, P, fld(e, 'ref')), T.member(seq, x)), z3.Or(is_('NoneV', ref_of(e, oid(x))), z3.Select(P, ref_of(e, oid(x))))),
            z3.Implies(z3.Select(P, ref_of(e, oid(x))), ALLOF(deps_of(e, oid(x)), P, fld(e, 'ref')))]


def lem_allof():
    q, x, y, r, p = z3.Const('q', T.SeqV), z3.Const('x', V), z3.Const('y', V), z3.Const('r', REFS), z3.Const('p', T.SetV)
    st = lambda t: z3.Implies(z3.And(ALLOF(t, p, r), T.member(t, x)), z3.Or(is_('NoneV', z3.Select(r, oid(x))), z3.Select(p, z3.Select(r, oid(x)))))
    yield 'base', [], st(T.empty())
    yield 'step', [st(q)], st(T.concat(q, T.unit(y)))


DEEP = Contract('DeepDependencies', I.DependencyGraphNode.DeepDependencies, {'self': NODE, 'dependencies': TOSet(Any)}, ret=TOSet(Any), modifies={'dependencies'},
                requires=lambda e: deep_hyp(e) + deep_req(e), ensures=deep_ens, cands=deep_cands, elem_facts=deep_facts)
DEEP0 = Contract('DeepDependencies-of-a-target', I.DependencyGraphNode.DeepDependencies, {'self': NODE, 'dependencies': NoneT}, ret=TOSet(Any),
                 requires=lambda e: deep_hyp(e) + deep_req(e), ensures=deep_ens, cands=deep_cands, elem_facts=deep_facts)


# --- what is linked into a target
LINKED = TDict(TDict(Any, {'type': (Any, False), 'target_name': (Any, False), 'dependencies_traverse': (IntT, False)}))
LINKS = ('executable', 'shared_library', 'loadable_module', 'mac_kernel_extension', 'windows_driver')
typed = lambda v, *names: z3.Or(*[v == V.StrV(T.sv(n)) for n in names])


def spec_of(e, i): return T.dget(e.val('targets'), T.acc('s', ref_of(e, i)))
def type_of(e, i): return T.dget(spec_of(e, i), T.sv('type'))
def shared_too(e): return e.eng.truth(e.st0, e.params['include_shared_libraries'])
def initial(e): return e.eng.truth(e.st0, e.params['initial'])


def enters(e, i):
    """target i becomes part of what is linked when something that passes its dependencies on depends on it"""
    t = type_of(e, i)
    return z3.And(is_('StrV', ref_of(e, i)), z3.Not(typed(t, *[x for x in LINKS if x != 'shared_library'])), z3.Or(z3.Not(typed(t, 'shared_library')), shared_too(e)))


def passes(e, i):
    """target i passes its dependencies on"""
    t = type_of(e, i)
    s = spec_of(e, i)
    k = T.sv('dependencies_traverse')
    return z3.And(z3.Not(typed(t, *LINKS)), z3.Not(z3.And(typed(t, 'none'), T.dhas(s, k), z3.Not(truthy_int(T.dget(s, k))))))


def truthy_int(v): return T.acc('i', v) != 0


def takes_part(e):
    r = ref_of(e, e['self'])
    return z3.If(initial(e), z3.And(is_('StrV', r), typed(type_of(e, e['self']), *LINKS)), enters(e, e['self']))


def link_req(e):
    q = start_of(e)
    return [T.member(deps_of(e, N), node(D)), OWNER(ref_of(e, N)) == N, OWNER(ref_of(e, e['self'])) == e['self'], inside(q, P), z3.Implies(takes_part(e), z3.Select(P, ref_of(e, e['self'])))]


def link_closed(e, q):
    through = z3.Or(passes(e, N), z3.And(initial(e), node(N) == node(e['self'])))
    return z3.Implies(z3.And(is_('StrV', ref_of(e, N)), T.member(q, ref_of(e, N)), z3.Not(T.member(start_of(e), ref_of(e, N))), through, enters(e, D)), T.member(q, ref_of(e, D)))


def link_ens(e):
    q0, q = start_of(e), e.eng.items(e.st1, e.res)
    out = {'kept': inside(q0, T.elems(q)), 'itself': z3.Implies(takes_part(e), T.member(q, ref_of(e, e['self']))), 'nothing': z3.Implies(z3.Not(takes_part(e)), q == q0), 'closed': link_closed(e, q), 'no-others': inside(q, P)}
    v = e.params['dependencies']
    if isinstance(v, Loc): out['in-place'] = e.eng.items(e.st1, v) == q
    return out


def link_cands(lv):
    e = lv.eng.entry
    out = {}
    if lv.done is None: return out
    me = e['self']
    for n, q in deep_lists(lv):
        out['kept:' + n] = inside(start_of(e), T.elems(q))
        out['itself:' + n] = T.member(q, ref_of(e, me))
        out['closed:' + n] = z3.Or(N == me, link_closed(e, q))
        out['inside:' + n] = inside(q, P)
        out['direct:' + n] = z3.Implies(z3.And(N == me, T.member(lv.done, node(D)), enters(e, D)), T.member(q, ref_of(e, D)))
    return out


def link_facts(eng, s, seq, done, x, rest):
    e = eng.entry
    i, me = oid(x), e['self']
    return [OWNER(ref_of(e, i)) == i, z3.Implies(z3.And(z3.Select(P, ref_of(e, me)), z3.Or(passes(e, me), initial(e)), T.member(deps_of(e, me), x), enters(e, i)), z3.Select(P, ref_of(e, i)))]


ERR = {C.GypError: lambda e: z3.BoolVal(True), KeyError: lambda e: z3.BoolVal(True)}
LINKP = {'self': NODE, 'targets': LINKED, 'include_shared_libraries': TUnion(BoolT, IntT), 'dependencies': TOSet(Any), 'initial': BoolT}
LINK = Contract('_LinkDependenciesInternal', I.DependencyGraphNode._LinkDependenciesInternal, LINKP, ret=TOSet(Any), modifies={'dependencies'}, raises=ERR, requires=link_req, ensures=link_ens, cands=link_cands, elem_facts=link_facts)
LINK0 = Contract('_LinkDependenciesInternal-of-a-target', I.DependencyGraphNode._LinkDependenciesInternal, dict(LINKP, dependencies=NoneT), ret=TOSet(Any), raises=ERR, requires=link_req, ensures=link_ens, cands=link_cands, elem_facts=link_facts)


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, classes=CLASSES, class_objs={'DependencyGraphNode': I.DependencyGraphNode}))
    return [(DIRECT, mk(DIRECT)), (IMPORT, mk(IMPORT)), (BOTH, mk(DIRECT, IMPORT)), (DEEP, mk(DEEP)), (DEEP0, mk(DEEP)), (Lemma('all-refs-in', lem_allof), mk()), (LINK, mk(LINK)), (LINK0, mk(LINK))]


# ------------------------------------------------------------------ bounded: independent statement of the reach
LINKABLE = ('executable', 'shared_library', 'loadable_module', 'mac_kernel_extension', 'windows_driver')
KINDS = ('all_dependent_settings', 'direct_dependent_settings', 'link_settings')


class Graph:
    """deps, exports: {name: [names]}, types: {name: type}, flags: {name: {flag: value}}"""

    def __init__(self, deps, exports, types, flags): self.deps, self.exports, self.types, self.flags = deps, exports, types, flags

    def deep(self, n, out=None):
        """everything n depends on, dependencies first"""
        out = [] if out is None else out
        for d in self.deps[n]:
            if d not in out:
                self.deep(d, out)
                out.append(d)
        return out

    def direct(self, n):
        """the dependencies of n and what they export, each exported one right behind the one that exports it"""
        out = list(dict.fromkeys(self.deps[n]))
        i = 0
        while i < len(out):
            new = [e for e in dict.fromkeys(self.exports.get(out[i], [])) if e not in out]
            out[i + 1:i + 1] = new
            i += 1
        return out

    def linked(self, n, shared):
        """what is linked into n (itself first): its static closure, up to and including shared libraries"""
        if self.types[n] not in LINKABLE: return []
        out = [n]

        def walk(d):
            t = self.types[d]
            if t in LINKABLE and not (t == 'shared_library' and shared): return
            if d in out: return
            out.append(d)
            if t == 'shared_library' or t == 'none' and not self.flags[d].get('dependencies_traverse', 1): return
            for x in self.deps[d]: walk(x)
        for d in self.deps[n]: walk(d)
        return out

    def reach(self, kind, n):
        if kind == KINDS[0]: return self.deep(n)
        if kind == KINDS[1]: return self.direct(n)
        return self.linked(n, self.flags[n].get('allow_sharedlib_linksettings_propagation', 1))

    def inputs(self, n, flat, sort):
        """the dependencies of n after adjusting"""
        t, ds = self.types[n], self.deps[n]
        if t == 'static_library':
            return [d for d in self.direct(n) if (self.types[d] == 'static_library' and self.flags[d].get('hard_dependency')) or (self.types[d] != 'static_library' and d in ds)]
        if t in LINKABLE:
            out = ds + [d for d in self.linked(n, True) if d != n and d not in ds]
            return [d for d in reversed(flat) if d in out] if sort else out
        return ds


TYPES = ['static_library'] * 5 + ['none', 'none', 'shared_library', 'shared_library', 'executable', 'loadable_module']


def c_graphs(tier, rng):
    """inputs: [(type, [dependencies], [exports], flags)] with dependencies on earlier targets (or later: positions are shuffled), and settings of the targets"""
    while True:
        n = rng.randrange(2, 8)
        p = rng.choice([.25, .5, .8])
        out = []
        for i in range(n):
            ds = [j for j in range(i) if rng.random() < p]
            rng.shuffle(ds)
            ex = [d for d in ds if rng.random() < .3]
            if ex and rng.random() < .2: ex.append(rng.choice(ex))
            ty = rng.choice(TYPES)
            fl = {}
            if ty == 'static_library' and rng.random() < .3: fl['hard_dependency'] = rng.randrange(2)
            if ty == 'none' and rng.random() < .4: fl['dependencies_traverse'] = rng.randrange(2)
            if rng.random() < .2: fl['allow_sharedlib_linksettings_propagation'] = rng.randrange(2)
            ks = ''.join(k for k in 'adl' if rng.random() < .6) + ('n' if rng.random() < .1 else '')
            out.append((ty, ds, ex, fl, ks))
        order = list(range(n))
        if rng.random() < .5: rng.shuffle(order)
        yield out, order, rng.randrange(4), rng.random() < .4


def r_reach(x):
    ts, order, mode, files = x
    n = len(ts)
    where = lambda i: 'd/q.gyp' if files and i % 2 else 'p.gyp'
    q = lambda i: '%s:t%d#target' % (where(i), i)
    ref = lambda i, j: 't%d' % j if where(i) == where(j) else '%s:t%d' % (posixpath.relpath(where(j), posixpath.dirname(where(i)) or '.'), j)
    data = {}
    ks = {'a': KINDS[0], 'd': KINDS[1], 'l': KINDS[2]}
    for i in order:
        ty, ds, ex, fl, kk = ts[i]
        d = dict({'target_name': 't%d' % i, 'type': ty, 'defines': ['own%d' % i]}, **fl)
        if ds: d['dependencies'] = [ref(i, j) for j in ds]
        if ex: d['export_dependent_settings'] = [ref(i, j) for j in ex]
        for k in kk:
            if k in ks: d[ks[k]] = {'defines': ['-%s%d' % (k, i)], 'hue': '%s%d' % (k, i)}
        if 'n' in kk and 'd' in kk: d[KINDS[1]][KINDS[2]] = {'defines': ['-n%d' % i]}
        data.setdefault(where(i), {'targets': []})['targets'].append(d)
    o = load(data, root=[f for f in ('p.gyp', 'd/q.gyp') if f in data], adjust=mode != 0, sorted_deps=mode == 3, circular=False, non_config=['hue'])
    if o[0] != 'ok': return 'loading: %r' % (o[1:],)
    flat = list(o[1].flat)
    g = Graph({q(i): [q(j) for j in t[1]] for i, t in enumerate(ts)}, {q(i): [q(j) for j in t[2]] for i, t in enumerate(ts)}, {q(i): t[0] for i, t in enumerate(ts)}, {q(i): t[3] for i, t in enumerate(ts)})
    own = {q(i): {'defines': ['own%d' % i], 'hue': None, **{ks[k]: {'defines': ['-%s%d' % (k, i)], 'hue': '%s%d' % (k, i)} for k in t[4] if k in ks}} for i, t in enumerate(ts)}
    for i, t in enumerate(ts):
        if 'n' in t[4] and 'd' in t[4]: own[q(i)][KINDS[1]][KINDS[2]] = {'defines': ['-n%d' % i]}

    def merge(to, fro):
        for k, v in fro.items():
            if isinstance(v, list): to[k] = to.get(k, []) + v
            elif isinstance(v, dict): to[k] = merge(dict(to.get(k, {})), v)
            else: to[k] = v
        return to
    for kind in KINDS:
        for t in flat:
            for d in g.reach(kind, t):
                if kind in own[d]: merge(own[t], {k: v for k, v in own[d][kind].items()})
        for t in flat: own[t].pop(kind, None)
    for t in flat:
        got = o[1].targets[t]
        conf = got['configurations']['Default']
        bad = diff('defines of ' + t, conf.get('defines'), own[t]['defines']) or diff('setting of ' + t, conf.get('hue', got.get('hue')), own[t]['hue'])
        if bad: return bad
        for k in KINDS:
            if k in got or k in conf: return '%s of %s is left' % (k, t)
        want = g.deps[t] if mode == 0 else g.inputs(t, flat, mode == 3)
        bad = diff('dependencies of ' + t, got.get('dependencies', []), want)
        if bad: return bad
        if mode and g.types[t] == 'static_library' and g.deps[t]:
            bad = diff('original dependencies of ' + t, got.get('dependencies_original'), g.deps[t])
            if bad: return bad
        if 'dependencies' in got and not want: return 'an empty list of dependencies of ' + t


def c_small(tier, rng):
    """inputs: [(type, [dependencies], [exports], flags)] in topological order; first all with up to 3 targets of 4 types"""
    import itertools
    kinds = [('static_library', {}), ('none', {}), ('shared_library', {}), ('executable', {}), ('none', {'dependencies_traverse': 0}), ('static_library', {'hard_dependency': 1})]
    subs = lambda i: [list(s) for k in range(i + 1) for s in itertools.permutations(range(i), k)]
    for n in (1, 2, 3):
        for ds in itertools.product(*[subs(i) for i in range(n)]):
            for ty in itertools.product(kinds, repeat=n):
                yield [(t, d, [], f) for (t, f), d in zip(ty, ds)]
                if any(ds): yield [(t, d, d[::-1], f) for (t, f), d in zip(ty, ds)]
    for x, order, mode, files in c_graphs(tier, rng): yield [t[:4] for t in x]


def r_small(ts):
    q = lambda i: 'p.gyp:%s#target' % 'tuvwxyz'[i]
    g = Graph({q(i): [q(j) for j in t[1]] for i, t in enumerate(ts)}, {q(i): [q(j) for j in t[2]] for i, t in enumerate(ts)}, {q(i): t[0] for i, t in enumerate(ts)}, {q(i): t[3] for i, t in enumerate(ts)})
    for sort in (False, True):
        targets = {q(i): dict({'target_name': 'tuvwxyz'[i], 'type': t[0], 'toolset': 'target'}, **({'dependencies': [q(j) for j in t[1]]} if t[1] else {}), **({'export_dependent_settings': [q(j) for j in t[2]]} if t[2] else {}), **t[3]) for i, t in enumerate(ts)}
        nodes, flat = I.BuildDependencyList(targets)
        for t in targets:
            nd = nodes[t]
            bad = (diff('all dependencies of ' + t, list(nd.DeepDependencies()), g.deep(t)) or diff('direct dependencies of ' + t, nd.DirectDependencies(), g.deps[t]) or
                   diff('direct and imported dependencies of ' + t, nd.DirectAndImportedDependencies(targets), g.direct(t)) or diff('linked into ' + t, list(nd.DependenciesToLinkAgainst(targets)), g.linked(t, True)) or
                   diff('link settings for ' + t, list(nd.DependenciesForLinkSettings(targets)), g.reach(KINDS[2], t)))
            if bad: return bad
        I.AdjustStaticLibraryDependencies(flat, targets, nodes, sort)
        for t in targets:
            bad = diff('adjusted dependencies of ' + t, targets[t].get('dependencies', []), g.inputs(t, list(flat), sort))
            if bad: return bad


def bounded():
    return [Bounded('small graphs', c_small, r_small, 'all acyclic graphs of up to 3 targets of 6 kinds with and without exports, random ones of up to 7', budget=(8, 60)),
            Bounded('reach', c_graphs, r_reach, 'random acyclic graphs of 2 to 7 targets of 6 types with exports, flags and settings of the three kinds', budget=(12, 120))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='For any dependency graph in which different nodes have different refs: DirectDependencies is the sequence of the refs of the dependencies, each once; DirectAndImportedDependencies is the least list that has those and is closed under export_dependent_settings; '
                 'DeepDependencies is the least set that is closed under dependencies, dependencies before their dependents; _LinkDependenciesInternal is the least set closed under the rule for what enters a link (type, include_shared_libraries, dependencies_traverse). "Least" is proved as inclusion in an arbitrary closed set. '
                 'DoDependentSettings, AdjustStaticLibraryDependencies, the two wrappers and the order of imported dependencies are bounded, against an independent statement of the reach.',
            assumptions=['different nodes of the graph have different refs, and no node depends on itself (established by BuildDependencyList, see G01: bounded)', 'OrderedSet behaves as an insertion-ordered set', 'recursion ends (the graph is acyclic, G01)'])
