"""G01 Build order: every target once, after its dependencies, or an error."""
import itertools
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from vlib import models as M
from vlib.load import load
import gyp.input as I
import gyp.common as C


V = T.V
NODE = TObj('DependencyGraphNode')
CLASSES = {'DependencyGraphNode': {'ref': Any, 'dependencies': TList(NODE), 'dependents': TList(NODE)}}
REFS = z3.ArraySort(T.Int, V)

# ------------------------------------------------------------------ specification: any graph; N and D stand for any target and any of its dependencies
N, D = z3.Int('some_node'), z3.Int('some_dependency')
OWNER = z3.Function('node_of_ref', V, T.Int)
oid = lambda v: T.acc('oid', v)
node = lambda i: V.ObjV(i)
ALLIN = T.Fold('all_dependencies_in', lambda l, r: z3.BoolVal(True), lambda acc, x, q, l, r: z3.And(acc, T.member(l, z3.Select(r, oid(x)))), T.Bool, (T.SeqV, REFS))
WITNESS = T.Fold('a_dependency_not_in', lambda l, r: node(z3.IntVal(-1)), lambda acc, x, q, l, r: T.ite(T.member(l, z3.Select(r, oid(x))), acc, x), V, (T.SeqV, REFS))
LATE = T.Fold('comes_after_its_dependent', lambda a, b: z3.BoolVal(False), lambda acc, x, q, a, b: z3.Or(acc, z3.And(x == b, z3.Not(T.member(q, a)))), T.Bool, (V, V))


def allin_facts(q, l, r, xs=()):
    """what 'all dependencies are in' means: for the given elements, and the witness of the contrary (lemma 'all-dependencies')"""
    w = WITNESS(q, l, r)
    return [z3.Implies(z3.Not(ALLIN(q, l, r)), z3.And(T.member(q, w), z3.Not(T.member(l, z3.Select(r, oid(w))))))] + [z3.Implies(z3.And(ALLIN(q, l, r), T.member(q, x)), T.member(l, z3.Select(r, oid(x)))) for x in xs]


def lem_allin():
    q, l, x, y, r = z3.Const('q', T.SeqV), z3.Const('l', T.SeqV), z3.Const('x', V), z3.Const('y', V), z3.Const('r', REFS)
    for n, t, h in (('base', T.empty(), []), ('step', T.concat(q, T.unit(y)), [z3.And(*allin_facts(q, l, r, [x]))])):
        yield n, h, z3.And(*allin_facts(t, l, r, [x]))


def lem_acyclic():
    """a list closed under 'all dependencies are in', of a graph whose dependencies have smaller ranks, has every node: induction on the rank"""
    rank = z3.Function('rank', T.Int, T.Int)
    q, l, r, n = z3.Const('q', T.SeqV), z3.Const('l', T.SeqV), z3.Const('r', REFS), z3.Int('n')
    w = WITNESS(q, l, r)
    closed = z3.Implies(ALLIN(q, l, r), T.member(l, z3.Select(r, n)))
    smaller = z3.Implies(T.member(q, w), rank(oid(w)) < rank(n))
    hyp = z3.Implies(rank(oid(w)) < rank(n), T.member(l, z3.Select(r, oid(w))))
    yield 'step', [closed, smaller, hyp] + allin_facts(q, l, r), T.member(l, z3.Select(r, n))


def flds(e): return tuple(e.fld('DependencyGraphNode', f) for f in ('ref', 'dependencies', 'dependents'))
def seq_of(arr, i): return T.acc('items', z3.Select(arr, i)) if z3.Select(arr, i).sort() == V else z3.Select(arr, i)


def graph_facts(e, i):
    """the requirement on the graph at node i: refs are unique, and N is a dependent of i exactly if i is a dependency of N"""
    ref, deps, outs = flds(e)
    return [OWNER(z3.Select(ref, i)) == i, T.member(seq_of(outs, i), node(N)) == T.member(seq_of(deps, N), node(i))]


def flat_req(e):
    ref, deps, outs = flds(e)
    return [T.member(seq_of(deps, N), node(D)), N != D] + graph_facts(e, N) + graph_facts(e, D) + graph_facts(e, e['self'])


def list_terms(t, out=None):
    """the sequences a term is made of"""
    out = {} if out is None else out
    if t.get_id() not in out:
        out[t.get_id()] = t
        for c in t.children():
            if c.sort() == T.SeqV: list_terms(c, out)
    return list(out.values())


def loop_instances(e, lists, objs, seqs=()):
    """instances of the lemma 'all-dependencies' and of the requirement on the graph"""
    ref, deps, outs = flds(e)
    q = seq_of(deps, N)
    out = []
    for l in lists:
        ls = list_terms(l)
        ws = [WITNESS(q, k, ref) for k in ls]
        for k in ls: out += allin_facts(q, k, ref, [node(D)] + objs + ws)
        for w in ws: out += graph_facts(e, oid(w)) + [node(oid(w)) == w]
        for z in seqs: out += allin_facts(z, l, ref, [node(D)] + ws) + allin_facts(q, l, ref, [WITNESS(z, l, ref)])
    return out


def flat_facts(eng, s, seq, done, x, rest):
    lists = [eng.items(s, v) for f in s.frames.values() for v in f.values() if isinstance(v, Loc) and isinstance(v.ty, TOSet)]
    return graph_facts(eng.entry, oid(x)) + loop_instances(eng.entry, lists, [x], [seq])


def spec_terms(e):
    ref, deps, outs = flds(e)
    return ref, deps, outs, z3.Select(ref, N), z3.Select(ref, D), T.member(seq_of(outs, e['self']), node(N))


def flats(lv): return [(n, t) for n, t in lv.osets()]


def flat_cands(lv):
    e = lv.eng.entry
    ref, deps, outs, rn, rd, first = spec_terms(e)
    out = {}
    stacks = list(lv.lists())
    for n, l in flats(lv):
        out['late:' + n] = z3.Or(first, z3.Not(LATE(l, rd, rn)))
        for m, q in stacks:
            if m.startswith('%'): continue
            out['ready:%s:%s' % (n, m)] = z3.Or(first, z3.Not(T.member(q, node(N))), T.member(l, rd))
            done = z3.Or(T.member(l, rn), T.member(q, node(N)))
            out['closed:%s:%s' % (n, m)] = z3.Or(done, z3.Not(ALLIN(seq_of(deps, N), l, ref)))
            if lv.done is not None: out['closing:%s:%s' % (n, m)] = z3.Or(done, z3.And(T.member(lv.seq, node(N)), z3.Not(T.member(lv.done, node(N)))), z3.Not(ALLIN(seq_of(deps, N), l, ref)))
            if lv.outer is None: out['none:%s:%s' % (n, m)] = z3.Or(T.length(seq_of(outs, e['self'])) > 0, z3.And(T.length(l) == 0, T.length(q) == 0))
            out['first:%s:%s' % (n, m)] = z3.Or(z3.Not(first), done)
        if lv.done is not None:
            for m, b in lv.scalars(TBool): out['all:%s:%s' % (n, m)] = b == ALLIN(lv.done, l, ref)
    return out


def flat_loop_facts(lv):
    objs = [t for n, t in lv.scalars(TObj)]
    return [f for i in objs for f in graph_facts(lv.eng.entry, i)] + loop_instances(lv.eng.entry, [l for n, l in flats(lv)], [node(i) for i in objs], [lv.seq] if lv.done is not None else [])


def flat_ens(e):
    ref, deps, outs, rn, rd, first = spec_terms(e)
    l = e.rs()
    return {'dependencies-first': z3.Or(first, z3.Not(LATE(l, rd, rn))), 'closed': z3.Or(T.member(l, rn), z3.Not(ALLIN(seq_of(deps, N), l, ref))), 'starts': z3.Implies(first, T.member(l, rn)),
            'nothing-from-nothing': z3.Implies(T.length(seq_of(outs, e['self'])) == 0, T.length(l) == 0)}


FLAT = Contract('FlattenToList', I.DependencyGraphNode.FlattenToList, {'self': NODE}, ret=TList(Any), requires=flat_req, ensures=flat_ens, cands=flat_cands, elem_facts=flat_facts, loop_facts=flat_loop_facts)


# BuildDependencyList: T0 stands for any target, D0 for any string
T0, D0 = z3.String('some_target'), z3.String('some_name')
TARGETS = TDict(TDict(Any, {'dependencies': (TList(StrT), False)}))
FLAT_ANY = Contract('FlattenToList', I.DependencyGraphNode.FlattenToList, {'self': NODE}, ret=TOSet(Any), trusted=True, raises={},
                    ensures=lambda e: {'nothing-from-nothing': z3.Implies(T.length(seq_of(flds(e)[2], e['self'])) == 0, T.length(e.rs()) == 0)})
CYCLES_ANY = Contract('FindCycles', I.DependencyGraphNode.FindCycles, {'self': NODE}, ret=TList(TList(NODE)), trusted=True, raises={})


def dependency_named(targets):
    """T0 names D0 as a dependency"""
    spec = T.dget(targets, T0)
    return z3.And(T.dhas(targets, T0), T.dhas(spec, T.sv('dependencies')), T.member(T.acc('items', T.dget(spec, T.sv('dependencies'))), V.StrV(D0)))


def build_cands(lv):
    e = lv.eng.entry
    t = e.val('targets')
    out = {}
    for n, d, v in lv.kinds('dict'):
        if n.startswith('targets@'): continue
        d = lv.eng.box(lv.st, v)
        known = T.dhas(d, D0)
        if lv.done is not None and lv.done.sort() == T.SeqS and lv.outer is None:
            out['keys:' + n] = known == T.member(lv.done, D0)
            out['same-keys:' + n] = T.acc('keys', d) == lv.done
            out['named:' + n] = z3.Implies(z3.And(T.member(lv.done, T0), dependency_named(t)), known)
        if lv.done is not None and lv.done.sort() == T.SeqV: out['naming:' + n] = z3.Implies(T.member(lv.done, V.StrV(D0)), known)
        out['all:' + n] = known == T.dhas(t, D0)
        out['all-keys:' + n] = T.acc('keys', d) == T.acc('keys', t)
    if lv.done is not None and lv.outer is None and lv.st.fields.keys() == lv.entry.fields.keys():
        out['none-yet'] = z3.Or(T.length(lv.done) > 0, z3.And(*[lv.st.fields[f] == lv.entry.fields[f] for f in lv.st.fields if f[0] == 'fld']))
    return out


def build_ens(e):
    l = e.rt()[1]
    return {'no-unknown-dependency': z3.Implies(dependency_named(e.val('targets')), T.dhas(e.val('targets'), D0)),
            'every-target-or-an-error': T.length(e.eng.items(e.st1, l)) == T.length(T.acc('keys', e.val('targets')))}


BUILD = Contract('BuildDependencyList', I.BuildDependencyList, {'targets': TARGETS}, raises={C.GypError: lambda e: z3.BoolVal(True), I.DependencyGraphNode.CircularException: lambda e: z3.BoolVal(True)},
                 fields=[('DependencyGraphNode', f) for f in ('ref', 'dependencies', 'dependents')], ensures=build_ens, cands=build_cands)


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, classes=CLASSES, class_objs={'DependencyGraphNode': I.DependencyGraphNode}))
    return [(FLAT, mk(FLAT)), (BUILD, mk(FLAT_ANY, CYCLES_ANY, BUILD)), (Lemma('all-dependencies', lem_allin), mk()), (Lemma('acyclic-graphs-are-ordered', lem_acyclic), mk())]


# ------------------------------------------------------------------ bounded
ERRORS = ('GypError', 'CircularException')


def cyclic(g):
    """a cycle in {node: [node]}, by repeatedly taking out nodes without dependencies left"""
    left = {n: set(ds) for n, ds in g.items()}
    while True:
        free = [n for n, ds in left.items() if not ds]
        if not free: return bool(left)
        for n in free: del left[n]
        for ds in left.values(): ds.difference_update(free)


def order_wrong(flat, g):
    flat = list(flat)
    if len(flat) != len(set(flat)): return 'a target appears twice: %r' % flat
    if set(flat) != set(g): return 'targets %r, order %r' % (sorted(g), flat)
    at = {n: i for i, n in enumerate(flat)}
    for n, ds in g.items():
        for d in ds:
            if at[d] >= at[n]: return '%r comes before its dependency %r in %r' % (n, d, flat)


def verdict(o, g, missing, name='dependency'):
    """what the outcome of a function must be for graph g with unknown dependencies"""
    if missing:
        if o[0] == 'ok': return 'the unknown %s %r was accepted' % (name, missing)
        if o[1] not in ERRORS: return '%r instead of an error about the unknown %s' % (o[1:], name)
        return
    if cyclic(g):
        if o[0] == 'ok': return 'a cycle was accepted'
        if o[1] != 'CircularException': return '%r instead of a report of the cycle' % (o[1:],)
        return
    if o[0] != 'ok': return 'rejected without a cycle: %r' % (o[1:],)


def names(i): return '%s.gyp:%s#target' % ('ab'[i % 2], 'tuvwxyzpqr'[i])


def c_graphs(tier, rng):
    """inputs: [[dependency indices] per target] in the order of the targets; an index out of range is an unknown target"""
    for n in (1, 2, 3):
        subs = [list(s) for k in range(n + 1) for s in itertools.permutations(range(n), k)]
        for ds in itertools.product(subs, repeat=n): yield list(ds)
    for n in (1, 2):
        for ds in itertools.product([[], [0], [n], [0, n], [n, 0], [0, 0]], repeat=n): yield list(ds)
    while True:
        n = rng.randrange(2, 10)
        order = list(range(n))
        rng.shuffle(order)
        p = rng.choice([.15, .3, .6, .9])
        g = []
        for i in range(n):
            ds = [j for j in range(n) if order[j] < order[i] and rng.random() < p]
            rng.shuffle(ds)
            if rng.random() < .04: ds.insert(rng.randrange(len(ds) + 1), rng.randrange(n))
            if rng.random() < .01: ds.insert(rng.randrange(len(ds) + 1), n)
            if ds and rng.random() < .1: ds.append(rng.choice(ds))
            g.append(ds)
        yield g


def r_graph(g):
    n = len(g)
    targets = {names(i): ({'dependencies': [names(j) for j in ds]} if ds or i % 2 else {}) for i, ds in enumerate(g)}
    ref = {names(i): [names(j) for j in ds] for i, ds in enumerate(g)}
    missing = [names(j) for ds in g for j in ds if j >= n]
    o = outcome(I.BuildDependencyList, targets)
    bad = verdict(o, {k: [d for d in v if d in ref] for k, v in ref.items()}, missing)
    if bad: return bad
    if o[0] == 'ok':
        nodes, flat = o[1]
        bad = order_wrong(flat, ref)
        if bad: return bad
        if set(nodes) != set(ref): return 'nodes for %r' % sorted(nodes)
        for k, ds in ref.items():
            if [d.ref for d in nodes[k].dependencies if d.ref is not None] != ds: return 'the node of %r depends on %r' % (k, [d.ref for d in nodes[k].dependencies])
    elif not missing and not o[2].strip().split('\n')[0]: return 'an empty message'


def c_files(tier, rng):
    """inputs: [[dependency indices] per target], targets are spread over 4 files"""
    for ds in itertools.product([[], [0], [1], [2], [0, 1], [1, 2], [0, 2]], repeat=3): yield list(ds), [0, 1, 2]
    while True:
        n = rng.randrange(2, 9)
        where = [rng.randrange(4) for _ in range(n)]
        order = [rng.random() for _ in range(4)]
        yield [[j for j in range(n) if rng.random() < .3 and (order[where[j]] <= order[where[i]] or rng.random() < .03)] for i in range(n)], where


def r_files(x):
    g, where = x
    nm = lambda i: '%s.gyp:t%d#target' % ('dabc'[where[i]] if i < len(where) else 'zz', i)
    targets = {nm(i): {'dependencies': [nm(j) for j in ds]} for i, ds in enumerate(g)}
    files = {where[i]: set() for i in range(len(g))}
    for i, ds in enumerate(g):
        for j in ds:
            if where[j] != where[i]: files[where[i]].add(where[j])
    return verdict(outcome(I.VerifyNoGYPFileCircularDependencies, targets), files, [])


def c_load(tier, rng):
    """inputs: (targets [(file, name, toolset, type)], dependencies [[(index, style)]], extra) for a whole Load"""
    while True:
        n = rng.randrange(1, 9)
        multi = rng.random() < .4
        files = ['p.gyp', 'd/q.gyp', 'd/e/r.gyp', 's.gyp'][:rng.randrange(1, 5)]
        ts, used = [], set()
        for i in range(n):
            t = (rng.randrange(len(files)), rng.choice(['t%d' % i, 't%d' % i, 't0']), rng.choice(['target', 'host']) if multi else 'target')
            if any(t[1:] == u[1:] and (t[0] == u[0] or {t[0], u[0]} == {0, 3}) for u in used): continue      # one name per directory and toolset
            used.add(t)
            ts.append(t + (rng.choice(['none', 'static_library', 'static_library', 'shared_library', 'executable', 'loadable_module']),))
        n = len(ts)
        order = list(range(n))
        rng.shuffle(order)
        ds = []
        for i in range(n):
            d = [(j, rng.choice(['plain', 'plain', 'cond', 'toolset'])) for j in range(n) if order[j] < order[i] and rng.random() < .4]
            rng.shuffle(d)
            if rng.random() < .03: d.append((rng.randrange(n), 'plain'))
            if rng.random() < .05: d.append((-rng.randrange(1, 4), 'plain'))
            while rng.random() < .1: d.insert(rng.randrange(len(d) + 1), (rng.choice([f for f in range(len(files)) if f != ts[i][0]] or [0]) if rng.random() < .8 else rng.randrange(len(files)), 'wild'))
            if d and rng.random() < .1: d.append(d[0])
            ds.append(d)
        yield files, multi, ts, ds


def r_load(x):
    files, multi, ts, ds = x
    fs = {f: [] for f in files}
    full = lambda t: '%s:%s#%s' % (files[t[0]], t[1], t[2])
    known = {full(t) for t in ts}
    ref, missing = {}, []

    def rel(a, b):
        import posixpath
        return posixpath.relpath(b, posixpath.dirname(a) or '.')
    for i, t in enumerate(ts):
        me = files[t[0]]
        out, conds, r = [], [], []
        for j, style in ds[i]:
            if style == 'wild':
                if j == t[0]: missing.append('wildcard')
                out.append('%s:*%s' % (rel(me, files[j]), '#*' if multi else ''))
                r += [full(u) for u in ts if u[0] == j]
                continue
            if j == -1: dep, q = 'nosuch', '%s:nosuch#%s' % (me, t[2])
            elif j == -2: dep, q = rel(me, files[0]) + ':nosuch', '%s:nosuch#%s' % (files[0], t[2])
            elif j == -3: dep, q = (ts[0][1] + '#other', 'none') if multi else ('nosuch2', 'none')
            else:
                u = ts[j]
                dep, q = (u[1] if u[0] == t[0] and j % 2 else '%s:%s' % (rel(me, files[u[0]]), u[1])), full(u)
                if style == 'toolset' and multi or u[2] != t[2]: dep += '#' + u[2]
            if q not in known: missing.append(q)
            (conds if style == 'cond' else out).append(dep)
            r.append(q)
        ref[full(t)] = [d for d in r if d in known]
        d = {'target_name': t[1], 'type': t[3]}
        if multi: d['toolsets'] = [t[2]]
        if out: d['dependencies'] = out
        if conds: d['conditions'] = [['1==1', {'dependencies': conds}]]
        fs[me].append(d)
    data = {f: {'targets': l} for f, l in fs.items() if l}
    for t in ts: ref.setdefault(full(t), [])
    roots = [f for f in files if f in data]
    wild_empty = any(s == 'wild' and files[j] not in data for d in ds for j, s in d)
    if wild_empty: missing.append('no file')
    o = load(data, root=roots, toolsets=multi, circular=False, sorted_deps=len(ts) % 2 == 0)
    if missing and cyclic(ref) and o[0] == 'raise' and o[1] in ERRORS: return
    bad = verdict(o, ref, missing)
    if bad: return bad
    if o[0] == 'ok': return order_wrong(o[1].flat, ref)


def bounded():
    return [Bounded('graphs', c_graphs, r_graph, 'all graphs of up to 3 targets with every order of every dependency list, random ones of up to 9 targets', budget=(8, 90)),
            Bounded('files', c_files, r_files, 'all dependencies among 3 targets in 3 files, random ones of up to 8 targets in 4 files', budget=(4, 30)),
            Bounded('loading', c_load, r_load, 'random projects of up to 4 files and 8 targets, two toolsets, wildcards, conditions, unknown targets', budget=(10, 90))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='FlattenToList, for any graph whose nodes have different refs and whose dependents are the converse of its dependencies: nothing comes before a dependency, and the result is closed (a node all of whose dependencies are in it is in it); '
                 'with the lemma on ranks an acyclic graph is therefore ordered completely. BuildDependencyList: an unknown dependency is never accepted, the order has as many entries as there are targets or an error is raised, and only GypError leaves it. '
                 'That BuildDependencyList builds the graph FlattenToList requires, FindCycles, wildcards and file cycles are bounded.',
            assumptions=['requirement of FlattenToList on the graph (unique refs, dependents converse to dependencies, no target is a dependent of the root and of another target) is established by BuildDependencyList: bounded', 'OrderedSet behaves as an insertion-ordered set', 'sorted() returns a permutation'])
