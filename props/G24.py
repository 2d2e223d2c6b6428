"""G24 Environment settings are ordered after the settings they refer to."""
import os
import re
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from pyvc.expr import st_term, is_str, mk_bool
from pyvc.call import uf
from vlib import models as M
import gyp.common as C
import gyp.msvs_emulation as E
import gyp.xcode_emulation as X

V = T.V
# ------------------------------------------------------------------ TopologicallySorted
EDGES = uf('edges_of', T.String, T.SeqV)
REACH = uf('related', T.String, T.String, T.Bool)                   # an arbitrary transitive relation that contains the edges
ALLOWED = z3.Const('any_closed_set', T.SetS)                        # an arbitrary set that contains the graph and is closed under edges
X0, Y0 = z3.String('any_node'), z3.String('any_used_node')          # arbitrary: what is shown for them holds for all
k_, w_ = z3.Const('k', V), z3.String('w')
NODUP = T.FoldR('no_node_twice', lambda: z3.BoolVal(True), lambda r, x, s: z3.And(z3.Not(T.member(s, x)), r), T.Bool)
BEFORE = T.FoldR('stands_before', lambda a, b: z3.BoolVal(False), lambda r, x, s, a, b: T.ite(x == a, T.member(s, b), r), T.Bool, (V, V))
BOX = V.StrV


def edges(eng, st, f, args, kw):
    out = []
    for s, v in eng.force(st, args[0]):
        if not is_str(v): raise Unsupported("edges of %r" % (v,))
        out.append((s, View('seq', EDGES(st_term(v)), StrT)))
    return out


def m_memoize(eng, st, args, kw, node):
    eng.assumed.add("memoised get_edges returns what get_edges returned")
    return [(st, args[0])]


def pair(o): return z3.Implies(z3.And(T.member(o, BOX(X0)), T.member(EDGES(X0), BOX(Y0))), BEFORE(o, BOX(X0), BOX(Y0)))
def allowed(o): return z3.Implies(T.member(o, BOX(X0)), T.aselect(ALLOWED, X0))
def finished(o, vs, vg): return z3.ForAll([k_], T.member(o, k_) == z3.And(vs[k_], z3.Not(vg[k_])))
def same(a, b): return z3.ForAll([k_], a[k_] == b[k_])
def subset(a, b): return z3.ForAll([k_], z3.Implies(a[k_], b[k_]))


def state(e, final=False):
    return [e.val(n, final) if n != 'ordered_nodes' else T.acc('items', e.val(n, final)) for n in ('visited', 'visiting', 'ordered_nodes')] if False else [e.nat(e.st1 if final else e.st0, e.params[n]) for n in ('visited', 'visiting', 'ordered_nodes')]


def req_visit(e):
    vs, vg, o = state(e)
    return [subset(vg, vs), z3.ForAll([w_], z3.Implies(vg[BOX(w_)], REACH(w_, e['node']))), finished(o, vs, vg), NODUP(o), pair(o), allowed(o), T.aselect(ALLOWED, e['node'])]


def ens_visit(e):
    vs, vg, o = state(e)
    vs1, vg1, o1 = state(e, True)
    return {'pending-restored': same(vg, vg1), 'visited-grows': subset(vs, vs1), 'itself': T.member(o1, BOX(e['node'])), 'finished': finished(o1, vs1, vg1), 'once': NODUP(o1), 'users-first': pair(o1), 'nothing-else': allowed(o1)}


def cycle(e): return z3.Exists([w_], REACH(w_, w_))


def cands(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    sets = [(n, t) for n, t, v in lv.kinds('set')]
    before = {n: lv.eng.read(lv.entry, lv.value(n, lv.entry)) for n, t in sets}
    for n, t in sets:
        out['same:' + n] = same(before[n], t)
        out['grows:' + n] = subset(before[n], t)
        out['empty:' + n] = z3.ForAll([k_], z3.Not(t[k_]))
        for m, u in sets:
            if n != m: out['sub:%s:%s' % (n, m)] = subset(t, u)
    for l, q in lv.lists():
        if q.sort() != T.SeqV: continue
        out['once:' + l] = NODUP(q)
        out['pair:' + l] = pair(q)
        out['allowed:' + l] = allowed(q)
        out['done:' + l] = z3.And(*[z3.Implies(T.member(lv.done, BOX(x)), T.member(q, BOX(x))) for x in (X0, Y0)])
        for n, t in sets:
            for m, u in sets:
                if n != m: out['finished:%s:%s:%s' % (l, n, m)] = finished(q, t, u)
    return out


def facts(eng, s, seq, done, x, rest):
    xs = T.acc('s', x)
    out = [T.aselect(ALLOWED, xs)]
    if 'node' in eng.entry.params:
        n = eng.entry['node']
        out += [REACH(n, xs), z3.ForAll([w_], z3.Implies(REACH(w_, n), REACH(w_, xs)))]
    return out


VISIT = Nested('Visit', C.TopologicallySorted, 'Visit', {'node': StrT}, {'get_edges': TFun(edges), 'visited': TSet(StrT), 'visiting': TSet(StrT), 'ordered_nodes': TList(StrT)}, ret=Any,
               modifies=['visited', 'visiting', 'ordered_nodes'], requires=req_visit, ensures=ens_visit, raises={C.CycleError: cycle}, cands=cands, elem_facts=facts)
TOPO = Contract('TopologicallySorted', C.TopologicallySorted, {'graph': TList(StrT), 'get_edges': TFun(edges)}, ret=TList(StrT), raises={C.CycleError: cycle}, cands=cands, elem_facts=facts,
                ensures=lambda e: {'once': NODUP(e.rs()), 'every-node': z3.Implies(T.member(T.acc('items', e.val('graph')), BOX(X0)), T.member(e.rs(), BOX(X0))), 'nothing-else': allowed(e.rs()), 'users-first': pair(e.rs())})


# ------------------------------------------------------------------ _TopologicallySortedEnvVarKeys, GetSortedXcodeEnv
REFERENCE = r'\$\{([a-zA-Z0-9\-_]+)\}'


def found(pattern): return uf('findall ' + pattern, T.String, T.SeqV)
def m_compile(eng, st, args, kw, node): return [(st, Py(re.compile(args[0].o)))]


def m_findall(eng, st, args, kw, node):
    p, out = args[0].o, []
    for s, v in eng.force(st, args[1]):
        if not is_str(v): raise Unsupported("findall in %r" % (v,))
        eng.assumed.add("findall is a pure function; what it finds are matches of the group")
        out.append((s, View('seq', found(p.pattern)(st_term(v)), StrT)))
    return out


def refers(env):
    """the setting X0 refers to Y0, another one of them"""
    return z3.And(T.dhas(env, X0), T.dhas(env, Y0), T.member(found(REFERENCE)(T.acc('s', T.dget(env, X0))), BOX(Y0)))


def m_topo(eng, st, args, kw, node):
    """the contract of TopologicallySorted, with the edges of the arbitrary node X0 taken from the function that was passed"""
    if kw or len(args) != 2: raise Unsupported("call of TopologicallySorted")
    s, graph, e = eng.as_seq(st, args[0])
    if T.is_app(graph, 'boxkeys_'): graph = graph.arg(0)
    eng.called.add('TopologicallySorted')
    has = lambda x: T.member(graph, BOX(x)) if graph.sort() == T.SeqV else T.member(graph, x)
    outs = []
    for s1, there in eng.branch(s, mk_bool(has(X0))):
        runs = eng.call(s1, args[1], [Sc(X0, StrT)], {}, node) if there else [(s1, None)]
        for s2, v in runs:
            if isinstance(v, Exc):
                eng.oblige('call:TopologicallySorted:edges-do-not-raise', s2, z3.BoolVal(False), 'line %s' % node.lineno)
                continue
            if not there: uses = z3.BoolVal(False)
            elif isinstance(v, Loc) and eng.kindof(s2, v) == 'set': uses = T.aselect(eng.read(s2, v), BOX(Y0))
            else: uses = T.member(eng.as_seq(s2, v)[1], BOX(Y0))
            eng.oblige('call:TopologicallySorted:closed', s2, z3.Implies(uses, has(Y0)), 'line %s' % node.lineno)
            eng.oblige('call:TopologicallySorted:related', s2, z3.Implies(uses, REACH(X0, Y0)), 'line %s' % node.lineno)
            r = T.fresh('ordered', T.SeqV)
            s3, loc = eng.new_root(s2, 'v', V.ListV(r), TList(StrT))
            kk = z3.Const('k', V)
            ks = z3.String('k')
            outs.append((s3.assume(NODUP(r), z3.ForAll([ks], T.member(r, BOX(ks)) == has(ks)), z3.ForAll([kk], z3.Implies(T.member(r, kk), T.tester('StrV', kk))), z3.Implies(z3.And(T.member(r, BOX(X0)), uses), BEFORE(r, BOX(X0), BOX(Y0)))), loc))
            ex = Exc(C.CycleError)
            ex.nodes = Py('the nodes')
            outs.append((s2.assume(z3.Exists([w_], REACH(w_, w_))), ex))
    return outs


def cands_keys(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    for n, t, v in lv.kinds('set'):
        for m, d, l in lv.kinds('dict'): out['references:%s:%s' % (n, m)] = T.aselect(t, BOX(Y0)) == z3.And(T.member(lv.done, BOX(Y0)), T.dhas(d, Y0))
    for n, t, v in lv.kinds('set'): out['names:' + n] = z3.ForAll([k_], z3.Implies(t[k_], name(k_)))
    return out


def name(x): return z3.And(T.tester('StrV', x), z3.Not(z3.Contains(T.acc('s', x), T.sv('${'))))


def facts_keys(eng, s, seq, done, x, rest):
    return [name(x)] if seq.decl().name() == 'findall ' + REFERENCE else []       # what the group matches has letters, digits, '-' and '_' only


KEYS = Contract('_TopologicallySortedEnvVarKeys', X._TopologicallySortedEnvVarKeys, {'env': TDict(StrT)}, ret=TList(StrT), requires=lambda e: [z3.Implies(refers(e.val('env')), REACH(X0, Y0))], raises={X.GypError: cycle}, cands=cands_keys, elem_facts=facts_keys,
                ensures=lambda e: {'once': NODUP(T.reversed_(e.rs())), 'every-setting': T.member(e.rs(), BOX(X0)) == T.dhas(e.val('env'), X0), 'after-what-it-refers-to': z3.Implies(refers(e.val('env')), BEFORE(T.reversed_(e.rs()), BOX(X0), BOX(Y0)))})


# ------------------------------------------------------------------ _FormatAsEnvironmentBlock
NUL = T.sv('\0')
BLOCK = T.Fold('environment_block', lambda vals: T.sv(''), lambda acc, x, s, vals: z3.Concat(acc, x, T.sv('='), T.acc('s', T.aselect(vals, x)), NUL), T.String, (z3.ArraySort(T.String, V),), elem=T.String)


def cands_block(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqS: return out
    for n, t in lv.scalars(TStr):
        for m, d, v in lv.kinds('dict'): out['block:%s:%s' % (n, m)] = t == BLOCK(lv.done, T.acc('vals', d))
    return out


FORMAT = Contract('_FormatAsEnvironmentBlock', E._FormatAsEnvironmentBlock, {'envvar_dict': TDict(StrT)}, ret=StrT, cands=cands_block,
                  ensures=lambda e: {'the-pairs-in-order': e.r == z3.Concat(BLOCK(T.acc('keys', e.val('envvar_dict')), T.acc('vals', e.val('envvar_dict'))), NUL)})


def contracts():
    def mk(*cs):
        def make():
            v = Verifier({c.fn: c for c in cs}, models=dict(M.PATHS))
            v.models.update({C.memoize: m_memoize, C.TopologicallySorted: m_topo, re.compile: m_compile, ('re', 'findall'): m_findall})
            v.nested = [VISIT]
            return v
        return make
    return [(VISIT, mk()), (TOPO, mk()), (KEYS, mk()), (FORMAT, mk())]
# ------------------------------------------------------------------ bounded contract runs
import itertools
import gyp.win_tool as W
import gyp.generator.msvs as G


def closure(g, a):
    seen, todo = set(), list(g[a])
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        todo += g[x]
    return seen


def cyclic(g, roots=None):
    reach = set(g) if roots is None else set(roots).union(*[closure(g, r) for r in roots]) if roots else set()
    return any(a in closure(g, a) for a in reach)


def c_graph(tier, rng):
    for n in (1, 2, 3):
        ns = 'abc'[:n]
        for es in itertools.product(*[[c for k in range(n + 1) for c in itertools.combinations(ns, k)] for _ in ns]): yield (dict(zip(ns, es)), ns, 'list')
    while True:
        n = rng.randrange(1, 9)
        ns = ['n%d' % i for i in range(n)]
        rng.shuffle(ns)
        dag = rng.random() < .7
        g = {a: [b for b in (ns[i + 1:] if dag else ns) if rng.random() < rng.choice([.1, .3, .6])] for i, a in enumerate(ns)}
        if rng.random() < .2: g = {a: l + l[:1] for a, l in g.items()}
        yield (g, [a for a in ns if rng.random() < .8], rng.choice(['list', 'keys', 'set']))


def r_graph(x):
    g, roots, how = x
    get = lambda n: set(g[n]) if how == 'set' else tuple(g[n])
    graph = list(roots) if how != 'keys' else dict.fromkeys(roots).keys()
    o = outcome(C.TopologicallySorted, graph, get)
    if cyclic(g, list(roots)): return None if o[0] == 'raise' and o[1] == 'CycleError' else 'a cycle gives %r' % (o,)
    if o[0] == 'raise': return 'no cycle, but %r' % (o[1:],)
    want = set(roots).union(*[closure(g, r) for r in roots]) if roots else set()
    r = o[1]
    m = diff('the nodes', sorted(r), sorted(want))
    if m: return m
    for a in r:
        for b in g[a]:
            if r.index(b) < r.index(a): return '%s stands after %s, to which it has an edge: %r' % (a, b, r)
    return None


NAMES = ['A', 'B', 'AB', 'SRC_ROOT', 'X-Y', 'a', 'A1', '9', '_', 'PATH', 'SRC']


def value(rng, names, others=('HOME', 'NONE'), forms=('${%s}',)):
    out = ''
    for _ in range(rng.randrange(4)):
        out += rng.choice(['', ' ', 'x/', '$', '$$', '{', '}', 'é', '${', '}x', '-', '/', '\\', '"', '\n']) if rng.random() < .6 else rng.choice(forms) % rng.choice(list(names) + list(others) if names else list(others))
    return out


def refs(v, env): return [n for n in re.findall(r'\$\{([a-zA-Z0-9\-_]+)\}', v) if n in env]


def table(rng, forms=('${%s}',)):
    ns = rng.sample(NAMES, rng.randrange(7))
    dag = rng.random() < .75
    env = {n: value(rng, ns[:i] if dag else ns, forms=forms) for i, n in enumerate(ns)}
    items = list(env.items())
    rng.shuffle(items)
    return dict(items)


def c_keys(tier, rng):
    for v in itertools.product(['', '${A}', '${B}', '${A}${B}', 'x${B}y', '$(A)'], repeat=2): yield dict(zip('AB', v))
    while True: yield table(rng)


def order(o, env, what):
    """the order that was given, against the references in the values"""
    g = {a: refs(v, env) for a, v in env.items()}
    if cyclic(g): return None if o[0] == 'raise' and o[1] == 'GypError' else 'a cycle of references gives %r' % (o,)
    if o[0] == 'raise': return 'no cycle, but %r' % (o[1:],)
    keys = list(o[1])
    m = diff(what, sorted(keys), sorted(env))
    if m: return m
    for a in keys:
        for b in g[a]:
            if keys.index(b) > keys.index(a): return '%s refers to %s, which comes later: %r' % (a, b, keys)
    return None


def r_keys(env):
    before = dict(env)
    o = outcome(X._TopologicallySortedEnvVarKeys, env)
    return order(o, before, 'the variables') or diff('the table afterwards', env, before)


class Settings:
    """stands for XcodeSettings: every setting is a given text"""
    mac_toolchain_dir = None
    def __init__(self, kind, bundle, vals): self.spec, self.bundle, self.vals = {'type': kind}, bundle, vals
    def _IsBundle(self): return self.bundle
    def GetPerConfigSetting(self, *a): return self.vals.get('SDKROOT')
    def __getattr__(self, name):
        if not name.startswith(('Get', '_')): raise AttributeError(name)
        return lambda *a, **k: self.vals.get(name, '')


GETTERS = ['GetProductName', 'GetExecutableName', 'GetExecutablePath', 'GetFullProductName', 'GetMachOType', 'GetProductType', 'GetBundleContentsFolderPath', 'GetWrapperName', 'GetInstallName', 'GetInstallNameBase', '_SdkPath', '_SdkRoot', 'SDKROOT', 'GetBundleFrameworksFolderPath']
REFD = ['PRODUCT_NAME', 'SRCROOT', 'SOURCE_ROOT', 'EXECUTABLE_NAME', 'EXECUTABLE_PATH', 'WRAPPER_NAME', 'SDKROOT', 'CONFIGURATION', 'MY_A', 'MY_B']


def c_env(tier, rng):
    forms = ('${%s}', '$(%s)', '$%s')
    ref = lambda: ''.join(rng.choice(['x', '/', ' ', rng.choice(forms) % rng.choice(REFD), '$(nothing)']) for _ in range(rng.randrange(3)))
    plain = lambda: rng.choice(['lib x', '/a b', '', 'name', '$(other)', '${OTHER}/y'])
    while True:
        yield (rng.choice(['executable', 'none', 'shared_library']), rng.random() < .4, {g: plain() if rng.random() < .8 else ref() for g in GETTERS if rng.random() < .6},
               {k: (rng.choice([ref, plain])() if rng.random() < .8 else [ref(), plain()]) for k in ['MY_A', 'MY_B', 'INFO'] if rng.random() < .6}, rng.choice(['/b', '$(abs_builddir)', '$PWD/out']), rng.choice(['/s', '$(abs_srcdir)', '.']))


def norm(s):
    """references in the ${NAME} form"""
    s = re.sub(r'\$([a-zA-Z_][a-zA-Z0-9_]*)', r'${\1}', s)
    return re.sub(r'\$\(([a-zA-Z0-9_\-]+)\)', r'${\1}', s)


def r_env(x):
    kind, bundle, vals, extra, built, src = x
    old = X.XcodeVersion
    X.XcodeVersion = lambda: ('0463', '4H1503')
    try: o = outcome(X.GetSortedXcodeEnv, Settings(kind, bundle, vals), built, src, 'Debug', {k: list(v) if isinstance(v, list) else v for k, v in extra.items()})
    finally: X.XcodeVersion = old
    want = {k: norm(' '.join(v) if isinstance(v, list) else v) for k, v in extra.items()}
    known = dict(SRCROOT=src, BUILT_PRODUCTS_DIR=built, CONFIGURATION='Debug', SOURCE_ROOT='${SRCROOT}', TARGET_BUILD_DIR=built, PRODUCT_NAME=vals.get('GetProductName', ''))
    if kind != 'none': known.update(EXECUTABLE_NAME=vals.get('GetExecutableName', ''), EXECUTABLE_PATH=vals.get('GetExecutablePath', ''), PRODUCT_TYPE=vals.get('GetProductType', ''))
    want.update({k: norm(v) for k, v in known.items()})
    if o[0] == 'raise':
        full = dict(want, SDKROOT=norm(vals.get('_SdkPath', '')) if vals.get('SDKROOT') else '', **({'WRAPPER_NAME': norm(vals.get('GetWrapperName', ''))} if bundle else {}))
        return None if o[1] == 'GypError' and cyclic({a: refs(v, full) for a, v in full.items()}) or o[1] == 'GypError' and any('${' in v for k, v in vals.items() for v in [norm(v)]) else 'no cycle, but %r' % (o[1:],)
    env = dict(o[1])
    if len(env) != len(o[1]): return 'listed twice: %r' % (o[1],)
    for k, v in want.items():
        if env.get(k) != v: return '%s is %r, not %r' % (k, env.get(k), v)
    return order(('ok', [k for k, v in o[1]]), env, 'the variables')


def c_expand(tier, rng):
    while True:
        env = table(rng)
        if any(re.search(r'\$(?!\{)', v) for v in env.values()): continue        # such a dollar may form a new reference with what follows it
        if cyclic({a: refs(v, env) for a, v in env.items()}): continue
        yield (env, value(rng, list(env), forms=('${%s}', '$(%s)', '$%s', '$(%s)x', '$%s/')))


def expand(s, env):
    """what the references stand for, from the inside out"""
    full = {}
    def val(k):
        if k not in full: full[k] = re.sub(r'\$\{([a-zA-Z0-9\-_]+)\}', lambda m: val(m.group(1)) if m.group(1) in env else m.group(0), env[k])
        return full[k]
    return re.sub(r'\$(?:\{([a-zA-Z0-9\-_]+)\}|\(([a-zA-Z0-9\-_]+)\)|(%s))' % ('|'.join(sorted(map(re.escape, env), key=len, reverse=True)) or '(?!)'), lambda m: val(m.group(1) or m.group(2) or m.group(3)) if (m.group(1) or m.group(2) or m.group(3)) in env else m.group(0), s)


def r_expand(x):
    env, s = x
    pairs = [(k, env[k]) for k in X._TopologicallySortedEnvVarKeys(env)]
    before = list(pairs)
    got = X.ExpandEnvVars(s, pairs)
    if pairs != before: return 'the environment was changed'
    for k in env:
        for f in ('${%s}', '$(%s)'):
            if f % k in got: return 'a reference to %s is left in %r' % (k, got)
    prefixes = any(a != b and a.startswith(b) for a in list(env) + ['HOME', 'NONE'] for b in env)
    if re.search(r'\$(?!\{[A-Za-z0-9_\-]+\})', s) and prefixes or '$$' in s or re.search(r'\$\{(?![A-Za-z0-9_\-]+\})', s + ''.join(env.values())): return None
    return diff('the expanded text', got, expand(s, env))


def c_block(tier, rng):
    chars = ['a', 'B', ' ', '=', 'é', ';', '%', '\\', '\n', '"', 'PATH', '日']
    while True: yield {(''.join(rng.choice(['A', 'b', '_', 'É', ' ', '(', ')', '1']) for _ in range(rng.randrange(1, 5)))): ''.join(rng.choice(chars) for _ in range(rng.randrange(6))) for _ in range(rng.randrange(7))}


def r_block(env):
    b = E._FormatAsEnvironmentBlock(env)
    if env and not b.endswith('\0\0') or not b.endswith('\0'): return 'the block %r is not terminated' % b
    pairs = [p for p in b[:-1].split('\0')]
    if env and pairs.pop() != '' or not env and pairs != ['']: return 'the block %r is not terminated once' % b
    m = diff('the entries', pairs if env else [], [k + '=' + v for k, v in env.items()])
    if m or not env or '\n' in b or '\r' in b: return m
    with scratch() as d:
        p = os.path.join(d, 'environment.x64')
        with open(p, 'w', encoding='utf-8') as f: f.write(b)
        return diff('what the tool reads from the block', W.WinTool()._GetEnv(p), env)


def c_set(tier, rng):
    ns = ['Path', 'PATHEXT', 'INCLUDE', 'LIB', 'libpath', 'SYSTEMROOT', 'SystemRoot', 'TEMP', 'TMP', 'USER', 'LIBX', 'XLIB', 'goma_dir', 'PathX', 'TEMP2']
    while True: yield [(n, rng.choice(['', 'C:\\x', 'a=b', 'a;b=c', '"q"', 'x y', '=', 'PATH=z'])) for n in rng.sample(ns, rng.randrange(4, len(ns)))]


def r_set(l):
    import sys
    o = outcome(E._ExtractImportantEnvironment, '\r\n'.join('%s=%s' % p for p in l))
    want = {}
    for n, v in l:
        if n.lower() in ('include', 'lib', 'libpath', 'path', 'pathext', 'systemroot', 'temp', 'tmp') or n.lower().startswith('goma_'):
            want[n.upper()] = os.path.dirname(sys.executable) + os.pathsep + v if n.lower() == 'path' else v
    if not {'SYSTEMROOT', 'TEMP', 'TMP'} <= set(want): return None if o[0] == 'raise' else 'a required variable is missing and nothing is said'
    return 'rejected: %r' % (o[1:],) if o[0] == 'raise' else diff('the variables', o[1], want)


def c_group(tier, rng):
    while True:
        ns = rng.sample(['OutDir', 'IntDir', 'Name', 'PATH', 'A_1', 'B'], rng.randrange(1, 6))
        vals = lambda i: ''.join(rng.choice(['x', '$(%s)' % rng.choice(ns[:i + 1] if rng.random() < .8 else ns), '$(SolutionDir)', '$', ';']) for _ in range(rng.randrange(4)))
        cs = ['c1', 'c2']
        props = {}
        for i, n in enumerate(ns): props[n] = {vals(i): list(cs)} if rng.random() < .6 else dict([(vals(i), ['c1']), (vals(i) + 'z', ['c2'])])
        items = list(props.items())
        rng.shuffle(items)
        yield dict(items)


def r_group(props):
    o = outcome(G._GetMSBuildPropertyGroup, {'configurations': {'a': {}, 'b': {}}}, None, props)
    g = {n: [v for t in vs for v in re.findall(r'\$\(([a-zA-Z_][a-zA-Z0-9_]*)\)', t) if v in props and v != n] for n, vs in props.items()}
    if cyclic(g): return None if o[0] == 'raise' else 'a cycle of properties is accepted'
    if o[0] == 'raise': return 'no cycle, but %r' % (o[1:],)
    el = o[1][0][1:]
    want = [[n, v] if len(cs) == 2 else [n, {'Condition': c}, v] for n, vs in props.items() for v, cs in vs.items() for c in (cs if len(cs) != 2 else [0])]
    m = diff('the properties', sorted(map(repr, el)), sorted(map(repr, want)))
    if m: return m
    ns = [e[0] for e in el]
    for a in g:
        for b in g[a]:
            if max(i for i, n in enumerate(ns) if n == b) > min(i for i, n in enumerate(ns) if n == a): return '%s uses %s, which is written later: %r' % (a, b, ns)
    return None


def bounded():
    return [Bounded('graphs', c_graph, r_graph, 'all graphs of up to 3 nodes, random ones of up to 8, with repeated edges and cycles, started from some or all nodes', budget=(5, 50)),
            Bounded('keys', c_keys, r_keys, 'environments of up to 6 variables whose values refer to each other, to themselves and to unknown names', budget=(5, 40)),
            Bounded('xcode', c_env, r_env, 'the environment of targets with arbitrary product names, paths, additional settings, references in all three forms', budget=(5, 40)),
            Bounded('expand', c_expand, r_expand, 'texts with references in all forms over acyclic environments of up to 6 variables', budget=(5, 40)),
            Bounded('block', c_block, r_block, 'environment blocks of up to 6 variables, read back by win_tool', budget=(4, 30)),
            Bounded('set output', c_set, r_set, 'output of "set" with up to 14 of 15 names in mixed case', budget=(3, 20)),
            Bounded('property group', c_group, r_group, 'MSBuild property groups of up to 5 properties with references and per-configuration values', budget=(4, 30))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='TopologicallySorted and the recursive function Visit inside it are proved for every graph and edge function: no node twice, every node of the graph, nothing but what is reachable, users before what they use (reversed by the caller), CycleError only when there is a cycle; '
                 '_TopologicallySortedEnvVarKeys is proved over that contract with the edges of its own closure; _FormatAsEnvironmentBlock is proved to write exactly the pairs in order. Expansion of references and the table of settings themselves are bounded.',
            assumptions=['the graph is finite (termination)', 're.findall with the pattern of references is a pure function of the text'])
