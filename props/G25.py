"""G25 Included files and command-line defaults are found without loops."""
import os
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import Loc
from pyvc.call import uf
from vlib import models as M
from vlib import spec as S
import gyp.input as I
import gyp.common as C

V = T.V
ENV, SET = uf('environ', T.String, T.String), uf('environ_has', T.String, T.Bool)
J0 = z3.Int('any_index')
X0, Y0 = z3.String('any_file'), z3.String('any_included_file')      # arbitrary: what is shown for them holds for all
ALLOWED = z3.Const('any_closed_set', T.SetS)                        # an arbitrary set of known files closed under "includes"


# ------------------------------------------------------------------ GetEnvironFallback
def name_at(l, i): return T.acc('s', l[i])


def fallback(e):
    l = e['var_list']
    i = z3.Int('found')
    before = lambda n: z3.Implies(z3.And(J0 >= 0, J0 < n), z3.Not(SET(name_at(l, J0))))
    return {'first-one-set-or-default': z3.Or(z3.And(before(T.length(l)), e.rv == V.StrV(e['default'])),
                                              z3.Exists([i], z3.And(i >= 0, i < T.length(l), SET(name_at(l, i)), e.rv == V.StrV(ENV(name_at(l, i))), before(i))))}


def cands_env(lv):
    if lv.done is None or lv.done.sort() != T.SeqV: return {}
    return {'none-yet': z3.Implies(z3.And(J0 >= 0, J0 < T.length(lv.done)), z3.Not(SET(name_at(lv.seq, J0))))}


FALL = Contract('GetEnvironFallback', C.GetEnvironFallback, {'var_list': TList(StrT), 'default': StrT}, ret=StrT, ensures=fallback, cands=cands_env)

# ------------------------------------------------------------------ GetIncludedBuildFiles
AUX = TDict(TDict(Any, {'included': (TList(StrT), False)}))


def includes(aux, f):
    d = T.dget(aux, f)
    return T.ite(T.dhas(d, T.sv('included')), T.acc('items', T.dget(d, T.sv('included'))), T.empty())


def has(l, f): return T.member(l, V.StrV(f))


def closed(now, old, aux, but=None):
    """whatever a file that was added includes is there"""
    c = z3.And(has(now, X0), z3.Not(has(old, X0)), has(includes(aux, X0), Y0), *([X0 != but] if but is not None else []))
    return z3.Implies(c, has(now, Y0))


def kept(now, old): return z3.And(*[z3.Implies(has(old, x), has(now, x)) for x in (X0, Y0)])


K = z3.Const('k', V)


def sub(a, b): return z3.ForAll([K], z3.Implies(T.member(a, K), T.member(b, K)))


def known(aux, x): return z3.And(T.aselect(ALLOWED, x), T.dhas(aux, x))


def only_allowed(l): return z3.And(*[z3.Implies(has(l, x), T.aselect(ALLOWED, x)) for x in (X0, Y0)])


def once(l): return S.uniq(l) == l


def req(e):
    old = T.acc('items', e.val('included'))
    return [known(e.val('aux_data'), e['build_file_path']), once(old), only_allowed(old)]


def cands_inc(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    e = lv.eng.entry
    f, aux, old = e['build_file_path'], e.val('aux_data'), T.acc('items', e.val('included')) if isinstance(e.params['included'], Loc) else T.empty()
    for n, q in lv.lists():
        out['once:' + n] = once(q)
        out['allowed:' + n] = only_allowed(q)
        out['kept:' + n] = kept(q, old)
        out['closed:' + n] = closed(q, old, aux, f)
        out['done:' + n] = z3.Implies(has(lv.done, Y0), has(q, Y0))
        out['self:' + n] = has(q, f)
        out['sub:' + n] = sub(old, q)
    return out


def facts_inc(eng, s, seq, done, x, rest):
    # ALLOWED is closed: what an allowed file includes is known and allowed
    return [known(eng.entry.val('aux_data'), T.acc('s', x))]


def ens(e, old, new):
    return {'once': once(new), 'the-file-itself': has(new, e['build_file_path']), 'nothing-lost': z3.And(kept(new, old), sub(old, new)), 'closed': closed(new, old, e.val('aux_data')), 'nothing-else': only_allowed(new)}


REC = Contract('GetIncludedBuildFiles', I.GetIncludedBuildFiles, {'build_file_path': StrT, 'aux_data': AUX, 'included': TList(StrT)}, ret=Any, modifies=['included'], requires=req, cands=cands_inc, elem_facts=facts_inc,
               ensures=lambda e: ens(e, T.acc('items', e.val('included')), T.acc('items', e.val('included', True))))


def req_top(e):
    return [known(e.val('aux_data'), e['build_file_path'])]


TOP = Contract('GetIncludedBuildFiles (first call)', I.GetIncludedBuildFiles, {'build_file_path': StrT, 'aux_data': AUX, 'included': NoneT}, ret=TList(StrT), requires=req_top, cands=cands_inc, elem_facts=facts_inc,
               ensures=lambda e: ens(e, T.empty(), e.rs()))


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, models=M.PATHS))
    return [(FALL, mk(FALL)), (REC, mk(REC)), (TOP, mk(REC))]
# ------------------------------------------------------------------ bounded contract runs
from vlib.load import load


def c_env(tier, rng):
    names = ['CC_target', 'CC', 'AR', 'X', '']
    while True:
        l = [rng.choice(names[:4]) for _ in range(rng.randrange(4))]
        yield ({n: rng.choice(['', 'gcc', 'a b', '$(CC)', '0']) for n in names[:4] if rng.random() < .4}, l if rng.random() < .5 else tuple(l), rng.choice(['', 'dflt', None, '$(CC)']))


def r_env(x):
    env, l, dflt = x
    old = dict(os.environ)
    for k in ('CC_target', 'CC', 'AR', 'X'): os.environ.pop(k, None)
    os.environ.update(env)
    try: got = C.GetEnvironFallback(l, dflt)
    finally:
        os.environ.clear()
        os.environ.update(old)
    want = dflt
    for n in reversed(l):
        if n in env: want = env[n]
    return diff('the value', got, want)


def graph(rng, n):
    names = ['f%d' % i for i in range(n)]
    return {a: ([rng.choice(names) for _ in range(rng.randrange(rng.choice([1, 3, 6])))] if rng.random() < .8 else None) for a in names}


def c_graph(tier, rng):
    import itertools
    for n in (1, 2, 3):
        names = ['f%d' % i for i in range(n)]
        for es in itertools.product([list(c) for k in range(n + 1) for c in itertools.permutations(names, k)], repeat=n): yield dict(zip(names, es))
    while True: yield graph(rng, rng.randrange(1, 9))


def reach(g, a):
    seen, todo = [a], [a]
    for x in todo:
        for y in g[x] or []:
            if y not in seen:
                seen.append(y)
                todo.append(y)
    return seen


def r_graph(g):
    aux = {a: ({} if l is None else {'included': list(l)}) for a, l in g.items()}
    for a in g:
        got = I.GetIncludedBuildFiles(a, aux)
        if got[:1] != [a]: return 'the list for %s begins with %r' % (a, got[:1])
        if len(set(got)) != len(got): return 'reported twice: %r' % got
        m = diff('the files included by ' + a, sorted(got), sorted(reach(g, a)))
        if m: return m
        again = I.GetIncludedBuildFiles(a, aux)
        if again != got or again is got: return 'the second call gives %r after %r' % (again, got)
    return diff('the include table', aux, {a: ({} if l is None else {'included': l}) for a, l in g.items()})


DIRS = ['', 'd/', 'd/e/']


def c_load(tier, rng):
    while True:
        n = rng.randrange(1, 6)
        fs = [DIRS[rng.randrange(3)] + 'i%d.gypi' % i for i in range(n)]
        g = {f: [h for h in fs[i + 1:] if rng.random() < .4] for i, f in enumerate(fs)}
        if rng.random() < .4:
            for _ in range(rng.randrange(1, 3)): g[rng.choice(fs)].append(rng.choice(fs))        # perhaps a cycle
        yield (g, [f for f in fs if rng.random() < .6], [f for f in fs if rng.random() < .2], rng.choice(['top', 'target', 'cond', 'variables']), [f for f in fs if rng.random() < .5] if rng.random() < .5 else None)


def r_load(x):
    g, direct, forced, where, second = x
    files = {f: {'includes': [os.path.relpath(h, os.path.dirname(f) or '.') for h in l], 'variables': {'v_' + os.path.basename(f).split('.')[0]: 'yes'}, 'cflags': ['-W'], 'items': [{'a': ['b']}]} for f, l in g.items()}
    t = {'target_name': 't', 'type': 'none'}
    p = {'targets': [t]}
    {'top': p, 'target': t, 'cond': p.setdefault('conditions', [['OS=="mac"', {}]])[0][1], 'variables': p.setdefault('variables', {})}[where]['includes'] = direct
    if second is not None:
        t['dependencies'] = ['q.gyp:u']
        files['q.gyp'] = {'targets': [{'target_name': 'u', 'type': 'none'}], 'includes': second}
    try:
        with limit(2): o = load(dict(files, **{'p.gyp': p}), includes=forced)
    except Hang: return 'loading does not end'
    if o[0] == 'raise': return 'not loaded: %r' % (o,)
    for name, own in [('p.gyp', direct)] + ([('q.gyp', second)] if second is not None else []):
        want = []
        for f in list(forced) + list(own): want += [h for h in reach(g, f) if h not in want]
        got = o[1].data[name]['included_files']
        if got[:1] != [name] or len(set(got)) != len(got): return 'reported for %s: %r' % (name, got)
        m = diff('the files included by ' + name, sorted(got[1:]), sorted(want))
        if m: return m
    return None


def c_defaults(tier, rng):
    dirs = ['w/cfg', 'w/other', 'none', 'w/bare']
    while True:
        args = []
        for o, vs in (('-f', ['make', 'ninja', 'x']), ('--generator-output=', dirs), ('--config-dir=', dirs)):
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2] if o == '-f' else [0, 0, 1])): args.append(o + ('ABS/' if o[1] == '-' else '') + rng.choice(vs))
        rng.shuffle(args)
        if rng.random() < .2: args.append('--ignore-environment')
        env = {}
        if rng.random() < .5: env['GYP_GENERATORS'] = rng.choice(['ninja', 'make,ninja', 'make ninja', '', 'y'])
        if rng.random() < .5: env['GYP_GENERATOR_OUTPUT'] = rng.choice(['', *['ABS/' + d for d in dirs]])
        if rng.random() < .5: env['GYP_CONFIG_DIR'] = rng.choice(['', *['ABS/' + d for d in dirs]])
        env['HOME'] = rng.choice(['ABS/home', 'ABS/none'])
        yield (args, env)


def r_defaults(x):
    import re
    from props import G20
    args, env = x
    with scratch() as d:
        d = os.path.realpath(d)
        for p in ('w/cfg', 'w/other', 'w/bare', 'home/.gyp'): os.makedirs(os.path.join(d, p))
        for p in ('w/cfg', 'w/other', 'home/.gyp'): open(os.path.join(d, p, 'include.gypi'), 'w').close()
        args, env = [a.replace('ABS', d) for a in args], {k: v.replace('ABS', d) for k, v in env.items()}
        o, _ = G20.run(args + ['--depth=.', 'b.gyp'], env, os.path.join(d, 'w'), many=True)
        if o[0] == 'raise': return 'the run: %r' % (o,)
        use = {} if '--ignore-environment' in args else env
        opt = lambda k: ([a[len(k):] for a in args if a.startswith(k)] or [''])[-1]
        formats = [a[2:] for a in args if a.startswith('-f')] or [w for w in re.split('[ ,]', use.get('GYP_GENERATORS', '')) if w] or ['make']
        out = opt('--generator-output=') or use.get('GYP_GENERATOR_OUTPUT') or None
        home = opt('--config-dir=') or use.get('GYP_CONFIG_DIR') or os.path.join(env['HOME'], '.gyp')
        home = home if os.path.exists(home) else None
        inc = [os.path.join(home, 'include.gypi')] if home and not home.endswith('bare') else []
        for s in o[1]:
            m = diff('the output directory', s['output'], out and os.path.realpath(out)) or diff('the configuration directory', s['home'], home) or diff('the includes', s['includes'], inc)
            if m: return m
        return diff('the formats', sorted(s['format'] for s in o[1]), sorted(set(formats)))


def bounded():
    return [Bounded('environment', c_env, r_env, 'lists and tuples of up to 3 of 4 names under random environments, empty values included', budget=(4, 30)),
            Bounded('graphs', c_graph, r_graph, 'all include graphs of up to 3 files with every order of includes, random ones of up to 8 files, cycles included', budget=(7, 60)),
            Bounded('defaults', c_defaults, r_defaults, 'runs with and without -f, --generator-output, --config-dir and their environment variables, empty ones included', budget=(5, 40)),
            Bounded('load', c_load, r_load, 'whole loads with up to 5 nested include files in 3 directories, included in 4 places and from the command line', budget=(6, 60))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='GetIncludedBuildFiles is proved against its own contract (the recursive call is the callee): the result has no duplicates, contains the file, is closed under "includes", contains nothing that an arbitrary closed set of known files does not contain, and keeps what was there; '
                 'GetEnvironFallback returns the value of the first name that is set, else the default. Termination (each call returns at once or adds one of finitely many files) is argued, not proved; that the include table itself is complete is bounded (whole loads).')
