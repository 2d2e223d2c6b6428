"""J03 The chosen Python is the first acceptable one in the documented order."""
import os, re, ast, functools
from vlib.base import *
setup_path()
from vlib import jsrun
import z3
from vlib.jsc import *
from vlib import jsc as JC

VERSION = re.compile(r'^v?(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)$')
GOOD = ['3.6.0', '3.12.1', '3.8.10', '3.6.15', '4.0.0', '10.0.0', '3.100.0']
POOR = ['3.5.9', '2.7.18', '3.0.0', '3.6', '3', '', 'Python 3.9.1', 'x', '3.5.99', '2.99.99', '0.0.0', '3.10', '3..6', 'command not found', '3.6.0rc1', '3.9.1.2', '3.12.0-rc1', '3.6.0-alpha', '3.9.0\nerror: no such option', 'warning\n3.9.0', '3.9.0\n\n3.9.0', '3.9.0 3.9.0', '3.9.0\x003', '+3.9.0', '3.9', '3.9.0,']
CMDS = ['python3', 'python', '/opt/py', 'C:\\my python\\python.exe', 'py.exe', 'myPy', 'a b']
LOCS = ['C:\\L1\\python.exe', 'C:\\L2\\python.exe', 'D:\\L3\\python.exe']


def acceptable(text):
    """a supported version as printed: a plain x.y.z of at least 3.6.0"""
    m = VERSION.match(text.strip())
    return bool(m) and (int(m.group(1)), int(m.group(2))) >= (3, 6)


def answer(world, key, kind):
    w = world.get(key, {}).get(kind)
    if w is None or w.get('throws') or w.get('err'): return None
    return w['out'].strip()


def usable(world, path):
    v = answer(world, path, 'version')
    return v is not None and acceptable(v)


def reference(config, env, win, world, locations):
    if env.get('NODE_GYP_FORCE_PYTHON'): order = [('cmd', env['NODE_GYP_FORCE_PYTHON'])]
    else:
        order = [('cmd', c) for c in (config, env.get('PYTHON')) if c]
        if win: order.append(('py', 'py.exe'))
        order += [('cmd', 'python3'), ('cmd', 'python')]
        if win: order += [('path', l) for l in locations]
    for kind, c in order:
        p = c if kind == 'path' else answer(world, c, 'path')
        if p is not None and usable(world, p): return p
    return None


def out(v): return {'out': v}


def cases(tier, rng):
    paths = ['/usr/bin/p%d' % i for i in range(4)]
    # one candidate at a time, every version text
    for v in GOOD + POOR:
        for win in (False, True):
            yield (None, {}, win, {'python3': {'path': out('/usr/bin/p0\n')}, '/usr/bin/p0': {'version': out(v + '\n')}}, LOCS)
            yield ('python', {}, win, {'python3': {'path': out('/p1')}, 'python': {'path': out('/p2')}, '/p1': {'version': out(v)}, '/p2': {'version': out('2.7.1')}}, LOCS)
        yield (None, {}, True, {LOCS[1]: {'version': out(v)}}, LOCS)
        yield (None, {'NODE_GYP_FORCE_PYTHON': 'myPy'}, False, {'python3': {'path': out('/p')}, '/p': {'version': out('3.9.0')}, 'myPy': {'path': out('/q')}, '/q': {'version': out(v)}}, LOCS)
    # every subset of usable candidates
    for mask in range(64):
        w, names = {}, ['cfg', 'env', 'py.exe', 'python3', 'python', LOCS[2]]
        for i, n in enumerate(names):
            good = mask >> i & 1
            if n == LOCS[2]: w[n] = {'version': out('3.9.9' if good else '3.1.0')}
            else:
                w[n] = {'path': out('/at/%s' % n)}
                w['/at/%s' % n] = {'version': out('3.9.%d' % i if good else '3.5.%d' % i)}
        for win in (False, True): yield ('cfg', {'PYTHON': 'env'}, win, w, LOCS)
        yield ('', {'PYTHON': ''}, True, w, LOCS)
    while True:
        w = {}
        for c in CMDS:
            r = rng.random()
            if r < .25: continue
            if r < .35: w[c] = {'path': {'throws': 1}}
            elif r < .5: w[c] = {'path': {'err': 1, 'out': rng.choice(['', rng.choice(paths)])}}
            else: w[c] = {'path': out(rng.choice(paths + [' ' + paths[0] + '\r\n', '', 'gibberish', paths[1] + '\n' + paths[0], 'note\r\n' + paths[2]]))}
        for p in paths + LOCS:
            r = rng.random()
            if r < .2: continue
            if r < .3: w[p] = {'version': {'throws': 1}}
            elif r < .45: w[p] = {'version': {'err': 1, 'out': rng.choice(GOOD + POOR)}}
            else: w[p] = {'version': out(rng.choice(GOOD + POOR) + rng.choice(['', '\n', '\r\n', ' ']))}
        env = {}
        if rng.random() < .5: env['PYTHON'] = rng.choice(CMDS + [''])
        if rng.random() < .2: env['NODE_GYP_FORCE_PYTHON'] = rng.choice(CMDS + [''])
        yield (rng.choice([None, '', None] + CMDS), env, rng.random() < .5, w, LOCS[:rng.randrange(4)])


def run(x):
    config, env, win, world, locs = x
    try: got = jsrun.call('python', {'config': config, 'env': env, 'win': win, 'world': world, 'locations': locs})
    except jsrun.JSError as ex: return 'the finder failed: ' + str(ex)[:200]
    want = reference(*x)
    g = got.get('ok')
    if 'raise' in got and not got['isError']: return 'something that is no Error was thrown: %r' % got
    if g != want: return 'configured %r, environment %r, windows %r, executables %r\nchose %r\nexpected %s' % (config, env, win, world, g if 'ok' in got else got, repr(want) if want is not None else 'an error')
    if env.get('NODE_GYP_FORCE_PYTHON'):
        ok = {env['NODE_GYP_FORCE_PYTHON'], answer(world, env['NODE_GYP_FORCE_PYTHON'], 'path')}
        bad = [c for c in got['calls'] if c[1] not in ok]
        if bad: return 'forced to %r but also ran %r' % (env['NODE_GYP_FORCE_PYTHON'], bad)
    if any(k == 'other' or str(c).startswith('<unquoted>') for k, c, _ in got['calls']): return 'executed with unexpected arguments: %r' % got['calls']
    if any(c[1] == 'py.exe' and c[0] == 'path' and c[2] != '-3' for c in got['calls'] if win and config != 'py.exe' and env.get('PYTHON') != 'py.exe' and env.get('NODE_GYP_FORCE_PYTHON') != 'py.exe'):
        return 'the launcher was not asked for Python 3: %r' % got['calls']


SCRIPTS = {'good': '#!/bin/sh\ncase "$2" in *sys.executable*) printf %s "$0";; *) echo 3.9.7;; esac\n',
           'old': '#!/bin/sh\ncase "$2" in *sys.executable*) printf %s "$0";; *) echo 2.7.18;; esac\n',
           'fails': '#!/bin/sh\ncase "$2" in *sys.executable*) printf %s "$0";; *) echo 3.9.7;; esac\nexit 1\n',
           'silent': '#!/bin/sh\nexit 0\n',
           'waits': '#!/bin/sh\ncat >/dev/null\ncase "$2" in *sys.executable*) printf %s "$0";; *) echo 3.8.0;; esac\n',
           'noise': '#!/bin/sh\necho warning >&2\ncase "$2" in *sys.executable*) printf %s "$0";; *) echo 3.11.2;; esac\n',
           'absent': None}
WORKS = {'good', 'waits', 'noise'}


def reals(tier, rng):
    for k in SCRIPTS:
        yield {'python3': k, 'python': 'good', 'cfg': 'absent', 'env': 'absent', 'force': ''}
        yield {'python3': 'good', 'python': 'good', 'cfg': k, 'env': 'good', 'force': ''}
        yield {'python3': 'good', 'python': 'good', 'cfg': 'absent', 'env': k, 'force': ''}
        yield {'python3': 'good', 'python': 'good', 'cfg': 'good', 'env': 'good', 'force': k}
    while True: yield {n: rng.choice(list(SCRIPTS)) for n in ('python3', 'python', 'cfg', 'env')} | {'force': rng.choice(['', '', ''] + list(SCRIPTS))}


def run_real(x):
    """Real scripts, run by the real execFile."""
    with scratch() as d:
        at = {}
        for n, k in x.items():
            at[n] = os.path.join(d, n)
            if k and SCRIPTS[k] is not None:
                open(at[n], 'w').write(SCRIPTS[k])
                os.chmod(at[n], 0o755)
        env = {'PATH': d, 'PYTHON': at['env']}
        for t in ('cat',): os.symlink('/bin/' + t, os.path.join(d, t))
        if x['force']: env['NODE_GYP_FORCE_PYTHON'] = at['force']
        order = ['force'] if x['force'] else ['cfg', 'env', 'python3', 'python']
        want = next((at[n] for n in order if x[n] in WORKS), None)
        try: got = jsrun.call('pythonReal', {'config': at['cfg'], 'env': env})
        except jsrun.JSError as ex: return 'the finder failed: ' + str(ex)[:200]
    return None if got.get('ok') == want else '%r: chose %r, expected %r' % (x, got, want)


def bounded():
    return [Bounded('executables', reals, run_real, 'real scripts of 7 kinds in each place', per=20, budget=(10, 60)),
            Bounded('choice', cases, run, 'every subset of six candidates usable, 25 version texts for each kind of candidate; random executables that fail, throw or print gibberish, on both platforms',
                    budget=(20, 200))]


# ------------------------------------------------------------------ contracts on the extracted text (pyvc/js.py)
class Range:
    def test(self, v): """is the version in the range"""


def new_range(text): """semver.Range"""


STUBS = {'process': JC.Stub(), 'semver': JC.Stub(Range=new_range)}
FINDER = {'configPython': TUnion(NoneT, StrT), 'errorLog': TList(StrT), 'env': TDict(StrT), 'win': BoolT, 'pyLauncher': StrT, 'winDefaultLocations': TList(StrT), 'argsExecutable': TList(StrT), 'argsVersion': TList(StrT), 'semverRange': StrT}
THROWS, EXITS = uf('exec_throws', V, V, V, V, z3.BoolSort()), uf('exec_fails', V, V, V, V, z3.BoolSort())
STDOUT = uf('exec_stdout', V, V, V, V, T.String)
IN_RANGE, NO_VERSION, RANGE = uf('in_range', z3.IntSort(), V, z3.BoolSort()), uf('range_throws', z3.IntSort(), V, z3.BoolSort()), uf('range_of', V, z3.IntSort())
QUOTED = T.Fold('quoted', lambda: T.empty(), lambda acc, x, p: T.concat(acc, T.unit(quote(x))), T.SeqV)


def quote(x): return V.StrV(z3.Concat(T.sv('"'), T.acc('s', x), T.sv('"')))
def execute(self, exec, args, opts): """runs a program"""


def MOD():
    m = JC.module('lib/find-python.js', stubs=STUBS, objects=('range',))
    m.ns['PythonFinder'].execFile = execute
    return m


def exec_model(eng, st, args, kw, node):
    """an error is thrown, or an error is the first of three results; what was printed, otherwise"""
    eng.assumed.add('a program run with the same arguments, environment and kind of shell behaves the same way during one search')
    me, exe, a, o = args
    exe, a, o = (eng.box(st, x) for x in (exe, a, o))
    k = (exe, a, T.dget(o, T.sv('env')), T.dget(o, T.sv('shell')))
    out = []
    for s, bad in eng.branch(st, mk_bool(THROWS(*k))):
        if bad: out.append((s, Exc(JC.jsrt.Error))); continue
        for s2, failed in eng.branch(s, mk_bool(EXITS(*k))):
            out.append((s2, Tup([Py(Exc(JC.jsrt.Error) if failed else None), mk_str(STDOUT(*k)), mk_str(z3.FreshConst(T.String, 'stderr'))])))
    return out


def me(e, n): return e.of[n] if isinstance(e, Reads) else T.aselect(e.fld('Finder', n), e['self'])
def words(e): return T.acc('items', me(e, 'argsExecutable'))


def outcome(e, exe, args, shell):
    env = T.dset(me(e, 'env'), T.sv('TERM'), V.StrV(T.sv('dumb')))
    k = (exe, args, env, V.BoolV(shell))
    return z3.And(z3.Not(THROWS(*k)), z3.Not(EXITS(*k))), V.StrV(TRIM.f(V.StrV(STDOUT(*k))))


TRIM = JC.MODELS[JC.jsrt.trim]


def checked(e, path):
    """runs, and prints a version in the range"""
    ok, v = outcome(e, path, me(e, 'argsVersion'), z3.BoolVal(False))
    r = RANGE(me(e, 'semverRange'))
    return z3.And(ok, z3.Not(NO_VERSION(r, v)), IN_RANGE(r, v))


def command(e, c):
    win = T.acc('b', me(e, 'win'))
    return outcome(e, T.ite(win, quote(c), c), V.ListV(T.ite(win, QUOTED(words(e)), words(e))), win)


def launcher(e): return outcome(e, me(e, 'pyLauncher'), V.ListV(T.concat(T.unit(V.StrV(T.sv('-3'))), words(e))), z3.BoolVal(False))


def py(name, params, ok, value, **k):
    """returns the value exactly if ok, an error is thrown otherwise"""
    return Contract(name, MOD().fn('PythonFinder.' + name), dict({'self': TObj('Finder')}, **params), ret=StrT, ensures=lambda e: {'only-if': ok(e), 'the-result': e.rv == value(e)},
                    raises={Exception: lambda e: z3.Not(ok(e))}, fields=[('Finder', 'errorLog')], **k)


def quoting(lv):
    return {'quoted:' + n: q == QUOTED(lv.done) for n, q in lv.lists() if q.sort() == T.SeqV} if lv.done is not None and lv.done.sort() == T.SeqV else {}


def found(run): return lambda e: z3.And(run(e)[0], checked(e, run(e)[1]))


# ---- findPython.  The functions kept in the list of candidates are records of which function it is (pyvc/js.py, thunk).  What each stands for is read
# off its text for the loop invariants (an invariant that is not inductive is dropped, so nothing is taken on trust there); the statement does not mention them.
def truth(v): return z3.And(T.tester('StrV', v), T.acc('s', v) != T.sv(''))
def env_of(e, k): return (lambda d: T.ite(T.dhas(d, T.sv(k)), T.dget(d, T.sv(k)), V.NoneV))(me(e, 'env'))
def orelse(a, b): return T.ite(T.tester('NoneV', a), b, a)
def if_good(ok, v): return T.ite(ok, v, V.NoneV)
def by_command(e, c): return if_good(z3.And(truth(c), found(lambda e: command(e, c))(e)), command(e, c)[1])
def by_launcher(e): return if_good(found(launcher)(e), launcher(e)[1])


READS = ('env', 'win', 'argsExecutable', 'argsVersion', 'pyLauncher', 'semverRange', 'configPython')


class Reads:
    """the fields of the finder a specification function depends on"""
    def __init__(self, *vs): self.of = dict(zip(READS, vs))


def reads(e): return tuple(me(e, n) for n in READS)
def location(e, p): return if_good(z3.And(T.tester('StrV', p), checked(e, p)), p)


SORTS = (V,) * len(READS)
LOC = T.Fold('first_good_location', lambda *p: V.NoneV, lambda acc, x, s, *p: orelse(acc, location(Reads(*p), x)), V, SORTS)
RECORD = T.Fold('first_good_record', lambda *p: V.NoneV, lambda acc, x, s, *p: orelse(acc, result_of(Reads(*p), x)), V, SORTS)
FORMED = T.Fold('records', lambda: z3.BoolVal(True), lambda acc, x, s: z3.And(acc, is_record(x)), z3.BoolSort())


def locations(e, places): return LOC(places, *reads(e))


def chosen(e):
    """the first candidate in the documented order that is good"""
    win, forced = T.acc('b', me(e, 'win')), env_of(e, 'NODE_GYP_FORCE_PYTHON')
    return T.ite(truth(forced), by_command(e, forced), orelse(commands(e), T.ite(win, locations(e, T.acc('items', me(e, 'winDefaultLocations'))), V.NoneV)))


def commands(e):
    win, lit = T.acc('b', me(e, 'win')), lambda t: V.StrV(T.sv(t))
    return orelse(orelse(orelse(orelse(by_command(e, me(e, 'configPython')), by_command(e, env_of(e, 'PYTHON'))), T.ite(win, by_launcher(e), V.NoneV)), by_command(e, lit('python3'))), by_command(e, lit('python')))


@functools.lru_cache(None)
def meaning():
    """[(numbers of the two functions of a record, what is chosen, for a record x)]"""
    texts = {m.name: ast.unparse(m.body) for m in ast.walk(MOD().py) if isinstance(m, ast.FunctionDef) and m.name.startswith('thunk_')}
    recs = []
    for d in ast.walk(MOD().py):
        if isinstance(d, ast.Dict) and [getattr(k, 'value', None) for k in d.keys] == ['before', 'check'] and all(isinstance(v, ast.Dict) for v in d.values):
            b, c = [next(v.value for k, v in zip(r.keys, r.values) if k.value == 'thunk') for r in d.values]
            locs = [k.value for k in d.values[1].keys if k.value != 'thunk']
            t = re.sub(r'\s+', '', texts['thunk_%d' % c])
            if locs: f = lambda e, x, l=locs[0]: location(e, T.dget(T.dget(x, T.sv('check')), T.sv(l)))
            elif 'FORCE' in t: continue            # alone in its list
            elif 'configPython' in t: f = lambda e, x: by_command(e, me(e, 'configPython'))
            elif 'PYTHON' in t: f = lambda e, x: by_command(e, env_of(e, 'PYTHON'))
            elif 'Launcher' in t: f = lambda e, x: by_launcher(e)
            else: f = lambda e, x, c=re.findall(r"'(.*?)'", t): by_command(e, V.StrV(T.sv(c[0] if c else '')))
            recs.append((b, c, f, locs))
    return recs


def tag(x, k): return T.dget(T.dget(x, T.sv(k)), T.sv('thunk'))


def which(x):
    """[(is x this record, what it chooses)]"""
    return [(z3.And(tag(x, 'before') == V.IntV(b), tag(x, 'check') == V.IntV(c), *[z3.And(T.dhas(T.dget(x, T.sv(k)), T.sv(l)), T.tester('StrV', T.dget(T.dget(x, T.sv(k)), T.sv(l)))) for k in ('before', 'check') for l in locs]), f)
            for b, c, f, locs in meaning()]


def is_record(x):
    D, has = lambda d: T.tester('DictV', d), lambda d, k: T.dhas(d, T.sv(k))
    return z3.And(D(x), has(x, 'before'), has(x, 'check'), *[z3.And(D(T.dget(x, T.sv(k))), has(T.dget(x, T.sv(k)), 'thunk')) for k in ('before', 'check')], z3.Or(*[c for c, f in which(x)]))


def result_of(e, x):
    res = V.NoneV
    for c, f in which(x): res = T.ite(c, f(e, x), res)
    return res


def search_cands(lv):
    out, e = {}, lv.eng.entry
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    for n, q in lv.lists():
        if q.sort() != T.SeqV: continue
        out['formed:' + n] = FORMED(q)
        out['so-far:' + n] = RECORD(q, *reads(e)) == orelse(commands(e), locations(e, lv.done))
    out['none-yet'] = RECORD(lv.done, *reads(e)) == V.NoneV
    return out


def find_c():
    return Contract('findPython', MOD().fn('PythonFinder.findPython'), {'self': TObj('Finder')}, ret=Any, ensures=lambda e: {'the-first-good-candidate': e.rv == chosen(e), 'one': z3.Not(T.tester('NoneV', chosen(e)))},
                    raises={Exception: lambda e: T.tester('NoneV', chosen(e))}, fields=[('Finder', 'errorLog')], cands=search_cands, elem_facts=at_element)


def sticky(a, x, b, rs):
    """what was found first stays"""
    return z3.Implies(z3.Not(T.tester('NoneV', RECORD(T.concat(a, T.unit(x)), *rs))), RECORD(T.concat(a, T.unit(x), b), *rs) == RECORD(T.concat(a, T.unit(x)), *rs))


def formed(a, x, b): return z3.Implies(FORMED(T.concat(a, T.unit(x), b)), is_record(x))


def at_element(eng, st, q, done, x, rest): return [sticky(done, x, rest, reads(eng.entry)), formed(done, x, rest)]


def lemmas():
    a, b = z3.Consts('a b', T.SeqV)
    x, y = z3.Consts('x y', V)
    rs = z3.Consts(' '.join('r_' + n for n in READS), V)
    by = T.concat(b, T.unit(y))
    return {'sticky': [('none', [], sticky(a, x, T.empty(), rs)), ('one more', [sticky(a, x, b, rs)], sticky(a, x, by, rs))],
            'formed': [('none', [], formed(a, x, T.empty())), ('one more', [formed(a, x, b)], formed(a, x, by))]}


class Thing:
    def __init__(self, **k): self.__dict__.update(k)


def run_text(x):
    """The extracted text that the contracts are about, run by Python, chooses what node chooses."""
    config, env, win, world, locs = x
    try: real = jsrun.call('python', {'config': config, 'env': env, 'win': win, 'world': world, 'locations': locs}).get('ok')
    except jsrun.JSError: return None
    Error = JC.jsrt.Error

    def execute(exec, args, opts):
        kind = 'path' if any('sys.executable' in a for a in args) else 'version'
        if opts['shell']: exec = exec[1:-1]
        w = world.get(exec, {}).get(kind)
        if w is None: return [Error(), '', '']
        if w.get('throws'): raise Error()
        return [Error() if w.get('err') else None, w.get('out', ''), '']
    ns = MOD().ns
    it = object.__new__(ns['PythonFinder'])
    it.__dict__.update(configPython=config, errorLog=[], env=dict(env), win=win, pyLauncher='py.exe', winDefaultLocations=list(locs), argsExecutable=['-c', 'sys.executable'], argsVersion=['-c', 'version_info'], semverRange='>=3.6.0', execFile=execute)
    keep = ns['semver']
    ns['semver'] = Thing(Range=lambda r: Thing(test=acceptable))
    try: mine = it.findPython()
    except Error: mine = None
    finally: ns['semver'] = keep
    if mine != real: return '%r: %r, node %r' % (x, mine, real)


def boxed(t): return V.StrV(t) if t.sort() == T.String else V.NoneV if t.sort() != V else t


def contracts():
    s = lambda n: lambda e: V.StrV(e[n])
    rng = Contract('semver.Range', new_range, {'text': StrT}, ret=TObj('Range'), trusted=True, ensures=lambda e: {'range': e.rv == V.ObjV(RANGE(V.StrV(e['text'])))})
    test = Contract('Range.test', Range.test, {'self': TObj('Range'), 'v': StrT}, ret=BoolT, trusted=True, raises={JC.jsrt.Error: lambda e: NO_VERSION(e['self'], V.StrV(e['v']))},
                    ensures=lambda e: {'in': e.rv == V.BoolV(IN_RANGE(e['self'], V.StrV(e['v']))), 'a-version': z3.Not(NO_VERSION(e['self'], V.StrV(e['v'])))})
    run_c = py('run', {'exec': StrT, 'args': TList(StrT), 'shell': BoolT}, lambda e: outcome(e, V.StrV(e['exec']), V.ListV(e['args']), e['shell'])[0], lambda e: outcome(e, V.StrV(e['exec']), V.ListV(e['args']), e['shell'])[1])
    path = py('checkExecPath', {'execPath': StrT}, lambda e: checked(e, V.StrV(e['execPath'])), s('execPath'))
    cmd = py('checkCommand', {'command': TUnion(NoneT, StrT)}, found(lambda e: command(e, boxed(e['command']))), lambda e: command(e, boxed(e['command']))[1], cands=quoting, requires=lambda e: [T.tester('StrV', boxed(e['command']))])
    lau = py('checkPyLauncher', {}, found(launcher), lambda e: launcher(e)[1])
    suc = py('succeed', {'execPath': StrT, 'version': StrT}, lambda e: z3.BoolVal(True), s('execPath'))
    fail = Contract('fail', MOD().fn('PythonFinder.fail'), {'self': TObj('Finder')}, raises={JC.jsrt.Error: None}, ensures=lambda e: {'never': z3.BoolVal(False)})
    fail.never = True
    cs = [run_c, path, cmd, lau, suc, fail, find_c()]
    mk = JC.engine(cs + [rng, test], {'Finder': FINDER, 'Range': {}}, models={execute: exec_model}, class_objs={'Finder': MOD().ns['PythonFinder'], 'Range': Range})
    return [(c, mk) for c in cs] + [(JC.Faithful('find-python.js as extracted', cases, run_text), mk)] + [(Lemma(n, lambda l=l: l), mk) for n, l in lemmas().items()]


META = dict(level='proof', technique='contracts on the text extracted mechanically from lib/find-python.js: what is chosen is the first good candidate in the documented order, and an error is thrown exactly if there is none (findPython, for every environment, '
                                     'option, platform and list of locations); a candidate is good exactly if it runs, and what it prints as version is in the range (run, checkExecPath, checkCommand, checkPyLauncher); a bounded check of the class in node '
                                     'against an independent reference',
            note='assumed: the text extracted from JavaScript means what node does (compared on inputs each run; functions kept in the list of candidates are records told apart by one function); a program run again in the same way behaves the same way; '
                 'Range.test and trim are functions of their arguments (which versions the range takes in, and the range itself, are bounded only); environment variables are texts')
