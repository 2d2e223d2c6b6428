"""J04 The generated configuration reflects the requested options."""
import json, os, pprint, random, re, copy
from vlib.base import *
setup_path()
from vlib import jsrun
import gyp.input
import z3
from vlib.jsc import *
from vlib import jsc as JC

KNOWN = ['help', 'arch', 'cafile', 'debug', 'directory', 'make', 'msvs-version', 'ensure', 'solution', 'proxy', 'noproxy', 'devdir', 'nodedir', 'loglevel', 'python', 'dist-url',
         'tarball', 'jobs', 'thin', 'force-process-config']
BASES = [{}, {'target_defaults': {'cflags': ['-O2', '-I/opt/x'], 'default_configuration': 'Release', 'defines': ['A=1'], 'include_dirs': ['/inc'], 'libraries': ['-lz'], 'ldflags': ['-L/x'],
                                  'configurations': {'Debug': {'defines': ['D']}, 'Release': {}}},
              'variables': {'asan': 0, 'host_arch': 'x64', 'target_arch': 'x64', 'napi_build_version': '10', 'v8_enable_i18n_support': 1, 'shared': [], 'f': 1.5, 'neg': -3, 'b': True, 'nodedir': '/old',
                            'python': 'python2', 'standalone_static_library': 7, 'some_flag': 'base', 'list': ['x', 'y.js', {'a': [False]}]}},
         {'target_defaults': {'default_configuration': 'Debug', 'cflags_cc': ['-g']}, 'other': {'deep': {'x': ['1', '2']}}, 'conditions': [['OS=="mac"', {'defines': ['x']}]]},
         {'variables': {'target_arch': 'arm64', 'clang': 1, 'path': "it's # \"quoted\" \\ /x/\n\t\u2028é\U0001f600"}},
         {'target_defaults': {'msvs_configuration_platform': 'x', 'xcode_configuration_platform': 'y'}, 'variables': {'t': False, 'none_like': 'null', 'n': None}}]
NODEDIRS = ['/home/u/.cache/node-gyp/22.0.0', '/tmp/a b', "/x/it's", 'C:\\n\\22', None]
VALUES = ['bar', '', 'true', '1', True, False, ['1', '2'], 'a b"c', "q'r", '#x', 'back\\slash', 'line\nbreak', 'é\U0001f600', '\x01', None, '/p//q', '${x}', '<(y)']
UNKNOWN = ['foo', 'shared-libxml2', 'shared_libxml2', 'a-b-c', 'target', 'target_arch', 'target-arch', 'toString', 'constructor', 'disturl', 'Debug', 'x', 'nodedirs', 'argv0', 'clang', 'hasOwnProperty', 'some-flag']


VS = [None, {'versionMajor': 16, 'versionMinor': 3, 'toolset': 'v142', 'sdk': '10.0.1.0', 'msBuild': 'C:\\m.exe'}, {'versionMajor': 17, 'versionMinor': 0, 'toolset': 'v143', 'msBuild': '/m b'},
      {'versionMajor': 15, 'versionMinor': 9, 'toolset': 'v141', 'sdk': '8.1', 'msBuild': 'x'}, {'versionMajor': 14, 'versionMinor': 0, 'toolset': 'v140', 'sdk': None, 'msBuild': 'x'}, {}]


def reference(x, base, vs=None):
    opts, _, nodedir, python, arch, _ = x
    c = copy.deepcopy(base)
    if not c.get('target_defaults'): c['target_defaults'] = {}
    if not c.get('variables'): c['variables'] = {}
    d, v = c['target_defaults'], c['variables']
    for k in ('cflags', 'defines', 'include_dirs', 'libraries'): d[k] = []
    if 'debug' in opts: d['default_configuration'] = 'Debug' if opts['debug'] else 'Release'
    d['default_configuration'] = d.get('default_configuration') or 'Release'
    v['target_arch'] = opts.get('arch') or arch
    if v['target_arch'] == 'arm64':
        d['msvs_configuration_platform'], d['xcode_configuration_platform'] = 'ARM64', 'arm64'
    v['nodedir'], v['python'] = nodedir, python
    v['standalone_static_library'] = 0 if opts.get('thin') else 1
    if vs is not None:
        if 'toolset' in vs: d['msbuild_toolset'] = vs['toolset']
        if vs.get('sdk'): d['msvs_windows_target_platform_version'] = vs['sdk']
        if v['target_arch'] == 'arm64' and vs.get('versionMajor', 0) >= 15: d['msvs_enable_marmasm'] = 1
        if 'msBuild' in vs: v['msbuild_path'] = vs['msBuild']
        if v.get('clang') == 1: v['clang'] = 0
    for k, o in opts.items():
        if k != 'argv' and k not in KNOWN: v[k.replace('-', '_')] = o
    return c


def written(v):
    if v is True: return 'true'
    if v is False: return 'false'
    if v is None: return 'null'
    if isinstance(v, dict): return {k: written(w) for k, w in v.items()}
    if isinstance(v, list): return [written(w) for w in v]
    return v


def cases(tier, rng):
    for b in range(len(BASES)):
        yield ({}, b, NODEDIRS[0], '/usr/bin/python3', 'x64', 'none')
        for o in ({'debug': True}, {'debug': False}, {'arch': 'ia32'}, {'arch': 'arm64'}, {'thin': 'yes'}, {'thin': ''}, {'argv': {'remain': ['x']}}): yield (o, b, NODEDIRS[1], 'python', 'x64', 'none')
    for i in range(1, len(VS)):
        for a in ('x64', 'arm64'):
            for b in (1, 3): yield ({'arch': a}, b, NODEDIRS[1], 'p', 'x64', 'none', i)
    for k in KNOWN: yield ({k: 'value'}, 1, NODEDIRS[0], '/p', 'arm64', 'none')
    for k in UNKNOWN: yield ({k: 'value'}, 1, NODEDIRS[0], '/p', 'x64', 'none')
    for v in VALUES: yield ({'foo': v}, 1, NODEDIRS[0], '/p', 'x64', 'none')
    while True:
        o = {}
        for _ in range(rng.randrange(6)):
            if rng.random() < .4: o[rng.choice(KNOWN)] = rng.choice([w for w in VALUES if isinstance(w, (str, bool))])
            else: o[rng.choice(UNKNOWN)] = rng.choice(VALUES)
        if rng.random() < .3: o['debug'] = rng.random() < .5
        if rng.random() < .3: o['arch'] = rng.choice(['x64', 'ia32', 'arm64', 'arm', ''])
        if rng.random() < .8: o['argv'] = {'remain': [], 'cooked': ['a'], 'original': []}
        yield (o, rng.randrange(len(BASES)), rng.choice(NODEDIRS[:4]), rng.choice(['/usr/bin/python3', 'C:\\py\\python.exe', "p'y"]), rng.choice(['x64', 'arm64', 'ia32', 's390x']),
               rng.choice(['none', 'none', 'good', 'bad', 'good'])) + ((rng.randrange(1, len(VS)),) if rng.random() < .2 else ())


SAFE = {'target_defaults': {'cflags': ['-q'], 'default_configuration': 'Release', 'libraries': ['l']}, 'variables': {'fromfile': 1, 'target_arch': 'mips', 'name': 'a b', 'long': 'word ' * 30, 'l': ['x', 'y']}}


def run(x):
    opts, b, nodedir, python, arch, headers = x[:6]
    vs = VS[x[6]] if len(x) > 6 else None
    base = BASES[b]
    with scratch() as d:
        files = {}
        if headers != 'none':
            opts = dict(opts)
            nodedir = os.path.join(d, 'headers dir')
            text = '# comment: do not edit\n' + pprint.pformat(SAFE, indent=2) + '\n' if headers == 'good' else '{ broken'
            files[os.path.join(nodedir, 'include', 'node', 'config.gypi')] = text
            if (opts.get('nodedir') or opts.get('dist-url') or opts.get('disturl')) and not opts.get('force-process-config') and headers == 'good': base = SAFE
        x2 = (opts, b, nodedir, python, arch, headers)
        os.mkdir(os.path.join(d, 'build'))
        try: got = jsrun.call('config', {'opts': opts, 'config': BASES[b], 'nodeDir': nodedir, 'python': python, 'buildDir': os.path.join(d, 'build'), 'vsInfo': vs, 'files': files, 'arch': arch}, platform='win32' if vs is not None else '')
        except jsrun.JSError as ex: return 'createConfigGypi failed: ' + str(ex)[:300]
        want = reference(x2, base, vs)
        if got['got'] != want: return 'options %r, base %r\n%s' % (opts, base, where(got['got'], want))
        if not got['untouched']: return 'the configuration of the running process was changed'
        if got['path'] != os.path.join(d, 'build', 'config.gypi'): return 'written to %r' % got['path']
        # the build step
        try: data = json.loads(re.sub(r'#.+\n', '', got['text'], count=1))
        except ValueError as ex: return 'options %r: the build step cannot read the file: %s\n%s' % (opts, ex, got['text'][:600])
        # gyp
        try: mine = gyp.input.LoadOneBuildFile(got['path'], {}, {}, None, True, False)
        except Exception as ex: return 'options %r: gyp cannot read the file: %s: %s\n%s' % (opts, type(ex).__name__, str(ex)[:200], got['text'][:600])
        for who, v in (('the build step', data), ('gyp', mine)):
            if v != written(want): return 'options %r: %s reads\n%s' % (opts, who, where(v, written(want)))
        if headers == 'none' and b < 3 and vs is None:
            try: s = jsrun.call('build', {'dir': d, 'argv': [], 'opts': {'make': 'make'}})['spawned']
            except jsrun.JSError as ex: return 'the build step failed: ' + str(ex)[:300]
            t = 'BUILDTYPE=' + want['target_defaults']['default_configuration']
            if len(s) != 1 or t not in s[0][1]: return 'options %r: the build step ran %r, expected %s' % (opts, s, t)


def where(got, want, path=''):
    if isinstance(got, dict) and isinstance(want, dict):
        for k in sorted(set(got) | set(want)):
            if k not in got: return '%s/%s is missing, expected %r' % (path, k, want[k])
            if k not in want: return '%s/%s is %r, expected nothing' % (path, k, got[k])
            r = where(got[k], want[k], path + '/' + k)
            if r: return r
        return ''
    return '' if type(got) is type(want) and got == want else '%s is %r, expected %r' % (path, got, want)


STR = ['x', '', 'a b', '/usr/lib', 'long word ' * 12, '-O2', '1', "x=y;z", 'a\\\\b']


def headers(tier, rng):
    def val(d):
        r = rng.random()
        if d == 0 or r < .5: return rng.choice([rng.choice(STR), rng.randrange(-5, 300)])
        if r < .75: return [val(d - 1) for _ in range(rng.randrange(4))]
        return {rng.choice(['a', 'b_c', 'key with space', 'd']): val(d - 1) for _ in range(rng.randrange(4))}
    yield ({}, 0)
    yield (SAFE, 1)
    while True: yield ({'variables': val(3), 'target_defaults': {k: val(2) for k in rng.sample(['cflags', 'defines', 'x'], 2)}}, rng.randrange(3))


def run_header(x):
    v, style = x
    v = json.loads(json.dumps(v).replace('\\\\', '/'))
    text = pprint.pformat(v, indent=2, width=[80, 30, 2000][style])
    if style == 1: text = '# one\n# it\'s "two"\n' + text.replace(',\n', ',  # note: \'n\'\n')
    try: got = jsrun.call('parseConfig', {'text': text})
    except jsrun.JSError as ex: return 'parseConfigGypi of\n%s\nfailed: %s' % (text, str(ex)[:200])
    return None if got == v else 'parseConfigGypi of\n%s\n%s' % (text, where(got, v))


def bounded():
    return [Bounded('configuration', cases, run, '5 base configurations x each recognised and 17 other options and 18 values, random combinations, with good, broken and no configuration beside the headers; the file read back by gyp, as JSON and by the real build step',
                    budget=(25, 200)),
            Bounded('headers', headers, run_header, 'random configurations in the form configure.py writes them (nested up to 3), with comments and split strings, without # or quotes inside strings', budget=(6, 60))]


# ------------------------------------------------------------------ contracts on the extracted text (pyvc/js.py)
STUBS = {'path': JC.Stub(resolve=lambda *a: None), 'fs': JC.Stub(readFile=lambda p: None), 'process': JC.Stub(), 'JSON': JC.Stub(parse=lambda s: None, stringify=lambda *a: None)}
RESOLVE = JC.pure_str('path.resolve')
FILE, PARSED = uf('file_content', V, V), uf('config_in_text', T.String, V)
PARSES = uf('config_text_parses', T.String, z3.BoolSort())
READABLE = uf('file_readable', V, z3.BoolSort())
JSONTEXT, JSONVALUE = any_str('JSON.stringify', 1), uf('value_in_JSON', T.String, V)
def COPY(v): return JSONVALUE(JSONTEXT.f(v))
CONFIG = TDict(Any, {'target_defaults': (TDict(Any, {'default_configuration': (TUnion(NoneT, StrT), False)}), False), 'variables': (TDict(Any, {'clang': (TUnion(NoneT, StrT, IntT, BoolT), False)}), False)})
SCALAR = TUnion(NoneT, StrT, BoolT, IntT)
OPT_STR = TUnion(NoneT, StrT)
GYP = {'opts': TDict(Any, {k: (SCALAR, False) for k in ('nodedir', 'disturl', 'dist-url', 'force-process-config', 'debug', 'arch', 'thin')}), 'configDefs': TDict(Any)}
PROC = {'arch': StrT, 'platform': StrT, 'config': Any}
VSINFO = TDict(Any, {'sdk': (OPT_STR, False), 'versionMajor': (IntT, True), 'toolset': (StrT, True), 'msBuild': (StrT, True)})
KEY = z3.String('any_key')


def MOD(): return JC.module('lib/create-config-gypi.js', stubs=STUBS, objects=('gyp',))
def sv(s): return V.StrV(T.sv(s))
def got(d, k):
    k = T.sv(k) if isinstance(k, str) else k
    return T.ite(T.dhas(d, k), T.dget(d, k), V.NoneV)


def truth(v): return z3.If(T.tester('StrV', v), T.acc('s', v) != T.sv(''), z3.If(T.tester('IntV', v), T.acc('i', v) != 0, z3.If(T.tester('BoolV', v), T.acc('b', v), z3.Not(T.tester('NoneV', v)))))
def first_true(*vs): return T.ite(truth(vs[0]), vs[0], first_true(*vs[1:])) if len(vs) > 1 else vs[0]
def gyp_(e, n): return T.aselect(e.fld('Gyp', n), e['gyp'])
def proc(e, n): return T.aselect(e.fld('Process', n), e['process'])


def base_config(e):
    """the configuration beside the headers if headers were chosen and it is there, that of the running Node otherwise"""
    o = gyp_(e, 'opts')
    custom = z3.Or(*[truth(got(o, k)) for k in ('nodedir', 'disturl', 'dist-url')])
    p = V.StrV(RESOLVE.f(2)(e['nodeDir'], sv('include/node/config.gypi')))
    t = STRINGOF(FILE(p))
    return T.ite(z3.And(custom, z3.Not(truth(got(o, 'force-process-config'))), truth(e['nodeDir']), READABLE(p), PARSES(t)), PARSED(t), COPY(proc(e, 'config')))


BASE_ = uf('base_config', V, V, V, V)
def BASE(e): return BASE_(gyp_(e, 'opts'), e['nodeDir'], proc(e, 'config'))      # a name for base_config(e)


READ = Contract('readFile', STUBS['fs'].readFile, {'p': Any}, ret=TObj('Buffer'), trusted=True, raises={JC.jsrt.Error: lambda e: z3.Not(READABLE(e['p']))}, ensures=lambda e: {'content': z3.And(e.rv == FILE(e['p']), READABLE(e['p']))})
JPARSE = Contract('JSON.parse', STUBS['JSON'].parse, {'s': StrT}, ret=CONFIG, trusted=True, fresh_result=True, ensures=lambda e: {'value': e.rv == JSONVALUE(e['s'])})
PARSE = lambda: Contract('parseConfigGypi', MOD().fn('parseConfigGypi'), {'config': StrT}, ret=CONFIG, trusted=True, fresh_result=True, raises={JC.jsrt.Error: lambda e: z3.Not(PARSES(e['config']))},
                         ensures=lambda e: {'content': z3.And(e.rv == PARSED(e['config']), PARSES(e['config']))})


def get_base(**k):
    return Contract('getBaseConfigGypi', MOD().fn('getBaseConfigGypi'), {'gyp': TObj('Gyp'), 'nodeDir': OPT_STR}, ret=CONFIG, fresh_result=True, facts=lambda e: [BASE(e) == base_config(e)] if e.st0 is e.eng.entry.st0 else [], ensures=lambda e: {'the-chosen-configuration': e.rv == BASE(e)}, globs=GLOBS, **k)


# the last option that is not a known one and becomes the variable k
LAST = T.Fold('last_option', lambda c, k: V.NoneV, lambda acc, x, p, c, k: T.ite(z3.And(x != sv('argv'), z3.Not(T.dhas(c, T.acc('s', x))), becomes(x) == k), x, acc), V, (V, T.String))
BOXKEYS = uf('boxkeys_', T.SeqS, T.SeqV)          # the names of the options as a list of values
def becomes(x): return JC.REPLACE.f(x, sv('-'), sv('_'), V.BoolV(True))


def upd(d, m): return [d := T.dset(d, T.sv(k), v) for k, v in m.items()][-1]


def expected(e):
    """target_defaults and variables without the options that become variables"""
    b, o, vs = BASE(e), gyp_(e, 'opts'), e['vsInfo']
    def part(k):
        p = got(b, k)
        return V.DictV(T.merge(truth(p), T.acc('keys', p), T.acc('keys', T.EMPTY_DICT)), T.merge(truth(p), T.acc('vals', p), T.acc('vals', T.EMPTY_DICT)))
    d, v = part('target_defaults'), part('variables')
    d = upd(d, {k: V.ListV(T.empty()) for k in ('cflags', 'defines', 'include_dirs', 'libraries')})
    conf = T.ite(T.dhas(o, T.sv('debug')), T.ite(truth(got(o, 'debug')), sv('Debug'), sv('Release')), first_true(got(d, 'default_configuration'), sv('Release')))
    arch = first_true(got(o, 'arch'), proc(e, 'arch'), sv('ia32'))
    arm, win = arch == sv('arm64'), proc(e, 'platform') == sv('win32')
    d = upd(d, {'default_configuration': conf})
    d = T.merge(arm, upd(d, {'msvs_configuration_platform': sv('ARM64'), 'xcode_configuration_platform': sv('arm64')}), d)
    v = upd(v, {'target_arch': arch, 'nodedir': e['nodeDir'], 'python': e['python'], 'standalone_static_library': T.ite(truth(got(o, 'thin')), V.IntV(0), V.IntV(1))})
    w = upd(d, {'msbuild_toolset': got(vs, 'toolset')})
    w = T.merge(truth(got(vs, 'sdk')), upd(w, {'msvs_windows_target_platform_version': got(vs, 'sdk')}), w)
    w = T.merge(z3.And(arm, T.acc('i', got(vs, 'versionMajor')) >= 15), upd(w, {'msvs_enable_marmasm': V.IntV(1)}), w)
    x = upd(v, {'msbuild_path': got(vs, 'msBuild')})
    x = T.merge(got(x, 'clang') == V.IntV(1), upd(x, {'clang': V.IntV(0)}), x)
    return b, T.merge(win, w, d), T.merge(win, x, v)


def same(d, want, k): return z3.And(T.dhas(d, k) == T.dhas(want, k), z3.Implies(T.dhas(want, k), T.dget(d, k) == T.dget(want, k)))


def with_options(e, v, want, keys):
    o, c = gyp_(e, 'opts'), gyp_(e, 'configDefs')
    l = LAST(keys, c, KEY)
    none = T.tester('NoneV', l)
    return z3.And(z3.Implies(none, same(v, want, KEY)), z3.Implies(z3.Not(none), z3.And(T.dhas(v, KEY), T.dget(v, KEY) == got(o, T.acc('s', l)))))


def other(): return z3.And(KEY != T.sv('target_defaults'), KEY != T.sv('variables'))


def current():
    def ens(e):
        b, d, v = expected(e)
        part = lambda k: T.dget(e.rv, T.sv(k))
        return {'target_defaults': z3.And(T.dhas(e.rv, T.sv('target_defaults')), same(part('target_defaults'), d, KEY)),
                'variables': z3.And(T.dhas(e.rv, T.sv('variables')), with_options(e, part('variables'), v, BOXKEYS(T.acc('keys', gyp_(e, 'opts'))))), 'everything-else-from-the-base': z3.Implies(other(), same(e.rv, b, KEY))}

    def cands(lv):
        e, out = lv.eng.entry, {}
        if lv.done is None or lv.done.sort() != T.SeqV: return out
        b, d, v = expected(e)
        for n, x, _ in lv.kinds('dict'):
            out['options:' + n] = with_options(e, x, v, lv.done)
            c = got(x, 'variables')
            out['inside:' + n] = with_options(e, c, v, lv.done)
            out['others:' + n] = z3.Implies(other(), same(x, b, KEY))
            out['defaults:' + n] = same(got(x, 'target_defaults'), d, KEY)
        return out
    return Contract('getCurrentConfigGypi', MOD().fn('getCurrentConfigGypi'), {'gyp': TObj('Gyp'), 'nodeDir': OPT_STR, 'vsInfo': VSINFO, 'python': Any}, ret=TDict(Any), ensures=ens, cands=cands, globs=GLOBS)


GLOBS = {'process': TObj('Process')}
MODELS4 = {STUBS['path'].resolve: RESOLVE, STUBS['JSON'].stringify: JSONTEXT}


class Thing:
    def __init__(self, **k): self.__dict__.update(k)


def defined(v):
    """without undefined and null values, which the extracted text does not tell apart"""
    if isinstance(v, dict): return {k: defined(w) for k, w in v.items() if w is not None}
    return [defined(w) for w in v] if isinstance(v, list) else v


def run_text(x):
    """The extracted text that the contracts are about, run by Python, gives the configuration node gives."""
    opts, b, nodedir, python, arch, headers = x[:6]
    vs = VS[x[6]] if len(x) > 6 else None
    if vs == {}: return None
    with scratch() as d:
        files = {}
        if headers != 'none':
            nodedir = os.path.join(d, 'h')
            files[os.path.join(nodedir, 'include', 'node', 'config.gypi')] = pprint.pformat(SAFE, indent=2) + '\n' if headers == 'good' else '{ broken'
        os.mkdir(os.path.join(d, 'build'))
        try: real = jsrun.call('config', {'opts': opts, 'config': BASES[b], 'nodeDir': nodedir, 'python': python, 'buildDir': os.path.join(d, 'build'), 'vsInfo': vs, 'files': files, 'arch': arch}, platform='win32' if vs is not None else '')['got']
        except jsrun.JSError: return None
        ns = MOD().ns

        def read(p): return open(p).read()
        keep = {k: ns.get(k) for k in ('path', 'process', 'JSON', 'fs')}
        ns.update(path=Thing(resolve=os.path.join), fs=Thing(readFile=read), JSON=Thing(parse=json.loads, stringify=json.dumps),
                  process=Thing(arch=arch, platform='win32' if vs is not None else 'linux', config=copy.deepcopy(BASES[b])))
        try: mine = ns['getCurrentConfigGypi'](gyp=Thing(opts=opts, configDefs=dict.fromkeys(KNOWN)), nodeDir=nodedir, vsInfo=vs, python=python)
        finally: ns.update(keep)
    if defined(mine) != defined(real): return 'options %r: %s' % (opts, where(defined(mine), defined(real)))


def contracts():
    b, c = get_base(), current()
    mk = engine([READ, JPARSE, PARSE(), b, c], {'Gyp': GYP, 'Process': PROC, 'Buffer': {}}, models=MODELS4, merge=True)
    return [(x, mk) for x in (b, c)] + [(JC.Faithful('create-config-gypi.js as extracted', cases, run_text), mk)]



META = dict(level='proof', technique='contracts on the text extracted mechanically from lib/create-config-gypi.js: which base configuration is used (getBaseConfigGypi); target_defaults, variables and everything else of the result, for every option set and '
                                     'base configuration (getCurrentConfigGypi; the options that become variables as a fold); a bounded check of the written file as read by gyp, as JSON and by the build step',
            note='assumed: the text extracted from JavaScript means what node does (compared on inputs each run); String.replace, path.resolve, JSON.stringify are functions of their arguments; vsInfo has the fields J06 gives it; a base configuration has '
                 'dictionaries for target_defaults and variables or none; parseConfigGypi and createConfigGypi (how the text is read and written) are bounded only')
