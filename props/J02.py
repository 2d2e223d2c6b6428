"""J02 Download locations follow version, mirror and release information."""
import os, re, copy, posixpath
from urllib.parse import urljoin, urlparse
from vlib.base import *
setup_path()
from vlib import jsrun
import z3
from vlib.jsc import *
from vlib import jsc as JC

SEMVER = re.compile(r'^\s*v?(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(?:-([0-9A-Za-z-]+(?:\.[0-9A-Za-z-]+)*))?(?:\+[0-9A-Za-z.-]+)?\s*$')
VERSIONS = ['0.8.0', 'v0.10.42', '0.10.41', '0.12.9', 'v0.12.10', '1.0.0', 'v1.8.4', '2.5.0', '3.0.0', 'v3.3.1', '4.0.0', 'v4.1.23', '5.0.0-rc.1', '6.1.2', '10.0.0-nightly2018', 'v12.22.12',
            '18.0.0', 'v22.22.2', '0.11.13-pre', '=8.1.0', ' 9.0.0 ', '20.1.0+build5', 'v11.0.0-pre.2']
BAD = ['', 'foo', '1.2', 'v4', '1.2.3.4', 'latest', '01.2.3', '--x', 'node', '1.2.x']
MIRRORS = ['https://m.example/dist', 'https://m.example/dist/', 'http://127.0.0.1:8080', 'https://m.example/a/b///', 'https://npm.mirror/-/binary/node', 'https://electronjs.org/headers', 'http://h/x-y_z']
PROCESS = ['v22.22.2', 'v4.1.23', 'v3.2.1', 'v0.12.7', 'v0.10.40', 'v6.0.0', 'v12.0.0-nightly5']


def releases(v):
    n = v.lstrip('v')
    yield None
    yield {'name': 'node'}
    yield {'name': 'node', 'headersUrl': 'https://nodejs.org/download/release/%s/node-%s-headers.tar.gz' % (v, v)}
    yield {'name': 'node', 'headersUrl': 'https://nodejs.org/dist/%s/node-%s-headers.tar.gz' % (v, v), 'libUrl': 'https://nodejs.org/dist/%s/win-x64/node.lib' % v}
    yield {'name': 'node', 'headersUrl': 'https://x.example/download/rc/%s/node-%s.tar.gz' % (v, v), 'libUrl': 'https://x.example/download/rc/%s/win-x86/node.lib' % v}
    yield {'name': 'io.js', 'headersUrl': 'https://iojs.org/download/release/%s/iojs-%s-headers.tar.gz' % (v, v), 'libUrl': 'https://iojs.org/download/release/%s/win-ia32/iojs.lib' % v}
    yield {'name': 'node', 'headersUrl': 'https://x.example/h/%s/node-%s-headers.tar.gz' % (v, v), 'libUrl': 'https://x.example/h/%s/win-arm64/node.lib' % v}
    yield {'name': 'io.js', 'headersUrl': 'https://iojs.org/d/%s/iojs-%s.tar.gz' % (v, v), 'libUrl': 'https://iojs.org/d/%s/' % v}
    yield {'name': 'node', 'libUrl': 'https://nodejs.org/dist/%s/win-x64/node.lib' % v}


def parse(v):
    m = SEMVER.match(v) if isinstance(v, str) else None
    if not m: return None
    return (int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4), '.'.join(m.group(1, 2, 3)) + ('-' + m.group(4) if m.group(4) else ''))


def headers_tarball(s):
    a, b, c, pre, _ = s
    if pre: return False
    return a >= 3 or (a, b) == (0, 12) and c >= 10 or (a, b) == (0, 10) and c >= 42


def lib(name, default, arch, major):
    base = urljoin(default, './')
    pats = [r'/win-(?:x86|x64|arm64)/'] + ([r'/win-(?:x86|ia32|x64)/'] if major == 3 else [])
    if not any(re.search(p, default) for p in pats):
        d = 'win-%s/' % arch if major >= 1 else ('' if arch == 'x86' else arch + '/')
        return urljoin(base, d + name + '.lib')
    return re.sub(pats[-1], '/win-%s/' % arch, default, count=1)


def reference(argv, opts, default, release, env):
    version = argv[0] if argv and parse(argv[0]) else opts.get('target') or default
    s = parse(version)
    if s is None: return {'version': version}
    flat = s[4]
    if flat != parse(default)[4]: release = None
    name = release['name'].replace('io.js', 'iojs', 1) if release else ('iojs' if 1 <= s[0] < 4 else 'node')
    mirror = opts.get('dist-url') or opts.get('disturl') or env.get('NODEJS_ORG_MIRROR')
    dist = (mirror.rstrip('/') if mirror else 'https://nodejs.org/dist') + '/v' + flat + '/'
    if release and release.get('headersUrl') and not mirror:
        base = urljoin(release['headersUrl'], './')
        src, tar = release.get('libUrl') or base, release['headersUrl']
    else:
        base = src = dist
        tar = base + name + '-v' + flat + ('-headers' if headers_tarball(s) else '') + '.tar.gz'
    r = {'version': flat, 'semver': flat, 'name': name, 'baseUrl': base, 'tarballUrl': tar, 'shasumsUrl': urljoin(base, 'SHASUMS256.txt'),
         'versionDir': ('' if name == 'node' else name + '-') + flat}
    for k, a in (('ia32', 'x86'), ('x64', 'x64'), ('arm64', 'arm64')):
        u = lib(name, src, a, s[0])
        r[k] = {'libUrl': u, 'libPath': posixpath.relpath(urlparse(u).path, urlparse(base).path)}
    return r


def cases(tier, rng):
    for d in PROCESS:
        for rel in releases(d):
            yield ([], {}, d, rel, {})
            yield ([], {'dist-url': MIRRORS[1]}, d, rel, {})
            yield ([], {}, d, rel, {'NODEJS_ORG_MIRROR': MIRRORS[0]})
            yield ([d], {'target': '4.0.0'}, d, rel, {})
            yield ([], {'target': d}, d, rel, {})
            yield ([], {'target': '3.1.0'}, d, rel, {})
            for near in (d.split('-')[0], d.split('-')[0] + '-rc.1', d + '+b1', d + '.1' if '-' in d else d + '-0', d.replace('v', '')):
                yield ([], {'target': near}, d, rel, {})
                yield ([near], {'target': '4.0.0'}, d, rel, {})
    for v in VERSIONS + BAD:
        yield ([v], {}, PROCESS[0], None, {})
        yield ([v, '5.5.5'], {'target': '7.0.0'}, PROCESS[0], {'name': 'node'}, {})
        yield ([], {'target': v}, PROCESS[0], None, {})
        for m in MIRRORS[:3]: yield ([v], {'disturl': m}, PROCESS[0], None, {'NODEJS_ORG_MIRROR': MIRRORS[4]})
    while True:
        d = rng.choice(PROCESS + ['v%d.%d.%d' % (rng.choice([0, 1, 2, 3, 4, 8, 16, 30]), rng.randrange(20), rng.randrange(50))])
        rnd = '%d.%d.%d' % (rng.choice([0, 0, 1, 2, 3, 4, 9, 21]), rng.choice([8, 9, 10, 11, 12, 13, 0]), rng.choice([0, 9, 10, 11, 41, 42, 43]))
        argv = [rng.choice(VERSIONS + BAD + [rnd, rnd])] if rng.random() < .5 else []
        if argv and rng.random() < .3: argv.append(rng.choice(VERSIONS))
        opts, env = {}, {}
        if rng.random() < .4: opts['target'] = rng.choice(VERSIONS + BAD + [rnd, d, d + '-rc.2', d.split('-')[0]])
        if rng.random() < .25: opts['dist-url'] = rng.choice(MIRRORS + [''])
        if rng.random() < .25: opts['disturl'] = rng.choice(MIRRORS)
        if rng.random() < .25: env['NODEJS_ORG_MIRROR'] = rng.choice(MIRRORS)
        if rng.random() < .1: env['npm_config_disturl'] = 'https://other/'
        yield (argv, opts, d, rng.choice(list(releases(d))), env)


def run(x):
    argv, opts, default, release, env = x
    try: got = jsrun.call('release', {'argv': argv, 'opts': opts, 'version': default, 'release': release, 'env': env})
    except jsrun.JSError as ex: return 'processRelease%r failed: %s' % (x, str(ex)[:200])
    want = reference(*x)
    if got != want:
        return 'processRelease%r\n%s' % (x, '\n'.join('%s is %r, expected %r' % (k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)))


def bounded():
    return [Bounded('locations', cases, run, '7 running versions x 9 release descriptions x the ways of choosing a version and mirror; random combinations of versions (numbers up to 50, prereleases, build data, malformed), 7 mirrors, options and environment',
                    budget=(20, 200))]


# ------------------------------------------------------------------ contracts on the extracted text (pyvc/js.py)
STUBS = {'path': JC.Stub(normalize=lambda p: None, relative=lambda a, b: None), 'process': JC.Stub(), 'semver': JC.Stub(valid=lambda s: None, parse=lambda s: None, satisfies=lambda s, r: None),
         'url': JC.Stub(resolve=lambda a, b: None, parse=lambda s: None)}
OPT_STR = TUnion(NoneT, StrT)
VERSION = TDict(Any, {'version': (StrT, True), 'major': (IntT, True)})
RELEASE = TDict(Any, {'name': (StrT, True), 'headersUrl': (OPT_STR, False), 'libUrl': (OPT_STR, False)})
GYP = {'opts': TDict(Any, {k: (OPT_STR, False) for k in ('target', 'dist-url', 'disturl')})}
PROC = {'env': TDict(StrT, {'NODEJS_ORG_MIRROR': (OPT_STR, False)})}
GLOBS = {'process': TObj('Process')}
VALID, SATISFIES = any_bool('semver.valid', 1), any_bool('semver.satisfies', 2)
PARSED, PARSES = uf('semver_parse', V, V), uf('semver_parses', V, z3.BoolSort())
URLRESOLVE, NORMALIZE, RELATIVE = any_str('url.resolve', 2), any_str('path.normalize', 1), any_str('path.relative', 2)
URLPATH = uf('url_path', V, V)


def MOD(): return JC.module('lib/process-release.js', stubs=STUBS, objects=('gyp',))
def sv(s): return V.StrV(T.sv(s))
def got(d, k): return T.ite(T.dhas(d, T.sv(k)), T.dget(d, T.sv(k)), V.NoneV)
def truth(v): return z3.And(T.tester('StrV', v), T.acc('s', v) != T.sv(''))          # of a text or undefined
def first_true(*vs): return T.ite(truth(vs[0]), vs[0], first_true(*vs[1:])) if len(vs) > 1 else vs[0]
def opt(e, k): return got(T.aselect(e.fld('Gyp', 'opts'), e['gyp']), k)
def st(v): return T.acc('s', v)
def cat(*xs): return z3.Concat(*[T.sv(x) if isinstance(x, str) else x for x in xs])
def replaced(s, pattern, by, every=False): return JC.REPLACE.f(s, sv(pattern), by if not isinstance(by, str) else sv(by), V.BoolV(z3.BoolVal(every)))
def resolve(a, b): return URLRESOLVE.f(a, b if not isinstance(b, str) else sv(b))


def valid_model(eng, st_, args, kw, node):
    """the text itself in some form, or null"""
    out = []
    for s, [v] in JC.forced(eng, st_, args):
        if isinstance(v, Py) and v.o is None: out.append((s, v))
        else: out += [(s2, v if ok else Py(None)) for s2, ok in eng.branch(s, mk_bool(z3.And(VALID.f(eng.box(s, v)), T.acc('s', eng.box(s, v)) != T.sv(''))))]
    return out


def parse_contract():
    return Contract('semver.parse', STUBS['semver'].parse, {'s': Any}, ret=TUnion(NoneT, VERSION), trusted=True, fresh_result=True,
                    ensures=lambda e: {'parsed': e.rv == T.ite(PARSES(e['s']), PARSED(e['s']), V.NoneV), 'an-object': z3.Implies(PARSES(e['s']), T.tester('DictV', PARSED(e['s'])))})


# ---- resolveLibUrl
BITS, BITS3 = r'/win-(x86|x64|arm64)/', r'/win-(x86|ia32|x64)/'
TEST = JC.MODELS[JC.jsrt.re_test].f


def lib_url(name, default, arch, major):
    """the library for the architecture, in the directory the location given names, or at its own location with the architecture replaced"""
    base, v3 = V.StrV(resolve(default, './')), major == 3
    has = z3.Or(TEST(sv(BITS), default), z3.And(v3, TEST(sv(BITS3), default)))
    file = cat(st(name), '.lib')
    win = V.StrV(cat('win-', st(arch), '/', st(name), '.lib'))
    old = V.StrV(z3.Concat(T.ite(arch == sv('x86'), T.sv(''), cat(st(arch), '/')), st(name), T.sv('.lib')))
    new = V.StrV(cat('/win-', st(arch), '/'))
    return T.ite(has, T.ite(v3, replaced(default, BITS3, new), replaced(default, BITS, new)), T.ite(major >= 1, resolve(base, win), resolve(base, old)))


def resolve_lib():
    return Contract('resolveLibUrl', MOD().fn('resolveLibUrl'), {'name': StrT, 'defaultUrl': StrT, 'arch': StrT, 'versionMajor': IntT}, ret=StrT,
                    ensures=lambda e: {'the-library-of-the-architecture': e.rv == V.StrV(lib_url(*[V.StrV(e[n]) for n in ('name', 'defaultUrl', 'arch')], e['versionMajor']))})


def normalize():
    return Contract('normalizePath', MOD().fn('normalizePath'), {'p': StrT}, ret=StrT, ensures=lambda e: {'forward-slashes': e.rv == V.StrV(replaced(V.StrV(NORMALIZE.f(V.StrV(e['p']))), '\\\\', '/', True))})


# ---- processRelease
def process_ens(e):
    argv0 = T.ite(T.length(e['argv']) > 0, e['argv'][0], V.NoneV)
    ok0 = z3.And(T.length(e['argv']) > 0, VALID.f(argv0), truth(argv0))
    chosen = T.ite(ok0, argv0, first_true(opt(e, 'target'), V.StrV(e['defaultVersion'])))
    good, p = PARSES(chosen), PARSED(chosen)
    v, major = T.dget(p, T.sv('version')), T.acc('i', T.dget(p, T.sv('major')))
    running = v == T.dget(PARSED(V.StrV(e['defaultVersion'])), T.sv('version'))
    rel = e['defaultRelease']
    r = lambda k: T.ite(z3.And(running, z3.Not(T.tester('NoneV', rel))), got(rel, k), V.NoneV)
    described = z3.And(running, z3.Not(T.tester('NoneV', rel)))
    name = V.StrV(T.ite(described, replaced(r('name'), r'io\.js', 'iojs'), T.ite(z3.And(major >= 1, major < 4), T.sv('iojs'), T.sv('node'))))
    env = T.aselect(e.fld('Process', 'env'), e['process'])
    mirror = first_true(opt(e, 'dist-url'), opt(e, 'disturl'), got(env, 'NODEJS_ORG_MIRROR'), V.NoneV)
    own = truth(mirror)
    dist = V.StrV(cat(T.ite(own, replaced(mirror, r'/+\Z', ''), T.sv('https://nodejs.org/dist')), '/v', st(v), '/'))
    theirs = z3.And(described, truth(r('headersUrl')), z3.Not(own))
    base = T.ite(theirs, V.StrV(resolve(r('headersUrl'), './')), dist)
    libs = T.ite(theirs, first_true(r('libUrl'), base, dist), base)
    headers = T.ite(SATISFIES.f(p, sv('>= 3.0.0 || ~0.12.10 || ~0.10.42')), T.sv('-headers'), T.sv(''))
    tar = T.ite(theirs, r('headersUrl'), V.StrV(resolve(dist, V.StrV(cat(st(name), '-v', st(v), headers, '.tar.gz')))))
    g = lambda k: got(e.rv, k)
    out = {'only-the-version-if-it-is-none': z3.Implies(z3.Not(good), e.rv == T.dset(T.EMPTY_DICT, T.sv('version'), chosen))}
    for k, want in (('version', v), ('semver', p), ('name', name), ('baseUrl', base), ('tarballUrl', tar), ('shasumsUrl', V.StrV(resolve(base, 'SHASUMS256.txt'))),
                    ('versionDir', V.StrV(z3.Concat(T.ite(name == sv('node'), T.sv(''), cat(st(name), '-')), st(v))))):
        out[k] = z3.Implies(good, g(k) == want)
    for k, a in (('ia32', 'x86'), ('x64', 'x64'), ('arm64', 'arm64')):
        u = V.StrV(lib_url(name, libs, sv(a), major))
        path = V.StrV(replaced(V.StrV(NORMALIZE.f(V.StrV(RELATIVE.f(URLPATH(base), URLPATH(u))))), '\\\\', '/', True))
        out['library-' + k] = z3.Implies(good, got(g(k), 'libUrl') == u)
        out['checksum-key-' + k] = z3.Implies(good, got(g(k), 'libPath') == path)
    return out


def url_model(eng, st_, args, kw, node):
    eng.assumed.add('url.parse is a function of its argument')
    out = []
    for s, [v] in JC.forced(eng, st_, args):
        d = T.dset(T.EMPTY_DICT, T.sv('path'), URLPATH(eng.box(s, v)))
        s = s.assume(z3.Or(T.tester('StrV', URLPATH(eng.box(s, v))), T.tester('NoneV', URLPATH(eng.box(s, v)))))
        s, loc = eng.new_root(s, 'url', d, TDict(Any, {'path': (OPT_STR, True)}))
        out.append((s, loc))
    return out


def process():
    return Contract('processRelease', MOD().fn('processRelease'), {'argv': TList(StrT), 'gyp': TObj('Gyp'), 'defaultVersion': StrT, 'defaultRelease': TUnion(NoneT, RELEASE)}, ret=TDict(Any), ensures=process_ens, globs=GLOBS,
                    requires=lambda e: [PARSES(V.StrV(e['defaultVersion']))])


class Thing:
    def __init__(self, **k): self.__dict__.update(k)


def satisfies(v, r):
    assert r == '>= 3.0.0 || ~0.12.10 || ~0.10.42'
    return headers_tarball(v['it'])


def run_text(x):
    """The extracted text that the contracts are about, run by Python, gives what node gives."""
    argv, opts, default, release, env = x
    try: real = jsrun.call('release', {'argv': argv, 'opts': opts, 'version': default, 'release': release, 'env': env})
    except jsrun.JSError: return None
    parsed = lambda v: (lambda p: {'version': p[4], 'major': p[0], 'it': p} if p else None)(parse(v))
    ns = MOD().ns
    keep = {k: ns.get(k) for k in STUBS}
    ns.update(path=Thing(normalize=posixpath.normpath, relative=lambda a, b: posixpath.relpath(b, a)), process=Thing(env=env), semver=Thing(valid=lambda v: parse(v) and v, parse=parsed, satisfies=satisfies),
              url=Thing(resolve=urljoin, parse=lambda u: {'path': urlparse(u).path}))
    try: mine = ns['processRelease'](list(argv), Thing(opts=dict(opts)), default, copy.deepcopy(release))
    finally: ns.update(keep)
    if mine.get('semver'): mine['semver'] = mine['semver']['version']
    if mine != real: return 'processRelease%r: %r, node %r' % (x, mine, real)


def contracts():
    cs = [resolve_lib(), normalize(), process()]
    s = STUBS
    mk = engine(cs + [parse_contract()], {'Gyp': GYP, 'Process': PROC}, merge=True,
                models={s['path'].normalize: NORMALIZE, s['path'].relative: RELATIVE, s['url'].resolve: URLRESOLVE, s['url'].parse: url_model, s['semver'].valid: valid_model, s['semver'].satisfies: SATISFIES})
    return [(c, mk) for c in cs] + [(JC.Faithful('process-release.js as extracted', cases, run_text), mk)]


META = dict(level='proof', technique='contracts on the text extracted mechanically from lib/process-release.js: every field of the result of processRelease - version, base location, archive, checksum file, directory, and for each architecture the library and '
                                     'its name in the checksum file - for every command line, option set, environment, running version and release description, from the library location (resolveLibUrl) and the path form (normalizePath); a bounded check of the '
                                     'function in node against an independent reference',
            note='assumed: the text extracted from JavaScript means what node does (compared on inputs each run); semver.valid/parse/satisfies, url.resolve/parse, path.normalize/relative and String.replace with a given pattern are functions of their arguments '
                 '(which versions have a headers archive, and how a location is resolved against another, is bounded only); the running version is a valid version; a release description has a name')
