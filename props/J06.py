"""J06 The Visual Studio chosen is usable and matches what was requested."""
import json, ntpath, re, copy
from vlib.base import *
setup_path()
from vlib import jsrun
from pyvc.contract import *
from pyvc.types import *
from pyvc import terms as T
from vlib.jsc import *
from vlib import jsc as JC
import z3

MSB = 'Microsoft.VisualStudio.VC.MSBuild.Base'
X64 = 'Microsoft.VisualStudio.Component.VC.Tools.x86.x64'
A64 = 'Microsoft.VisualStudio.Component.VC.Tools.ARM64'
EXP = 'Microsoft.VisualStudio.WDExpress'
S10 = 'Microsoft.VisualStudio.Component.Windows10SDK.'
S11 = 'Microsoft.VisualStudio.Component.Windows11SDK.'
S81 = 'Microsoft.VisualStudio.Component.Windows81SDK'
PK = [MSB, X64, A64, EXP, S10 + '17763', S10 + '10240', S10 + '15063.Desktop', S10 + '16299.UWP', S10 + 'IpOverUsb', S11 + '22000', S11 + '22621', S81, 'Other.Package', S10 + '18362.Desktop',
      'Microsoft.VisualStudio.Component.Windows10SDKx', S10 + '19041.Desktop.More', S10 + '9600']
YEARS = {15: 2017, 16: 2019, 17: 2022}
TOOLSET = {2017: 'v141', 2019: 'v142', 2022: 'v143'}
VERSIONS = ['15.9.28307.665', '15.0.1', '16.11.0.1', '16.0.28729.10', '17.4.33213.308', '17.0', '14.0.2', '18.1.0', 'junk', '17', '16.x', '1.15.9', '']
PATHS = ['C:\\VS\\2017\\BuildTools', 'C:\\VS\\2019\\Community', 'C:\\VS\\2022\\Pro', 'D:\\other vs']
VC7 = ['HKLM\\Software\\Microsoft\\VisualStudio\\SxS\\VC7', 'HKLM\\Software\\Wow6432Node\\Microsoft\\VisualStudio\\SxS\\VC7']
MSK = 'HKLM\\Software\\Microsoft\\MSBuild\\ToolsVersions\\'


def sdk(pk):
    best = 0
    for p in pk:
        for pre in (S10, S11):
            if p.startswith(pre):
                rest = p[len(pre):].split('.')
                if len(rest) > 1 and rest[1] != 'Desktop': continue
                m = re.match(r'\d+', rest[0])
                if m: best = max(best, int(m.group()))
    return '10.0.%d.0' % best if best else '8.1' if S81 in pk else None


def describe(i, arch, exists):
    """What an installation offers, or None when it is not usable."""
    m = re.match(r'(\d+)\.(\d+)(\..*)?', i['version'] or '')
    year = YEARS.get(int(m.group(1))) if m else None
    if year is None: return None
    pk, p = i['packages'], i['path']
    cur, cur64 = ntpath.join(p, 'MSBuild', 'Current', 'Bin', 'MSBuild.exe'), ntpath.join(p, 'MSBuild', 'Current', 'Bin', 'arm64', 'MSBuild.exe')
    native = arch == 'arm64' and cur64 in exists
    if MSB in pk and year == 2017: ms = ntpath.join(p, 'MSBuild', '15.0', 'Bin', 'MSBuild.exe')
    elif native: ms = cur64
    elif MSB in pk and year == 2019 or cur in exists: ms = cur
    else: ms = None
    ts = TOOLSET[year] if arch == 'arm64' and A64 in pk or X64 in pk or EXP in pk else None
    s = sdk(pk)
    if not (ms and ts and s): return None
    return {'version': i['version'], 'versionMajor': int(m.group(1)), 'versionMinor': int(m.group(2)), 'versionYear': year, 'path': p, 'msBuild': ms, 'toolset': ts, 'sdk': s}


def same(a, b): return ntpath.normpath(a).lower() == ntpath.normpath(b).lower()


def reference(major, msvs, env, ps, registry, exists, arch):
    vc = ntpath.normpath(ntpath.join(env['VCINSTALLDIR'], '..')) if env.get('VCINSTALLDIR') else None
    year = int(msvs) if msvs and re.fullmatch(r'\d{4}', msvs) else None

    def wanted(y, p):
        return (year is None or y == year) and (not msvs or year is not None or same(msvs, p)) and (vc is None or same(vc, p))

    def pick(infos, years):
        us = [d for d in (describe(dict(i, path=ntpath.normpath(i['path'])), arch, exists) for i in infos) if d and d['versionYear'] in years]
        us = [d for _, d in sorted(enumerate(us), key=lambda t: (-t[1]['versionYear'], t[0]))]
        return next((d for d in us if wanted(d['versionYear'], d['path'])), None)

    def location(years):
        if vc is None: return None
        pk = [X64, A64, MSB]
        m = re.match(r'(\d+)\.(\d+)\.(\d+)\.', env.get('WindowsSDKVersion') or '')
        if m: pk.append(S10 + m.group(3) + '.Desktop')
        return pick([{'path': vc, 'version': env.get('VSCMD_VER'), 'packages': pk}], years)

    def setup(years):
        if ps.get('module') is None or ps['module'].get('err') or ps.get('setup') is None or ps['setup'].get('err') or 'data' not in ps['setup']: return None
        data = [i for i in ps['setup']['data'] if vc is None or i['InstallationPath'].lower() == vc.lower()]
        if not data: return None
        return pick([{'path': i['InstallationPath'], 'version': '%(Major)s.%(Minor)s.%(Build)s.%(Revision)s' % i['InstallationVersion'], 'packages': [p['Id'] for p in i['Packages']]} for i in data], years)

    def script(years):
        s = ps.get('script')
        if s is None or s.get('err') or not isinstance(s.get('data'), list): return None
        return pick(s['data'], years)

    for years in ((2019, 2022), (2017,)):
        if years == (2017,) and major >= 22: continue
        for f in (location, setup, script):
            r = f(years)
            if r: return r
    for limit, ver, y, ts in ((19, '14.0', 2015, 'v140'), (9, '12.0', 2013, 'v120')):
        if major >= limit: continue
        v = next((registry[k][ver] for k in VC7 if ver in registry.get(k, {})), None)
        m = registry.get(MSK + ver, {}).get('MSBuildToolsPath')
        if v is None or m is None: continue
        p = ntpath.normpath(ntpath.join(v, '..'))
        if wanted(y, p): return {'version': ver, 'versionMajor': int(ver[:2]), 'versionMinor': 0, 'versionYear': y, 'toolset': ts, 'path': p, 'msBuild': ntpath.join(m, 'MSBuild.exe'), 'sdk': None}
    return None


GOODPK = [MSB, X64, S10 + '17763']
REG = {VC7[1]: {'14.0': 'C:\\VS14\\VC\\', '12.0': 'C:\\VS12\\VC\\'}, MSK + '14.0': {'MSBuildToolsPath': 'C:\\MSB\\14.0\\bin\\'}, MSK + '12.0': {'MSBuildToolsPath': 'C:\\MSB\\12.0\\bin\\'}}


def cur(p): return ntpath.join(p, 'MSBuild', 'Current', 'Bin', 'MSBuild.exe')
def cur64(p): return ntpath.join(p, 'MSBuild', 'Current', 'Bin', 'arm64', 'MSBuild.exe')


def one(v, p, pk): return {'path': p, 'version': v, 'packages': list(pk)}


def conv(i):
    """the same installation as VSSetup reports it"""
    n = (re.findall(r'\d+', i['version']) + ['0'] * 4)[:4]
    return {'InstallationPath': i['path'], 'InstallationVersion': dict(zip(['Major', 'Minor', 'Build', 'Revision'], map(int, n))), 'Packages': [{'Id': p} for p in i['packages']]}


def cases(tier, rng):
    for v in VERSIONS:
        for major in (8, 18, 21, 22): yield (major, None, {}, {'script': {'data': [one(v, PATHS[0], GOODPK)]}}, {}, [], 'x64')
        yield (20, None, {}, {'script': {'data': [one(v, PATHS[2], [X64, S11 + '22000'])]}}, {}, [cur(PATHS[2])], 'x64')
        for m in ('2017', '2019', '2022', '2015', PATHS[1], PATHS[1].lower() + '\\', '17'): yield (20, m, {}, {'script': {'data': [one(v, PATHS[1], GOODPK)]}}, REG, [cur(PATHS[1])], 'x64')
    for drop in GOODPK:
        for v in VERSIONS[:6]:
            for arch in ('x64', 'arm64'):
                for ex in ([], [cur(PATHS[0])], [cur64(PATHS[0])]):
                    yield (20, None, {}, {'script': {'data': [one(v, PATHS[0], [p for p in GOODPK if p != drop])]}}, {}, ex, arch)
    for pk in PK:
        for v in VERSIONS[:5]: yield (20, None, {}, {'script': {'data': [one(v, PATHS[0], [MSB, X64, pk])]}}, {}, [cur(PATHS[0])], 'x64')
        yield (20, None, {}, {'script': {'data': [one(VERSIONS[2], PATHS[0], [MSB, pk, S81])]}}, {}, [], 'arm64')
    for m in range(6, 26):
        for msvs in (None, '2015', '2013', 'C:\\VS14', '2017'):
            yield (m, msvs, {}, {}, REG, [], 'x64')
            yield (m, msvs, {}, {'script': {'data': [one(VERSIONS[0], PATHS[0], GOODPK)]}}, REG, [], 'ia32')
    # every order of three installations
    import itertools
    three = [one(VERSIONS[0], PATHS[0], GOODPK), one(VERSIONS[2], PATHS[1], GOODPK), one(VERSIONS[4], PATHS[2], GOODPK)]
    for perm in itertools.permutations(three):
        for msvs in (None, '2017', '2019', '2022', PATHS[0]):
            yield (20, msvs, {}, {'script': {'data': list(perm)}}, REG, [cur(PATHS[2])], 'x64')
            yield (22, msvs, {}, {'module': {'out': '2.2'}, 'setup': {'data': [conv(i) for i in perm]}}, REG, [cur(PATHS[2])], 'x64')
    while True:
        def inst():
            p = rng.choice(PATHS + ['C:\\VS14'])
            pk = rng.sample(PK, rng.randrange(0, 7)) if rng.random() < .5 else GOODPK + rng.sample(PK, rng.randrange(3))
            return one(rng.choice(VERSIONS if rng.random() < .3 else VERSIONS[:6]), p + rng.choice(['', '', '\\', '\\x\\..']), pk)
        ps = {}
        if rng.random() < .8: ps['script'] = {'data': [inst() for _ in range(rng.randrange(5))]} if rng.random() < .85 else rng.choice([{'err': 1}, {'out': 'not json'}, {'data': {'path': 'x'}}, {'data': 'text'}])
        if rng.random() < .5:
            ps['module'] = rng.choice([{'out': '2.2.16'}, {'out': '2.2.16'}, {'err': 1}])
            ps['setup'] = {'data': [conv(i) for i in (inst() for _ in range(rng.randrange(4)))]} if rng.random() < .9 else {'err': 1}
        reg = {}
        for k, v in REG.items():
            if rng.random() < .7: reg[k] = {a: b for a, b in v.items() if rng.random() < .8}
        env = {'SystemRoot': 'C:\\Windows'}
        if rng.random() < .3:
            env['VCINSTALLDIR'] = rng.choice(PATHS + ['C:\\VS14']) + '\\VC'
            if rng.random() < .8: env['VSCMD_VER'] = rng.choice(VERSIONS)
            if rng.random() < .7: env['WindowsSDKVersion'] = rng.choice(['10.0.19041.0\\', '10.0.17763.0', '8.1\\', 'x', '10.0.1\\'])
        p = [rng.choice(PATHS) for _ in range(3)]
        yield (rng.choice([6, 8, 9, 16, 18, 19, 20, 21, 22, 24]), rng.choice([None, None, '', '2017', '2019', '2022', '2015', '2013', '2012', 'auto'] + PATHS + ['C:\\VS14', 'c:\\vs14\\']), env, ps, reg,
               [f(q) for f, q in zip((cur, cur64, cur), p) if rng.random() < .6], rng.choice(['x64', 'x64', 'arm64', 'ia32']))


def run(x):
    major, msvs, env, ps, registry, exists, arch = x
    env = dict({'SystemRoot': 'C:\\Windows'}, **env)
    want = reference(major, msvs, env, ps, registry, set(exists), arch)
    try: got = jsrun.call('vs', {'major': major, 'msvs': msvs, 'env': env, 'ps': ps, 'registry': registry, 'exists': exists, 'arch': arch})
    except jsrun.JSError as ex: return 'the finder failed: ' + str(ex)[:200]
    if 'raise' in got:
        if not got['isError']: return 'something that is no Error was thrown: %r' % got
        return None if want is None else '%r\nraised %r, expected %r' % (x, got['raise'], want)
    g = got['ok']
    if not isinstance(g, dict): return '%r\nchose %r, expected %r' % (x, g, want)
    g = {k: g.get(k) for k in ('version', 'versionMajor', 'versionMinor', 'versionYear', 'path', 'msBuild', 'toolset', 'sdk')}
    return None if g == want else '%r\nchose %r\nexpected %s' % (x, g, want or 'an error')


class Thing:
    js_module = True

    def __init__(self, **k): self.__dict__.update(k)


def run_text(x):
    """The extracted text that the contracts are about, run by Python, finds what the program finds."""
    major, msvs, env, ps, registry, exists, arch = x
    env = dict({'SystemRoot': 'C:\\Windows'}, **env)
    try: real = jsrun.call('vs', {'major': major, 'msvs': msvs, 'env': env, 'ps': ps, 'registry': registry, 'exists': exists, 'arch': arch})
    except jsrun.JSError: return None
    ns = MOD().ns

    def some(p):
        if not isinstance(p, str): raise TypeError('path')
        return p
    path = Thing(join=lambda *a: ntpath.normpath(ntpath.join(*map(some, a))), resolve=lambda *a: ntpath.normpath(ntpath.join(*map(some, a))), relative=lambda a, b: '' if same(a, b) else 'x')
    f = ns['VisualStudioFinder']()
    f.__dict__.update(nodeSemver={'major': major}, configMsvsVersion=msvs, errorLog=[], validVersions=[], envVcInstallDir=None, msBuildPathExists=lambda p: p in exists)

    def reg(keys, value, opts):
        for k in keys:
            if value in registry.get(k, {}): return registry[k][value]

    def execute(exe, args):
        cmd = args[-1]
        which = 'module' if 'Get-Module' in cmd else 'setup' if 'Get-VSSetupInstance' in cmd else 'script'
        r = ps.get(which)
        if which == 'setup' and r and 'data' in r:
            m = re.search("InstallationPath -eq '([^']*)'", cmd)
            d = [i for i in r['data'] if not m or i['InstallationPath'].lower() == m.group(1).lower()]
            return [None, '' if not d else json.dumps(d[0] if len(d) == 1 else d), '']
        if not r: return ['Error: spawn failed', '', '']
        if r.get('err'): return ['Error: failed', r.get('out', ''), '']
        return [None, r['out'] if 'out' in r else json.dumps(r['data']), '']
    f.regSearchKeys, f.execFile = reg, execute
    keep = {k: ns.get(k) for k in ('path', 'process', 'JSON', 'existsSync')}
    ns.update(path=path, process=Thing(env=env, arch=arch), JSON=Thing(parse=json.loads), existsSync=lambda p: p in exists)
    try: got = {'ok': f.findVisualStudio()}
    except Exception as ex: got = {'raise': str(ex), 'error': type(ex).__name__}
    finally: ns.update(keep)
    k = ('version', 'versionMajor', 'versionMinor', 'versionYear', 'path', 'msBuild', 'toolset', 'sdk')
    if 'raise' in real: return None if 'raise' in got else 'chose %r, node raised %r' % (got, real['raise'])
    if 'raise' in got: return 'raised %r (%s), node chose %r' % (got['raise'], got['error'], real['ok'])
    return diff('installation', {n: got['ok'].get(n) for n in k}, {n: (real['ok'] or {}).get(n) for n in k})


def bounded():
    return [Bounded('choice', cases, run, '13 version texts x Node versions x requests, one installation with each component missing or added, every order of three installations, Node 6 to 25 with the old installations; random sets of installations, requests, environments and failing scripts',
                    budget=(20, 200))]


# ------------------------------------------------------------------ contracts on the extracted text (pyvc/js.py)
JOIN = JC.pure_str('path.join')
RELATIVE = JC.pure_str('path.relative')
EXISTS = any_bool('existsSync', 1)
STUBS = {'dirname_': '/lib', 'path': JC.Stub(join=lambda *a: None, relative=lambda a, b: None, resolve=lambda *a: None), 'existsSync': lambda p: None, 'process': JC.Stub()}
RESOLVE = JC.pure_str('path.resolve')
OPT_STR, OPT_INT = TUnion(NoneT, StrT), TUnion(NoneT, IntT)
INFO = TDict(Any, {'path': (StrT, True), 'packages': (TList(StrT), True), 'version': (OPT_STR, True)})
VSF = {'validVersions': TList(Any), 'configVersionYear': OPT_INT, 'configPath': OPT_STR, 'envVcInstallDir': OPT_STR, 'configMsvsVersion': OPT_STR, 'errorLog': TList(Any),
       'nodeSemver': TDict(Any, {'major': (IntT, True)})}
PROC = {'arch': StrT, 'env': TDict(StrT)}


def sv(s): return V.StrV(T.sv(s))
def true(v): return z3.If(T.tester('StrV', v), T.acc('s', v) != T.sv(''), z3.If(T.tester('IntV', v), T.acc('i', v) != 0, z3.If(T.tester('BoolV', v), T.acc('b', v), z3.Not(T.tester('NoneV', v)))))
def fld(e, n, final=False): return T.aselect(e.fld('VSF', n, final), e['self'])
def arm(e): return T.aselect(e.fld('Process', 'arch'), e['process']) == sv('arm64')


def wanted_by(year, p, cy, cp, ev):
    """the request (a year or a path) and the command prompt allow it"""
    return z3.And(z3.Or(z3.Not(true(cy)), cy == year), *[z3.Or(z3.Not(true(w)), RELATIVE.f(2)(w, p) == T.sv('')) for w in (cp, ev)])


def wanted(e, year, p): return wanted_by(year, p, fld(e, 'configVersionYear'), fld(e, 'configPath'), fld(e, 'envVcInstallDir'))


def check():
    return Contract('checkConfigVersion', MOD().fn('VisualStudioFinder.checkConfigVersion'), {'self': TObj('VSF'), 'versionYear': IntT, 'vsPath': StrT}, ret=BoolT, fields=[('VSF', 'validVersions')],
                    ensures=lambda e: {'allowed': e.rb() == wanted(e, V.IntV(e['versionYear']), V.StrV(e['vsPath'])),
                                       'listed': T.acc('items', fld(e, 'validVersions', True)) == T.concat(T.acc('items', fld(e, 'validVersions')), T.unit(V.IntV(e['versionYear'])), T.unit(V.StrV(e['vsPath'])))})


MATCH = r'^([0-9]+)\.([0-9]+)(?:\.[^\n\r\u2028\u2029]*)?'


def parsed(v):
    """what the version text is read as: the parts found, and the first of them as a number"""
    m = JC.EXEC.f(sv(MATCH), v)
    q = T.acc('items', m)
    part = lambda i: JC.NUM.f(T.ite(T.length(q) > i, q[i], V.NoneV))
    return m, part


def year_of(v):
    m, part = parsed(v)
    y = lambda n: part(1) == V.IntV(n)
    return T.ite(T.tester('NoneV', m), V.NoneV, T.ite(y(15), V.IntV(2017), T.ite(y(16), V.IntV(2019), T.ite(y(17), V.IntV(2022), V.NoneV))))


def version_row(i):
    v = T.dget(i, T.sv('version'))
    m, part = parsed(v)
    y = year_of(v)
    r = T.EMPTY_DICT
    for k, w in (('version', v), ('versionMajor', part(1)), ('versionMinor', part(2)), ('versionYear', y)): r = T.dset(r, T.sv(k), w)
    return T.ite(T.tester('NoneV', y), T.EMPTY_DICT, r)


KEYS = ('version', 'versionMajor', 'versionMinor', 'versionYear', 'path', 'msBuild', 'toolset', 'sdk')


def get_version():
    return Contract('getVersionInfo', MOD().fn('VisualStudioFinder.getVersionInfo'), {'self': TObj('VSF'), 'info': INFO}, ret=TDict(Any), ensures=lambda e: {'a-year-only-for-15-16-17': e.rv == version_row(e['info']), 'nothing-else': z3.And(*[T.dhas(e.rv, T.sv(k)) == T.dhas(version_row(e['info']), T.sv(k)) for k in KEYS])})


def packages(i): return T.acc('items', T.dget(i, T.sv('packages')))
def has_package(i, p): return T.member(packages(i), sv(p))


def msbuild_of(i, year, arm64):
    p = T.dget(i, T.sv('path'))
    j = lambda *xs: V.StrV(JOIN.f(len(xs) + 1)(p, *[sv(x) for x in xs]))
    here, native = j('MSBuild', 'Current', 'Bin', 'MSBuild.exe'), j('MSBuild', 'Current', 'Bin', 'arm64', 'MSBuild.exe')
    base = has_package(i, MSB)
    return T.ite(z3.And(base, year == V.IntV(2017)), j('MSBuild', '15.0', 'Bin', 'MSBuild.exe'), T.ite(z3.And(arm64, EXISTS.f(native)), native,
                 T.ite(z3.Or(z3.And(base, year == V.IntV(2019)), EXISTS.f(here)), here, V.NoneV)))


def toolset_of(i, year, arm64):
    some = z3.Or(z3.And(arm64, has_package(i, A64)), has_package(i, X64), has_package(i, EXP))
    ts = V.NoneV
    for y, t in TOOLSET.items(): ts = T.ite(year == V.IntV(y), sv(t), ts)
    return T.ite(some, ts, V.NoneV)


def newer(acc, p):
    """the newer of an SDK version and the one that a package is, if it is one"""
    q = JC.SPLITON(T.acc('s', p), T.sv('.'))
    n = JC.NUM.f(T.ite(T.length(q) > 4, q[4], V.NoneV))
    s = T.acc('s', p)
    ok = z3.And(z3.Or(z3.PrefixOf(T.sv(S10), s), z3.PrefixOf(T.sv(S11), s)), z3.Or(T.length(q) <= 5, q[5] == sv('Desktop')), T.tester('IntV', n))
    return T.ite(z3.And(ok, T.acc('i', n) > acc), T.acc('i', n), acc)


SDKMAX = T.Fold('newest_sdk', lambda: z3.IntVal(0), lambda acc, p, done: newer(acc, p), T.Int, ())


def sdk_of(i):
    n = SDKMAX(packages(i))
    return T.ite(n != 0, V.StrV(z3.Concat(T.sv('10.0.'), JC.STRINGOF(V.IntV(n)), T.sv('.0'))), T.ite(has_package(i, S81), sv('8.1'), V.NoneV))


def vs(name, params, ret, ens, **k):
    return Contract(name, MOD().fn('VisualStudioFinder.' + name), dict({'self': TObj('VSF')}, **params), ret=ret, ensures=ens, **k)


def msbuild(): return vs('getMSBuild', {'info': INFO, 'versionYear': Any}, OPT_STR, lambda e: {'the-msbuild': e.rv == msbuild_of(e['info'], e['versionYear'], arm(e))}, globs={'process': TObj('Process')})
def toolset(): return vs('getToolset', {'info': INFO, 'versionYear': Any}, OPT_STR, lambda e: {'the-toolset': e.rv == toolset_of(e['info'], e['versionYear'], arm(e))}, globs={'process': TObj('Process')})
def sdk_c(): return vs('getSDK', {'info': INFO}, OPT_STR, lambda e: {'the-newest-sdk': e.rv == sdk_of(e['info'])}, cands=lambda lv: {'max:' + n: v == SDKMAX(lv.done) for n, v in lv.scalars(TInt)} if lv.done is not None and lv.done.sort() == T.SeqV else {})


def row(i, arm64):
    """what an installation offers"""
    i = T.dput(i, T.sv('path'), V.StrV(RESOLVE.f(1)(T.dget(i, T.sv('path')))))
    y = year_of(T.dget(i, T.sv('version')))
    r = version_row(i)
    for k, w in (('path', T.dget(i, T.sv('path'))), ('msBuild', msbuild_of(i, y, arm64)), ('toolset', toolset_of(i, y, arm64)), ('sdk', sdk_of(i))): r = T.dset(r, T.sv(k), w)
    return r


def get(r, k): return T.dget(r, T.sv(k))
def of_years(r, years): return z3.And(T.dhas(r, T.sv('versionYear')), true(get(r, 'versionYear')), T.member(years, get(r, 'versionYear')))


ROWS = T.Fold('described', lambda a: T.empty(), lambda acc, i, done, a: T.concat(acc, T.unit(row(i, a))), T.SeqV, (T.Bool,))
OF_YEARS = T.Fold('of_years', lambda ys: T.empty(), lambda acc, r, done, ys: T.ite(of_years(r, ys), T.concat(acc, T.unit(r)), acc), T.SeqV, (T.SeqV,))
ANY_ROW = z3.Const('any_row', V)


def good(e, r, years=None):
    """nothing, or an installation of one of these years that has everything and is wanted"""
    ok = of_years(r, e['supportedYears']) if years is None else z3.And(T.dhas(r, T.sv('versionYear')), z3.Or(*[z3.And(get(r, 'versionYear') == V.IntV(y), c) for y, c in years.items()]))
    return z3.Or(T.tester('NoneV', r), z3.And(T.tester('DictV', r), *[T.dhas(r, T.sv(k)) for k in ('path', 'msBuild', 'toolset')], ok, usable(e, r)))


def usable(e, r): return z3.And(*[true(get(r, k)) for k in ('msBuild', 'toolset', 'sdk')], wanted(e, get(r, 'versionYear'), get(r, 'path')))


def lemmas():
    l, p, x, y, n, n1, a, ys = z3.Const('l', T.SeqV), z3.Const('p', T.SeqV), z3.Const('x', V), z3.Const('y', V), z3.Int('n'), z3.Int('n1'), z3.Const('a', T.Bool), z3.Const('ys', T.SeqV)
    px = T.concat(p, T.unit(x))
    chosen = lambda q, y: z3.Implies(T.member(OF_YEARS(q, ys), y), z3.And(T.member(q, y), of_years(y, ys)))
    r = z3.Const('r', T.SeqV)
    k = z3.Int('k')
    cut = T.concat(p, T.unit(x), r)
    return {'rows': [('none', [], row_type(ROWS(T.empty(), a), y)), ('one-more', [row_type(ROWS(p, a), y), z3.Implies(y == row(x, a), z3.And(*[T.dhas(y, T.sv(k)) == T.dhas(row(x, a), T.sv(k)) for k in KEYS]))], row_type(ROWS(px, a), y))],
            'choices': [('none', [], chosen(T.empty(), y)), ('one-more', [chosen(p, y)], chosen(px, y))],
            'lists': [('next', [], take_next(cut, T.length(p), T.length(px), y)), ('all', [n >= T.length(l)], T.take(l, n) == l), ('found', [JC.first_def(l, x)], found(l, x)),
                      ('member', [z3.Implies(z3.And(k >= 0, k < T.length(T.take(l, n))), T.member(T.take(l, n), T.take(l, n)[k]))], is_member_of_take(l, n, k)),
                      ('member-none', [], is_member(T.empty(), k)), ('member-one-more', [is_member(p, k)], is_member(px, k))]}


def is_member(l, i): return z3.Implies(z3.And(i >= 0, i < T.length(l)), T.member(l, l[i]))


def process():
    def choices(e): return OF_YEARS(ROWS(e['vsInfo'], arm(e)), e['supportedYears'])
    def ens(e):
        none = T.tester('NoneV', e.rv)
        can = z3.And(T.member(choices(e), ANY_ROW), usable(e, ANY_ROW))
        return {'good': good(e, e.rv), 'usable-and-wanted': z3.Or(none, z3.And(T.member(choices(e), e.rv), usable(e, e.rv))), 'nothing-only-if-none-is-usable': z3.Implies(none, z3.Not(can)),
                'the-newest': z3.Implies(z3.And(z3.Not(none), can), T.acc('i', get(e.rv, 'versionYear')) >= T.acc('i', get(ANY_ROW, 'versionYear')))}

    def cands(lv):
        out = {}
        e = lv.eng.entry
        if lv.done is None: return out
        for n, q in lv.lists():
            if q.sort() == T.SeqV and lv.done.sort() == T.SeqV:
                out['rows:' + n] = q == ROWS(lv.done, arm(e))
                out['years:' + n] = q == OF_YEARS(lv.done, e['supportedYears'])
        for q, x, key in lv.eng.sorts[-1:]: out['none-before'] = z3.Not(z3.And(T.member(T.take(q, T.length(lv.done)), ANY_ROW), usable(e, ANY_ROW)))
        return out

    def loop_facts(lv):
        if lv.done is None: return []
        e, out = lv.eng.entry, []
        for q, x, key in lv.eng.sorts[-1:]:
            n = T.length(lv.done)
            j = FIRST(q, ANY_ROW)
            out += [take_next(q, n, T.length(T.concat(lv.done, T.unit(ANY_ROW))), ANY_ROW), found(q, ANY_ROW), is_member_of_take(q, n, j), lv.eng.sort_fact(q, n, j)]
            out += [in_choices(choices(e), q[n], e), in_choices(choices(e), ANY_ROW, e)]
        return out
    return vs('processData', {'vsInfo': TList(INFO), 'supportedYears': TList(IntT)}, Any, ens, globs={'process': TObj('Process')}, fields=[('VSF', 'validVersions')], modifies=['vsInfo'],
              cands=cands, loop_facts=loop_facts, elem_facts=lambda eng, st, q, done, x, rest: [in_choices(choices(eng.entry), x, eng.entry), row_type(ROWS(eng.entry['vsInfo'], arm(eng.entry)), x)])


# what follows for the elements of these lists (proved below)
def take_next(l, n, n1, y):
    return z3.And(z3.Implies(z3.And(n >= 0, n < T.length(l), n1 == n + 1), T.member(T.take(l, n1), y) == z3.Or(T.member(T.take(l, n), y), l[n] == y)), z3.Implies(n >= T.length(l), T.member(T.take(l, n), y) == T.member(l, y)))



def found(l, x): return z3.Implies(T.member(l, x), z3.And(FIRST(l, x) >= 0, FIRST(l, x) < T.length(l), l[FIRST(l, x)] == x))
def is_member_of_take(l, n, j): return z3.Implies(z3.And(j >= 0, j < n, n <= T.length(l)), T.member(T.take(l, n), l[j]))
def row_type(rows, x): return z3.Implies(T.member(rows, x), z3.And(T.tester('DictV', x), *[T.dhas(x, T.sv(k)) for k in ('path', 'msBuild', 'toolset', 'sdk')], T.tester('StrV', get(x, 'path')), z3.Implies(T.dhas(x, T.sv('versionYear')), T.tester('IntV', get(x, 'versionYear')))))
def in_choices(c, x, e): return z3.Implies(T.member(c, x), z3.And(T.member(ROWS(e['vsInfo'], arm(e)), x), row_type(ROWS(e['vsInfo'], arm(e)), x), of_years(x, e['supportedYears'])))


def parsed_data(eng, st, args, kw, node):
    """what the script prints: installations as Find-VisualStudio.cs describes them"""
    eng.assumed.add('Find-VisualStudio.cs prints installations with a path, a version and packages, or nothing that can be read')
    st, v = eng.fresh_value(st, TUnion(NoneT, TList(INFO)), 'printed')
    return [(st, v)]


def parse_c(): return vs('parseData', {'err': Any, 'stdout': Any, 'stderr': Any, 'sanityCheckOptions': Any}, TUnion(NoneT, TList(INFO)), None, trusted=True)
def exec_c(): return vs('execFile', {'exec': Any, 'args': Any}, TList(Any), None, trusted=True)


def finder(name, params, years=None, **k):
    return vs(name, params, Any, lambda e: {'good': good(e, e.rv, years and years(e))}, globs={'process': TObj('Process')}, fields=[('VSF', 'validVersions')], **k)


def major(e): return T.acc('i', T.dget(fld(e, 'nodeSemver'), T.sv('major')))


def finders():
    newer = lambda e: {2019: z3.BoolVal(True), 2022: z3.BoolVal(True)}
    older = lambda e: {2017: major(e) < 22}
    ys = {'supportedYears': TList(IntT)}
    return [finder('findVSFromSpecifiedLocation', ys), finder('findNewVS', ys), finder('findNewVSUsingSetupModule', ys, trusted=True)] + [
        finder(n, {}, newer) for n in ('findVisualStudio2019OrNewerFromSpecifiedLocation', 'findVisualStudio2019OrNewerUsingSetupModule', 'findVisualStudio2019OrNewer')] + [
        finder(n, {}, older) for n in ('findVisualStudio2017FromSpecifiedLocation', 'findVisualStudio2017UsingSetupModule', 'findVisualStudio2017')]


OLD = TDict(Any, {'version': (StrT, True), 'versionYear': (IntT, True), 'toolset': (StrT, True)})


def old_good(e, r, year, allowed=z3.BoolVal(True)):
    """nothing, or the installation of that year, with its MSBuild, and wanted; no SDK is asked for"""
    return z3.Or(T.tester('NoneV', r), z3.And(T.tester('DictV', r), *[T.dhas(r, T.sv(k)) for k in ('path', 'msBuild', 'toolset', 'versionYear')], allowed, get(r, 'versionYear') == year,
                                              true(get(r, 'toolset')), T.tester('StrV', get(r, 'msBuild')), wanted(e, get(r, 'versionYear'), get(r, 'path'))))


def olders():
    reg = vs('regSearchKeys', {'keys': Any, 'value': Any, 'addOpts': Any}, StrT, None, trusted=True, raises={Exception: None})
    old = vs('findOldVS', {'info': OLD}, Any, lambda e: {'good': z3.Or(z3.Not(true(get(e['info'], 'toolset'))), old_good(e, e.rv, get(e['info'], 'versionYear')))}, globs={'process': TObj('Process')},
             fields=[('VSF', 'validVersions')], modifies=['info'])
    each = [vs('findVisualStudio%d' % y, {}, Any, lambda e, y=y, m=m: {'good': old_good(e, e.rv, V.IntV(y), major(e) < m)}, globs={'process': TObj('Process')}, fields=[('VSF', 'validVersions')])
            for y, m in ((2015, 19), (2013, 9))]
    return [reg, old] + each


def find():
    """whatever is found is good; there is an error otherwise"""
    def ens(e):
        f = lambda n: fld(e, n, True)
        m = major(e)
        asked = fld(e, 'configMsvsVersion')
        y = z3.And(true(asked), z3.Not(T.tester('NoneV', JC.EXEC.f(sv(r'^[0-9]{4}\Z'), asked))))
        env, vc = T.aselect(e.fld('Process', 'env'), e['process']), T.sv('VCINSTALLDIR')
        prompt = z3.And(T.dhas(env, vc), T.dget(env, vc) != sv(''))
        w = wanted_by(get(e.rv, 'versionYear'), get(e.rv, 'path'), f('configVersionYear'), f('configPath'), f('envVcInstallDir'))
        years = z3.Or(*[z3.And(get(e.rv, 'versionYear') == V.IntV(k), c) for k, c in {2022: True, 2019: True, 2017: m < 22, 2015: m < 19, 2013: m < 9}.items()])
        return {'an-installation': z3.And(T.tester('DictV', e.rv), *[T.dhas(e.rv, T.sv(k)) for k in ('path', 'msBuild', 'toolset', 'versionYear')]), 'a-year-that-node-builds-with': years, 'wanted': w,
                'complete': z3.And(true(get(e.rv, 'toolset')), z3.Or(get(e.rv, 'versionYear') == V.IntV(2015), get(e.rv, 'versionYear') == V.IntV(2013), z3.And(true(get(e.rv, 'msBuild')), true(get(e.rv, 'sdk'))))),
                'the-year-asked-for': f('configVersionYear') == T.ite(y, JC.NUM.f(asked), V.NoneV),
                'the-place-asked-for': f('configPath') == T.ite(z3.And(true(asked), z3.Not(y)), V.StrV(RESOLVE.f(1)(asked)), V.NoneV),
                'the-prompt': f('envVcInstallDir') == T.ite(prompt, V.StrV(RESOLVE.f(2)(T.dget(env, vc), sv('..'))), fld(e, 'envVcInstallDir'))}
    return vs('findVisualStudio', {}, Any, ens, globs={'process': TObj('Process')}, fields=[('VSF', n) for n in ('validVersions', 'errorLog', 'configVersionYear', 'configPath', 'envVcInstallDir')], raises={JC.jsrt.Error: None})


def MOD():
    m = JC.module('lib/find-visualstudio.js', stubs=STUBS)
    m.ns['VisualStudioFinder'].regSearchKeys = reg_search_keys
    return m


def reg_search_keys(self, keys, value, addOpts): """the registry"""


def contracts():
    cs = [check(), get_version(), msbuild(), toolset(), sdk_c(), process(), exec_c()] + finders() + olders() + [find()]
    mk = JC.engine(cs, {'VSF': VSF, 'Process': PROC}, models={STUBS['path'].join: JOIN, STUBS['path'].relative: RELATIVE, STUBS['path'].resolve: RESOLVE, STUBS['existsSync']: EXISTS, MOD().fn('VisualStudioFinder.parseData'): parsed_data},
                   class_objs={'VSF': MOD().ns['VisualStudioFinder']})
    return [(c, mk) for c in cs if not c.trusted] + [(JC.Faithful('find-visualstudio.js as extracted', cases, run_text), mk)] + [(Lemma(n, lambda l=l: l), mk) for n, l in lemmas().items()]



META = dict(level='proof', technique='contracts on the text extracted mechanically from lib/find-visualstudio.js: what an installation offers, the newest that is complete and wanted is chosen (processData), only years that the Node version builds with, '
                                     'the request and the command prompt are obeyed, nothing found is an error; a bounded check of the whole choice against an independent reference',
            note='assumed: the text extracted from JavaScript means what node does (compared on inputs each run); what the PowerShell script prints has the documented shape; path.*, RegExp.exec, parseInt are functions of their arguments; '
                 'findNewVSUsingSetupModule (elements changed in place by map) and parseData are trusted and only checked bounded; the comparison of sort is by an integer key')
