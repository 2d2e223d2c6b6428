"""J01 Downloaded headers are used only if their checksum matches."""
import os
from vlib.base import *
setup_path()
from vlib import jsrun

VERSION = '12.3.4'
FILES = [['include/node/node.h', 'header'], ['include/node/common.gypi', '{}'], ['include/node/sub/a.h', 'a'], ['README.md', 'readme'], ['bin/node', 'elf']]
KEPT = {'include/node/node.h': 'header', 'include/node/common.gypi': '{}', 'include/node/sub/a.h': 'a'}
SUMS = ['ok', 'missing', 'wrong', 'prefix', 'longer', 'othername', 'swapped', 'empty', 'dot', 'tail', 'upper', 'twice', 'star']
MATCH = {'ok', 'dot'}
UNCLEAR = {'upper', 'twice', 'star'}     # the statement does not say whether these lists publish the checksum
NETS = ['404', '500', '403', '204', 'close', 'short', 'chunkshort']
FAULTS = [['writeFile', 'installVersion', 'ENOSPC'], ['mkdir', 'devDir', 'ENOSPC'], ['mkdir', 'devDir', 'EACCES'], ['copyFile', 'node.h', 'ENOSPC'], ['copyFile', 'installVersion', 'EIO']]


def case(**k):
    d = dict(win=False, tar='ok', hashOf='tarball', tarSum='ok', lib='ok', libSum='ok', net={}, cut=0, shaBody=None, order='', eol='\n', noEnd=False, prior=None, priorLib=False, ensure=False, local=False, faults=[],
             files='full', version=VERSION)
    d.update(k)
    return d


def cases(tier, rng):
    for w in (False, True):
        yield case(win=w)
        for s in SUMS:
            yield case(win=w, tarSum=s)
            yield case(win=w, tarSum=s, order='rev', ensure=True, prior='old')
        for n in NETS:
            for k in ('tar', 'sha') + (('lib',) if w else ()): yield case(win=w, net={k: n})
        for t in ('other', 'garbage'): yield case(win=w, tar=t)
        yield case(win=w, tar='other', hashOf='served')
        for c in (.1, .4, .5, .7, .9, .97): yield case(win=w, cut=c)
        for b in ('', '\n', '<html>not found</html>', 'x y', '\n\n'): yield case(win=w, shaBody=b)
        for p in ('good', 'old', 'junk', 'none'):
            for e in (False, True):
                yield case(win=w, prior=p, ensure=e)
                yield case(win=w, prior=p, ensure=e, tarSum='wrong')
                if w: yield case(win=w, prior=p, ensure=e, priorLib=True)
        for f in FAULTS: yield case(win=w, faults=[f])
        yield case(win=w, local=True)
        yield case(win=w, local=True, tarSum='wrong')
        yield case(win=w, files='none')
        yield case(win=w, eol='\r\n')
        yield case(win=w, noEnd=True, order='rev')
        for v in ('foo', '0.7.9', '0.11.13-pre'): yield case(win=w, version=v)
    for s in SUMS:
        yield case(win=True, libSum=s)
        yield case(win=True, libSum=s, local=True)
        yield case(win=True, libSum=s, prior='good', ensure=True)
    yield case(win=True, lib='other')
    yield case(win=True, lib='other', prior='good', ensure=True)
    while True:
        w = rng.random() < .5
        c = case(win=w, tar=rng.choice(['ok', 'ok', 'ok', 'other', 'garbage']), hashOf=rng.choice(['tarball', 'tarball', 'served']), tarSum=rng.choice(SUMS + ['ok'] * 8), libSum=rng.choice(SUMS + ['ok'] * 8),
                 lib=rng.choice(['ok', 'ok', 'ok', 'other']), order=rng.choice(['', 'rev']), eol=rng.choice(['\n', '\r\n']), noEnd=rng.random() < .3, prior=rng.choice([None, None, 'good', 'old', 'junk', 'none']),
                 priorLib=rng.random() < .3, ensure=rng.random() < .5, local=rng.random() < .15, files=rng.choice(['full'] * 5 + ['none']))
        if rng.random() < .25: c['net'] = {rng.choice(['tar', 'sha', 'lib']): rng.choice(NETS)}
        if rng.random() < .15: c['cut'] = round(rng.random(), 3)
        if rng.random() < .15: c['faults'] = [rng.choice(FAULTS)]
        yield c


def expect(c):
    """('none'): nothing to do; ('fail'), ('succeed') or ('either')"""
    if c['version'] in ('foo', '0.7.9', '0.11.13-pre'): return 'refuse'
    needTar = needLib = True
    if c['ensure'] and c['prior'] == 'good':
        if not c['win'] or c['priorLib']: return 'none'
        needTar = False
    needLib = c['win']
    downTar = needTar and not c['local']
    sha = downTar or c['win'] or not c['local']
    parts = []
    for f in c['faults']:
        if f == FAULTS[2]: continue
        if f[0] == 'copyFile' and not c['win']: continue
        if f[0] == 'copyFile' and f[1] == 'node.h' and (not needTar or c['files'] == 'none'): continue
        # copying is tried again after a failure
        parts.append('either' if f[0] == 'copyFile' else 'fail')
    def net(k): return c['net'].get(k, 'ok')
    if needTar:
        if c['tar'] == 'garbage': parts.append('fail')
        elif c['files'] == 'none' and c['tar'] != 'other': parts.append('fail')
        if downTar:
            if net('tar') != 'ok': parts.append('fail')
            if c['tar'] != 'ok' and c['hashOf'] != 'served': parts.append('fail')
            parts.append(sumof(c['tarSum']))
    if sha and net('sha') not in ('ok', 'chunkshort'): parts.append('fail')
    if needLib:
        if net('lib') != 'ok' or c['lib'] == 'other': parts.append('fail')
        parts.append(sumof(c['libSum']))
    if downTar or needLib:
        if c['shaBody'] is not None: parts.append('fail')
        if c['cut'] or net('sha') == 'chunkshort': parts.append('cut')
        # a malformed line ends the list: entries behind it are not published
        if 'empty' in (c['tarSum'], c['libSum']) : parts.append('either')
    if 'fail' in parts: return 'fail'
    return 'either' if 'either' in parts or 'cut' in parts else 'succeed'


def sumof(s): return 'succeed' if s in MATCH else 'either' if s in UNCLEAR else 'fail'


def run(c):
    e = expect(c)
    with scratch() as d:
        q = {k: c[k] for k in ('version', 'tar', 'hashOf', 'tarSum', 'lib', 'libSum', 'net', 'cut', 'shaBody', 'order', 'eol', 'noEnd', 'prior', 'priorLib', 'local', 'faults')}
        q.update(dir=d, asTarget=c['version'] != VERSION or c['ensure'], versionDir=c['version'], tarName='node-v%s-headers.tar.gz' % c['version'], libName='win-x64/node.lib', files=FILES if c['files'] == 'full' else FILES[3:],
                 opts={'arch': 'x64', **({'ensure': True} if c['ensure'] else {})})
        if not c['win']: q['libSum'] = 'ok'
        try: r = jsrun.call('install', q, platform='win32' if c['win'] else '')
        except jsrun.JSError as ex: return 'the harness failed: ' + str(ex)[:300]
    what = {k: v for k, v in c.items() if v != case()[k]}
    if 'raise' in r and not r['isError']: return '%r: something that is no Error was thrown' % what
    if not r['other']: return '%r: another version was removed' % what
    if r['left']: return '%r: temporary files left: %r' % (what, r['left'])
    failed = 'raise' in r
    if e == 'refuse':
        return None if failed and not r['requests'] and not r['exists'] else '%r: expected a refusal, got %r' % (what, r)
    if e == 'none': return None if not failed and not r['requests'] and r['files'].get('installVersion') == '11\n' else '%r: already installed, got %r' % (what, r)
    if e == 'fail' and not failed: return '%r: installed although it could not be verified (files %r)' % (what, sorted(r['files']))
    if e == 'succeed' and failed: return '%r: failed with %r' % (what, r['raise'])
    if failed:
        if r['exists']: return '%r: failed (%r) but the directory of the version remains with %r' % (what, r['raise'], sorted(r['files']))
        if r['marks'] and not any(f[0] == 'copyFile' for f in c['faults']): return '%r: failed (%r) but had been marked as installed' % (what, r['raise'])
        if c['faults'] != [FAULTS[2]] and r['fellBack']: return '%r: fell back to a temporary directory' % what
        return None
    if r['markedEarly']: return '%r: marked as installed before everything was verified' % what
    if r['files'].get('installVersion') != '11\n': return '%r: succeeded without marking: %r' % (what, r['files'].get('installVersion'))
    onlylib = c['win'] and c['ensure'] and c['prior'] == 'good'
    want = {} if onlylib else dict(KEPT if c['files'] == 'full' else {})
    if c['tar'] == 'other' and not onlylib: want['include/evil.h'] = 'evil'
    if c['win']: want['x64/node.lib'] = 'library ' + c['version']
    bad = [k for k, v in want.items() if r['files'].get(k) != v]
    if bad: return '%r: succeeded but %r differ from what was published' % (what, bad)
    names = ['node-v%s-headers.tar.gz' % c['version'], 'SHASUMS256.txt', 'win-x64/node.lib']
    need = [n for n, f in zip(names, [not onlylib and not c['local'], not c['local'] or c['win'], c['win']]) if f]
    if set(need) - set(r['requests']): return '%r: succeeded without requesting %r' % (what, sorted(set(need) - set(r['requests'])))


def bounded():
    return [Bounded('installs', cases, run, 'the real installation from a server on the loopback, on Linux and as if on Windows: each checksum list variant, each network failure for each file, cut lists, other contents, earlier installations, file system faults, one at a time; random combinations',
                    per=25, budget=(60, 300))]


def contracts(): return []


META = dict(level='other', technique='contract (bounded stand-in, not proved): check of install against the statement', note='bounded only')
