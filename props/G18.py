"""G18 Multiple toolsets yield one independent target per toolset."""
import copy
from vlib.base import *
setup_path()
from pyvc.contract import *
from vlib.load import load
import gyp.input as I
from props import G14


def contracts(): return G14.contracts()      # what makes the copies independent


# ------------------------------------------------------------------ bounded contract runs
LISTS = [None, None, ['target'], ['host'], ['target', 'host'], ['host', 'target'], ['a', 'b', 'c'], ['host', 'x', 'target', 'y'], [], ['t', 't'], ['', 'h'], ['h#', 'é']]


def target(rng, n):
    t = {'target_name': 't%d' % n}
    if rng.random() < .7: t['sources'] = ['s%d' % i for i in range(rng.randrange(3))]
    if rng.random() < .5: t['nest'] = {'a': [{'b': ['c']}], 'empty': [], 'none': {}}
    if rng.random() < .3: t['conditions'] = [['OS=="x"', {'defines': ['A'], 'targets': ['not these']}]]
    l = rng.choice(LISTS)
    if l is not None: t['toolsets'] = list(l)
    if rng.random() < .2: t['toolset'] = rng.choice(['host', 'target', 'z'])
    return t


def section(rng, depth):
    d = {}
    if rng.random() < .8: d['targets'] = [target(rng, i) for i in range(rng.randrange(5))]
    if rng.random() < .5: d['target_defaults'] = {'toolsets': ['untouched'], 'x': [1]}
    if depth and rng.random() < .8:
        d['conditions'] = [rng.choice([[cond(rng), section(rng, depth - 1)], [cond(rng), section(rng, depth - 1), section(rng, depth - 1)], [cond(rng), section(rng, depth - 1), cond(rng), section(rng, depth - 1), section(rng, 0)], 'text', ['c'], [cond(rng), 'text']])
                           for _ in range(rng.randrange(1, 4))]
    if rng.random() < .3: d['variables'] = {'targets': [{'toolsets': ['a', 'b']}]}
    if rng.random() < .3: d['target_conditions'] = [['x', {'targets': [{'target_name': 'q', 'toolsets': ['a', 'b']}]}]]
    return d


def cond(rng): return rng.choice(['OS=="linux"', 'x', '_toolset=="host"'])


def c_section(tier, rng):
    while True: yield (section(rng, rng.randrange(4)), rng.random() < .8)


def want(d, multi):
    """what the documentation says becomes of a section; the targets made from one are compared as a set of places"""
    d = copy.deepcopy(d)
    if 'targets' in d:
        out = []
        for t in d['targets']:
            if 'toolset' in t and 'toolsets' not in t: out.append([t])
            else:
                l = t.pop('toolsets', ['target'])
                out.append([dict(copy.deepcopy(t), toolset=x) for x in (l if multi else ['target'])])
        d['targets'] = out
    for c in d.get('conditions', []):
        if isinstance(c, list): c[1:] = [want(x, multi) if isinstance(x, dict) else x for x in c[1:]]
    return d


def same(got, w, where=''):
    if not isinstance(got, dict) or set(got) != set(w): return '%s has the keys %r' % (where, got)
    for k in w:
        if k == 'targets':
            l = list(got[k])
            for group in w[k]:
                mine, l = l[:len(group)], l[len(group):]
                for t in group:
                    if t not in mine: return 'in place of target %s: %r, wanted %r in some order' % (t['target_name'], mine, group)
                    mine.remove(t)
            if l: return 'more targets than expected: %r' % l
        elif k == 'conditions':
            if len(got[k]) != len(w[k]): return 'the conditions of %s became %r' % (where, got[k])
            for c, v in zip(got[k], w[k]):
                if not isinstance(v, list):
                    if c != v: return 'a condition became %r' % (c,)
                    continue
                if len(c) != len(v): return 'a condition became %r' % (c,)
                for i, (a, b) in enumerate(zip(c, v)):
                    m = same(a, b, 'a condition') if isinstance(b, dict) else diff('a condition', a, b)
                    if m: return m
        elif got[k] != w[k]: return '%s of %s became %r' % (k, where, got[k])


def containers(x, seen):
    if isinstance(x, (list, dict)):
        if id(x) in seen: return x
        seen[id(x)] = x
        for y in (x.values() if isinstance(x, dict) else x):
            r = containers(y, seen)
            if r is not None: return r


def r_section(x):
    d, multi = copy.deepcopy(x)
    w = want(d, multi)
    old = getattr(I, 'multiple_toolsets', False)
    I.multiple_toolsets = multi
    try: o = outcome(I.ProcessToolsetsInDict, d)
    finally: I.multiple_toolsets = old
    if o[0] == 'raise': return 'raised %r' % (o,)
    m = same(d, w, 'the section')
    if m: return m
    r = containers(d, {})
    if r is not None: return 'two places share %r' % (r,)


def nest(t): return t['configurations']['Default']['nest']      # loading moves the other settings there


def c_load(tier, rng):
    while True:
        ts = []
        for i in range(rng.randrange(1, 4)):
            t = {'target_name': 't%d' % i, 'type': 'none', 'sources': ['a'], 'nest': {'l': ['x']}}
            l = rng.choice([None, None, ['target'], ['target', 'host'], ['host', 'target'], ['host'], ['target', 'host', 'x']])
            if l: t['toolsets'] = l
            t['w'] = rng.choice(['list', 'cond', 'else', 'nested'])
            if rng.random() < .4: t['target_conditions'] = [['_toolset=="host"', {'sources': ['only-host']}, {'sources': ['not-host']}]]
            ts.append(t)
        yield (ts, rng.random() < .8)


def r_load(x):
    ts, multi = copy.deepcopy(x)
    f = {'targets': []}
    for t in ts:
        w = t['w']
        u = {k: v for k, v in t.items() if k != 'w'}
        if w == 'list': f['targets'].append(u)
        elif w == 'cond': f.setdefault('conditions', []).append(['OS=="linux"', {'targets': [u]}])
        elif w == 'else': f.setdefault('conditions', []).append(['OS=="mac"', {}, {'targets': [u]}])
        else: f.setdefault('conditions', []).append(['OS=="mac"', {}, {'conditions': [['OS=="linux"', {'targets': [u]}]]}])
    o = load({'p.gyp': f}, toolsets=multi)
    if o[0] == 'raise': return 'not loaded: %r' % (o,)
    got = o[1].targets
    want = {}
    for t in ts:
        for s in (t.get('toolsets', ['target']) if multi else ['target']):
            src = ['a'] + ([['not-host'], ['only-host']][s == 'host'] if 'target_conditions' in t else [])
            want['p.gyp:%s#%s' % (t['target_name'], s)] = (s, src, {'l': ['x']})
    m = diff('the targets', {n: (t['toolset'], t['sources'], nest(t)) for n, t in got.items()}, want)
    if m: return m
    r = containers({n: nest(t) for n, t in got.items()}, {})
    return None if r is None else 'two targets share %r' % (r,)


def bounded():
    return [Bounded('section', c_section, r_section, 'random sections of up to 4 targets with 12 kinds of toolset lists, nested in up to 3 levels of conditions, with and without toolset support', budget=(8, 60)),
            Bounded('load', c_load, r_load, 'whole build files of up to 3 targets with toolsets, in lists, branches and nested conditions', budget=(6, 60))]


META = dict(level='other', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='The copies are proved equal and independent (the contract of deepcopy, as in G14). ProcessToolsetsInDict itself changes a target and puts it in a second list, which the ownership discipline of the verifier does not accept, so it is bounded: '
                 'random nested sections and whole loads compared with the documented result, and searched for shared containers.')
