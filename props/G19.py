"""G19 Invalid target specifications are always rejected, valid ones never."""
import copy
import os
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from vlib import models as M
from vlib.load import load
import gyp.input as I
from gyp.common import GypError

V = T.V
DATA = TUnion(NoneT, BoolT, IntT, StrT, TList(Any), TDict(Any))
TYPES = ("executable", "loadable_module", "static_library", "shared_library", "mac_kernel_extension", "none", "windows_driver")     # from the GYP language specification
N0 = z3.Int('any_item')          # arbitrary: what is shown for it holds for every item


def truthy(v):
    return z3.Not(z3.Or(T.tester('NoneV', v), z3.And(T.tester('BoolV', v), z3.Not(T.acc('b', v))), z3.And(T.tester('IntV', v), T.acc('i', v) == 0), z3.And(T.tester('StrV', v), T.acc('s', v) == T.sv('')),
                        z3.And(T.tester('ListV', v), T.acc('items', v) == T.empty()), z3.And(T.tester('DictV', v), T.acc('keys', v) == z3.Empty(T.SeqS))))


def get(d, k): return T.ite(T.dhas(d, T.sv(k)), T.dget(d, T.sv(k)), V.NoneV)


def is_data(v): return z3.Or(*[T.tester(t, v) for t in ('NoneV', 'BoolV', 'IntV', 'StrV', 'ListV', 'DictV')])


def bad_type(d):
    t = get(d, 'type')
    return z3.Or(z3.And(*[t != V.StrV(T.sv(n)) for n in TYPES]), z3.And(truthy(get(d, 'standalone_static_library')), t != V.StrV(T.sv('static_library'))))


def plain(*ks): return lambda e: [is_data(get(e.val('target_dict'), k)) for k in ks]


TYPE = Contract('ValidateTargetType', I.ValidateTargetType, {'target': StrT, 'target_dict': TDict(DATA)}, ret=NoneT, requires=plain('type', 'standalone_static_library'),
                ensures=lambda e: {'valid': z3.Not(bad_type(e.val('target_dict')))}, raises={GypError: lambda e: bad_type(e.val('target_dict'))})


def bad_run(d):
    r = get(d, 'run_as')
    a, w, n = get(r, 'action'), get(r, 'working_directory'), get(r, 'environment')
    return z3.And(truthy(r), z3.Or(z3.Not(T.tester('DictV', r)), z3.Not(truthy(a)), z3.Not(T.tester('ListV', a)), z3.And(truthy(w), z3.Not(T.tester('StrV', w))), z3.And(truthy(n), z3.Not(T.tester('DictV', n)))))


RUN = Contract('ValidateRunAsInTarget', I.ValidateRunAsInTarget, {'target': StrT, 'target_dict': TDict(DATA), 'build_file': StrT}, ret=NoneT,
               requires=lambda e: plain('run_as', 'target_name')(e) + [is_data(get(get(e.val('target_dict'), 'run_as'), k)) for k in ('action', 'working_directory', 'environment')],
               ensures=lambda e: {'valid': z3.Not(bad_run(e.val('target_dict')))}, raises={GypError: lambda e: bad_run(e.val('target_dict'))})
ACTION = TDict(DATA, {'action': (TList(StrT), False)})


def bad_action(a):
    c = T.acc('items', T.dget(a, T.sv('action')))
    return z3.Or(z3.Not(truthy(get(a, 'action_name'))), get(a, 'inputs') == V.NoneV, z3.And(T.dhas(a, T.sv('action')), c != T.empty(), c[0] == V.StrV(T.sv(''))))


def actions(e): return T.ite(T.dhas(e.val('target_dict'), T.sv('actions')), T.acc('items', T.dget(e.val('target_dict'), T.sv('actions'))), T.empty())


def cands_actions(lv):
    if lv.done is None or lv.done.sort() != T.SeqV: return {}
    return {'so-far': z3.Implies(z3.And(N0 >= 0, N0 < T.length(lv.done)), z3.Not(bad_action(lv.seq[N0])))}


def some_bad(seq):
    i = z3.Int('some_item')
    return z3.Exists([i], z3.And(i >= 0, i < T.length(seq), bad_action(seq[i])))


ACTIONS = Contract('ValidateActionsInTarget', I.ValidateActionsInTarget, {'target': StrT, 'target_dict': TDict(DATA, {'actions': (TList(ACTION), False)}), 'build_file': StrT}, ret=NoneT, requires=plain('target_name'),
                   ensures=lambda e: {'every-action-valid': z3.Implies(z3.And(N0 >= 0, N0 < T.length(actions(e))), z3.Not(bad_action(actions(e)[N0])))},
                   raises={GypError: lambda e: some_bad(actions(e))}, cands=cands_actions)


def contracts():
    mk = lambda c: (lambda: Verifier({inspect.unwrap(c.fn): c}, models=M.PATHS))
    return [(c, mk(c)) for c in (TYPE, RUN, ACTIONS)]


# ------------------------------------------------------------------ bounded contract runs
def any_value(rng): return rng.choice([None, False, True, 0, 1, '', 'x', [], ['a'], {}, {'a': 1}, 'none', 'executable', [''], '0'])


MISSING = object()


def maybe(rng, d, k, *vs):
    v = rng.choice(vs)
    if v != '<no>': d[k] = v


def run_section(rng):
    d = {}
    maybe(rng, d, 'action', '<no>', [], ['a'], ['a', 'b'], ['a'], 'a b', {}, {'x': 1}, 0, None)
    maybe(rng, d, 'working_directory', '<no>', '<no>', '<no>', '', 'd', [], ['d'], 0, 1, {})
    maybe(rng, d, 'environment', '<no>', '<no>', '<no>', {}, {'A': 'b'}, [], ['A=b'], '', 'A', 0, 1)
    return rng.choice([d] * 12 + [[], ['a'], 'run', '', 0, 1, None, {}])


def bad_run_(r):
    if not r: return False
    if not isinstance(r, dict) or not r.get('action') or not isinstance(r['action'], list): return True
    return bool(r.get('working_directory')) and not isinstance(r['working_directory'], str) or bool(r.get('environment')) and not isinstance(r['environment'], dict)


def action(rng):
    d = {}
    maybe(rng, d, 'action_name', *['n'] * 6, 'm', '', '<no>', None)
    maybe(rng, d, 'inputs', *[['i']] * 6, [], '<no>', None)
    maybe(rng, d, 'action', *[['c', 'x']] * 6, ['c'], [], '<no>', [''], ['', 'c'], None, ['c', ''])
    maybe(rng, d, 'outputs', ['o'], '<no>')
    return d


def bad_action_(a): return not a.get('action_name') or a.get('inputs') is None or bool(a.get('action')) and not a['action'][0]


def rule(rng):
    d = {}
    maybe(rng, d, 'rule_name', *['r1', 'r2', 'r3', 'r4', 'r5', 'R1'] * 2, '<no>', '')
    maybe(rng, d, 'extension', *['x', '.x', 'y', '.y', 'z', 'x.y', '', '.', '..x', 'X', 'c', '.c'] * 2, '<no>')
    if rng.random() < .06: d['rule_sources'] = rng.choice([[], ['a.x'], None])
    return d


def cut(x): return x[1:] if x.startswith('.') else x


def bad_rules(l):
    if any('rule_name' not in r or 'extension' not in r or 'rule_sources' in r for r in l): return True
    return len({r['rule_name'] for r in l}) < len(l) or len({cut(r['extension']) for r in l}) < len(l)


def ext(p):
    """the last extension of the last component, without its dot; a name that starts with dots has none there"""
    b = p.split('/')[-1]
    s = b.lstrip('.')
    return s.split('.')[-1] if '.' in s else ''


SRC = ['a.x', 'b.y', 'd/a.x', 'c.x.y', 'noext', 'd.x/noext', '.x', 'e.', 'a.X', 'a.x', 'g.z', '..x', 'h.c', 'i..x']


def c_type(tier, rng):
    for t in TYPES + ('', 'Executable', None, 'static', [], 0, 'static_library '):
        for f in ('<no>', 0, 1, '', '1', '0', None, True): yield ('type', {**({} if t is None and rng.random() < .5 else {'type': t}), **({} if f == '<no>' else {'standalone_static_library': f}), 'target_name': 't'})
    while True:
        k = rng.choice(['run', 'action', 'rules', 'run', 'action', 'rules', 'rules'])
        d = {'target_name': 't', 'type': 'none'}
        if k == 'run': d['run_as'] = run_section(rng)
        if k == 'action':
            n = rng.randrange(6)
            good = {'action_name': 'g', 'inputs': [], 'action': ['c']}
            d['actions'] = [action(rng) if rng.random() < .4 else dict(good) for _ in range(n)]
            if rng.random() < .05: del d['actions']
        if k == 'rules':
            d['rules'] = [rule(rng) for _ in range(rng.randrange(5))]
            for s in ('sources', 'other', 'third'):
                if rng.random() < .7: d[s] = [rng.choice(SRC) for _ in range(rng.randrange(6))]
            if rng.random() < .05: del d['rules']
        yield (k, d)


def r_type(x):
    k, d = x
    d = copy.deepcopy(d)
    before = copy.deepcopy(d)
    if k == 'type':
        bad = d.get('type') not in TYPES or bool(d.get('standalone_static_library')) and d.get('type') != 'static_library'
        o = outcome(I.ValidateTargetType, 't', d)
    elif k == 'run':
        bad = bad_run_(d['run_as'])
        o = outcome(I.ValidateRunAsInTarget, 't', d, 'f')
    elif k == 'action':
        bad = any(map(bad_action_, d.get('actions', [])))
        o = outcome(I.ValidateActionsInTarget, 't', d, 'f')
    else:
        bad = bad_rules(d.get('rules', []))
        o = outcome(I.ValidateRulesInTarget, 't', d, ['other'])
    if bad: return None if o[0] == 'raise' else 'an invalid section was accepted'
    if o[0] == 'raise': return 'a valid section was rejected: %r' % (o,)
    if k == 'rules':
        for r in before.get('rules', []):
            m = [s for key in ('sources', 'other') for s in before.get(key, []) if ext(s) == cut(r['extension'])]
            if m: r['rule_sources'] = m
    return diff('the target afterwards', d, before)


def good_target(rng, n):
    d = {'target_name': 't%d' % n, 'type': rng.choice(TYPES)}
    if rng.random() < .5: d['actions'] = [{'action_name': 'a%d' % i, 'inputs': [], 'outputs': ['o%d' % i], 'action': ['c']} for i in range(rng.randrange(3))]
    if rng.random() < .5: d['rules'] = [{'rule_name': 'r%d' % i, 'extension': 'e%d' % i, 'outputs': ['o'], 'action': ['c']} for i in range(rng.randrange(3))]
    if rng.random() < .4: d['run_as'] = {'action': ['x'], 'environment': {'A': 'b'}, 'working_directory': 'd'}
    if rng.random() < .4: d['sources'] = ['a.e0', 'b.e1', 'c.c', 'd/e.e1']
    if d['type'] == 'static_library' and rng.random() < .4: d['standalone_static_library'] = 1
    if n and rng.random() < .4: d['dependencies'] = ['t%d' % rng.randrange(n)]
    return d


FAULTS = ['type', 'notype', 'standalone', 'rname', 'rext', 'norname', 'norext', 'rsources', 'aname', 'ainputs', 'aempty', 'run', 'runaction', 'runlist', 'rundir', 'runenv']


def spoil(rng, d, f):
    acts = lambda: d.setdefault('actions', [{'action_name': 'g', 'inputs': [], 'outputs': ['o'], 'action': ['c']}])
    rules = lambda: d.setdefault('rules', [{'rule_name': 'rg', 'extension': 'eg', 'outputs': ['o'], 'action': ['c']}])
    ins = lambda l, x: l.insert(rng.randrange(len(l) + 1), x)
    a = {'action_name': 'bad', 'inputs': [], 'outputs': ['ob'], 'action': ['c']}
    r = {'rule_name': 'bad', 'extension': 'bad', 'outputs': ['ob'], 'action': ['c']}
    if f == 'type': d['type'] = rng.choice(['exe', 'Executable', 'library', ''])
    if f == 'notype': del d['type']
    if f == 'standalone':
        d['standalone_static_library'] = 1
        if d['type'] == 'static_library': d['type'] = rng.choice(['shared_library', 'none', 'executable'])
    if f in ('rname', 'rext'):
        if not rules(): d['rules'].append(dict(r, rule_name='z', extension='z'))
        o = rng.choice(rules())
        if f == 'rname': r['rule_name'] = o['rule_name']
        else: r['extension'] = rng.choice(['.', '']) + o['extension']
        ins(rules(), r)
    if f == 'norname': del r['rule_name']; ins(rules(), r)
    if f == 'norext': del r['extension']; ins(rules(), r)
    if f == 'rsources': r['rule_sources'] = ['x']; ins(rules(), r)
    if f == 'aname': a.pop('action_name') if rng.random() < .5 else a.update(action_name=''); ins(acts(), a)
    if f == 'ainputs': del a['inputs']; ins(acts(), a)
    if f == 'aempty': a['action'] = ['', 'x']; ins(acts(), a)
    if f == 'run': d['run_as'] = rng.choice([['x'], 'x', 1])
    if f == 'runaction': d['run_as'] = {'working_directory': 'x'}
    if f == 'runlist': d['run_as'] = {'action': 'x y'}
    if f == 'rundir': d['run_as'] = {'action': ['x'], 'working_directory': ['d']}
    if f == 'runenv': d['run_as'] = {'action': ['x'], 'environment': ['A=b']}


def c_project(tier, rng):
    while True:
        ts = [good_target(rng, i) for i in range(rng.randrange(1, 5))]
        f = rng.choice([None] + FAULTS * 2)
        if f: spoil(rng, rng.choice(ts), f)
        yield (ts, f, rng.random() < .3, rng.random() < .3)


def r_project(x):
    ts, f, two, cond = x
    ts = copy.deepcopy(ts)
    if cond:                   # the faulty section arrives through a condition
        for t in ts:
            c = {k: t.pop(k) for k in ('actions', 'rules', 'run_as') if k in t}
            if c: t['conditions'] = [['OS=="linux"', c]]
    if two:
        for t in ts: t['toolsets'] = ['target', 'host']
    o = load({'p.gyp': {'targets': ts}}, toolsets=True)
    if f: return None if o[0] == 'raise' else 'a project with the fault %r was accepted' % f
    if o[0] == 'raise': return 'a project without a fault was rejected: %r' % (o,)
    for t in ts:
        u = o[1].targets['p.gyp:%s#target' % t['target_name']]
        c = t['conditions'][0][1] if 'conditions' in t else {}
        for k in ('actions', 'run_as'):
            w = t.get(k, c.get(k))
            g = u.get(k)
            if k == 'actions' and w is not None: g, w = [a['action_name'] for a in g], [a['action_name'] for a in w]
            if g != w: return 'the section %s became %r' % (k, g)
        if [r['rule_name'] for r in u.get('rules', [])] != [r['rule_name'] for r in t.get('rules', c.get('rules', []))]: return 'the rules became %r' % (u.get('rules'),)
        for r in u.get('rules', []):
            m = diff('the sources of rule %s' % r['rule_name'], r.get('rule_sources', []), [s for s in t.get('sources', []) if s.endswith('.' + r['extension'])])
            if m: return m


def bounded():
    return [Bounded('sections', c_type, r_type, 'all target types with all flags, random run, action and rule sections with and without faults', budget=(7, 60)),
            Bounded('project', c_project, r_project, 'whole projects of up to 4 targets loaded with at most one of 16 faults, in any target, toolset or condition', budget=(8, 80))]


META = dict(level='other', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='ValidateTargetType, ValidateRunAsInTarget and ValidateActionsInTarget are proved: they return exactly when the specification has no fault and raise GypError exactly when it has one, for lists of any length. '
                 'ValidateRulesInTarget (which changes a rule it also keeps in a table) and the calls from Load are bounded.',
            assumptions=['section values are build data (None, booleans, integers, strings, lists, dictionaries), the command of an action is a list of strings'])
