"""J05 The command line is split into commands with their own arguments."""
import os, re, subprocess, json, sys
from vlib.base import *
setup_path()
from vlib import jsrun
import z3
from vlib.jsc import *
from vlib import jsc as JC

COMMANDS = ['build', 'clean', 'configure', 'rebuild', 'install', 'list', 'remove']
ALIASES = {'ls': 'list', 'rm': 'remove'}
WORDS = ['foo', 'v1.2.3', 'Build', 'x y', 'a=b', 'builds', 'clean/', './configure', 'toString', 'constructor', '__proto__', 'hasOwnProperty', 'help', '1', 'lsx',
         'valueOf', 'é']
# tokens, words left among the arguments
OPTS = [(['--debug'], {'debug': True}), (['--release'], {'debug': False}), (['--no-debug'], {'debug': False}), (['-j', '4'], {'jobs': '4'}), (['--jobs=8'], {'jobs': '8'}), (['--jobs', 'max'], {'jobs': 'max'}),
        (['--python=/x/y'], {'python': '/x/y'}), (['--target=1.2.3'], {'target': '1.2.3'}), (['--my_flag=on'], {'my_flag': 'on'}), (['--nodedir', 'build'], {'nodedir': 'build'}),
        (['-C', 'clean'], {'directory': 'clean'}), (['--silent'], {'loglevel': 'silent'}), (['--ensure'], {'ensure': True}), (['--make=install'], {'make': 'install'})]
ENVS = [{}, {}, {'npm_config_foo': 'bar'}, {'npm_config_': 'x'}, {'npm_config_a_b_c': '1', 'npm_config_jobs': '2'}, {'npm_config_loglevel': 'silent'},
        {'NPM_CONFIG_UPPER': 'x', 'xnpm_config_y': 'z'}, {'npm_config_argv': '{"remain":["clean"]}'}, {'npm_config_force_process_config': 'true'}, {'npm_config__x': 'v'}]


def expected(words):
    todo, cur = [], None
    for w in words:
        w = ALIASES.get(w, w)
        if w in COMMANDS:
            cur = {'name': w, 'args': []}
            todo.append(cur)
        elif cur is not None: cur['args'].append(w)
    return todo


def lines(tier, rng):
    pool = COMMANDS + list(ALIASES) + WORDS
    for a in pool:
        yield ([('w', a)], {})
        for b in pool: yield ([('w', a), ('w', b)], {})
    for a in COMMANDS + ['ls']:
        for w in WORDS: yield ([('w', a), ('w', w), ('w', a), ('w', w), ('w', w)], {})
    for e in ENVS:
        yield ([('w', 'configure'), ('w', 'x')], e)
    while True:
        n = rng.choice([3, 4, 5, 6, 8, 12])
        items = []
        for _ in range(n):
            r = rng.random()
            if r < .45: items.append(('w', rng.choice(COMMANDS + list(ALIASES))))
            elif r < .85: items.append(('w', rng.choice(WORDS)))
            else:
                o = rng.randrange(len(OPTS))
                if not any(k == 'o' and set(OPTS[v][1]) & set(OPTS[o][1]) for k, v in items): items.append(('o', o))
        if rng.random() < .2:
            items.append(('d', [rng.choice(pool + ['--debug', '-j']) for _ in range(rng.randrange(4))]))
        yield (items, rng.choice(ENVS))


def run_line(x):
    items, env = x
    argv, words, opts = [], [], {}
    for k, v in items:
        if k == 'w':
            argv.append(v)
            words.append(v)
        elif k == 'd':
            argv += ['--'] + v
            words += v
        else:
            argv += OPTS[v][0]
            opts.update(OPTS[v][1])
    try: r = jsrun.call('parse', {'argv': argv, 'env': env})
    except jsrun.JSError as ex: return 'parseArgv(%r) failed: %s' % (argv, str(ex)[:200])
    want = expected(words)
    if r['todo'] != want: return 'node-gyp %s\nread as %r\nexpected %r' % (' '.join(map(repr, argv)), r['todo'], want)
    for k, v in env.items():
        if k.startswith('npm_config_') and len(k) > 11 and k != 'npm_config_loglevel': opts[k[11:].replace('_', '-')] = v
    got = dict(r['opts'])
    if 'argv' not in opts: got.pop('argv', None)
    if got != opts: return 'node-gyp %s, environment %r\noptions %r\nexpected %r' % (' '.join(map(repr, argv)), env, got, opts)


class Thing:
    def __init__(self, **k): self.__dict__.update(k)


def run_text(x):
    """The extracted text that the contract is about, run by Python, does what the program does."""
    items, env = x
    argv = [t for k, v in items for t in ([v] if k == 'w' else ['--'] + v if k == 'd' else OPTS[v][0])]
    m = gyp_module()
    raw = jsrun.call('nopt', {'argv': argv})
    real = jsrun.call('parse', {'argv': argv, 'env': env})
    g = Thing(commands={c: c for c in raw['commands']}, aliases=dict(raw['aliases']), configDefs={}, shorthands={}, todo=None)
    f = m.fn('Gyp.parseArgv')
    ns = f.__globals__
    keep = {k: ns.get(k) for k in ('nopt', 'process')}
    ns.update(nopt=lambda *a: raw['found'], process=Thing(env=env))
    try: f(g, ['node', 'node-gyp'] + argv)
    finally: ns.update(keep)
    return diff('todo of %r, %r' % (argv, env), g.todo, real['todo']) or diff('options of %r, %r' % (argv, env), g.opts, real['opts'])


def rebuilds(tier, rng):
    for args in ([], ['x'], ['a', 'b'], ['clean'], ['rebuild', 'v1']):
        for todo in ([], [{'name': 'list', 'args': []}], [{'name': 'install', 'args': ['1']}, {'name': 'list', 'args': []}]): yield (args, todo)


def run_rebuild(x):
    args, todo = x
    try: got = jsrun.call('rebuild', {'args': args, 'todo': todo})
    except jsrun.JSError as ex: return 'rebuild failed: ' + str(ex)[:200]
    want = todo + [{'name': 'clean', 'args': []}, {'name': 'configure', 'args': args}, {'name': 'build', 'args': []}]
    return diff('todo after rebuild %r' % (args,), got, want)


PRELOAD = r'''
const path = require('path'), Module = require('module')
const repo = process.env.T_REPO
const fs = require('fs')
for (const c of ['build', 'clean', 'configure', 'install', 'list', 'remove']) {
  const f = path.join(repo, 'lib', c + '.js')
  const m = new Module(f)
  m.filename = f; m.loaded = true
  m.exports = async (gyp, argv) => { await new Promise((r) => setTimeout(r, c === 'clean' ? 15 : 1)); fs.appendFileSync(process.env.T_OUT, JSON.stringify([c, argv]) + '\n'); if (process.env.T_FAIL === c) throw new Error('stop'); return [] }
  m.exports.usage = ''
  require.cache[f] = m
}
'''


def programs(tier, rng):
    yield (['rebuild', 'x', 'y'], '')
    yield (['clean', 'configure', 'a', 'build', 'b'], '')
    yield (['rebuild', 'a', 'list'], '')
    yield (['foo', 'clean', 'configure', 'q'], 'clean')
    yield (['rebuild'], 'configure')
    yield (['ls', 'rm', '1.2.3', 'install'], '')
    while True:
        n = rng.randrange(1, 6)
        yield ([rng.choice(COMMANDS + ['ls', 'rm'] + WORDS[:6]) for _ in range(n)], rng.choice(['', '', '', 'clean', 'build', 'configure']))


def run_program(x):
    """The commands the real program runs, in order, with their arguments."""
    argv, fail = x
    todo = expected(argv)
    if not todo: return None
    want, code = [], 0
    while todo:
        c = todo.pop(0)
        if c['name'] == 'rebuild':
            todo += [{'name': 'clean', 'args': []}, {'name': 'configure', 'args': c['args']}, {'name': 'build', 'args': []}]
            continue
        want.append([c['name'], c['args']])
        if c['name'] == fail:
            code = 1
            break
    with scratch() as d:
        open(os.path.join(d, 'pre.js'), 'w').write(PRELOAD)
        env = {k: v for k, v in os.environ.items() if not k.lower().startswith('npm_config')}
        env.update(NODE_PATH=jsrun.node_path(), T_REPO=os.path.realpath(jsrun.REPO), T_OUT=os.path.join(d, 'out'), T_FAIL=fail, HOME=d)
        p = subprocess.run(['node', '-r', os.path.join(d, 'pre.js'), os.path.join(os.path.realpath(jsrun.REPO), 'bin', 'node-gyp.js')] + argv,
                           env=env, cwd=d, capture_output=True, text=True, timeout=20)
        got = [json.loads(l) for l in open(os.path.join(d, 'out'))] if os.path.exists(os.path.join(d, 'out')) else []
    if got != want: return 'node-gyp %s (%s fails)\nran %r\nexpected %r\n%s' % (argv, fail or 'nothing', got, want, p.stderr[-300:])
    if p.returncode != code: return 'node-gyp %s ended with %r, expected %r' % (argv, p.returncode, code)


def bounded():
    return [
        Bounded('command lines', lines, run_line, 'all one- and two-word command lines over the commands, aliases and 17 other words; random lines of up to 12 items with options of known shape, -- and npm_config variables', budget=(20, 200)),
        Bounded('rebuild', rebuilds, run_rebuild, 'the list of commands after rebuild, for 15 lists', budget=(10, 10)),
        Bounded('program', programs, run_program, 'the real program run with recording commands, for random command lines of up to 5 words', per=25, budget=(15, 120)),
    ]


# ------------------------------------------------------------------ contracts on the extracted text (pyvc/js.py)

WORDS_OF = uf('nopt_words', V, V, V, T.SeqV)           # the words that are no options, as nopt finds them


def nopt(configDefs, shorthands, argv): """the library that reads options"""


OPTS_T = TDict(Any, {'argv': (TDict(Any, {'remain': (TList(StrT), True)}), True)})
NOPT = Contract('nopt', nopt, {'configDefs': Any, 'shorthands': Any, 'argv': TList(StrT)}, ret=OPTS_T, trusted=True,
                ensures=lambda e: {'words': T.acc('items', T.dget(T.dget(e.rv, T.sv('argv')), T.sv('remain'))) == WORDS_OF(e['configDefs'], e['shorthands'], V.ListV(e['argv']))})
GYP = {'opts': OPTS_T, 'argv': TList(StrT), 'todo': TList(TDict(Any, {'name': (StrT, True), 'args': (TList(StrT), True)})), 'commands': TDict(Any), 'aliases': TDict(StrT),
       'configDefs': Any, 'shorthands': Any}
PROC = {'env': TDict(StrT)}


def cmd(c, w): return T.dhas(c, T.acc('s', w))


# the specification: every command word begins a command, every other word is an argument of the last command, or dropped
def more(l, w):
    last = l[T.length(l) - 1]
    return with_args(l, T.concat(T.acc('items', T.dget(last, T.sv('args'))), T.unit(w)))


def entry(w, args): return T.dset(T.dset(T.EMPTY_DICT, T.sv('name'), w), T.sv('args'), V.ListV(args))


def with_args(l, args):
    n = T.length(l)
    return T.ite(n > 0, T.concat(T.take(l, n - 1), T.unit(T.dput(T.nth(l, n - 1), T.sv('args'), V.ListV(args)))), l)


ALIASED = T.Fold('aliased', lambda a: T.empty(), lambda acc, w, p, a: T.concat(acc, T.unit(T.ite(T.dhas(a, T.acc('s', w)), T.dget(a, T.acc('s', w)), w))), T.SeqV, (V,))
SPLIT = T.Fold('split', lambda c: T.empty(), lambda acc, w, p, c: T.ite(cmd(c, w), T.concat(acc, T.unit(entry(w, T.empty()))), more(acc, w)), T.SeqV, (V,))
SINCE = T.Fold('words_since', lambda c: T.empty(), lambda acc, w, p, c: T.ite(cmd(c, w), T.empty(), T.concat(acc, T.unit(w))), T.SeqV, (V,))
CLOSED = T.Fold('closed', lambda c: T.empty(), lambda acc, w, p, c: T.ite(cmd(c, w), T.concat(with_args(acc, SINCE(p, c)), T.unit(entry(w, T.empty()))), acc), T.SeqV, (V,))


def cands(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    g = lambda n: T.aselect(lv.st.fields[('fld', 'Gyp', n)], lv.eng.entry['self'])
    out['todo'] = g('todo') == V.ListV(CLOSED(lv.done, g('commands')))
    for n, q in lv.lists():
        if q.sort() != T.SeqV: continue
        out['aliased:' + n] = q == ALIASED(lv.done, g('aliases'))
        out['rest:' + n] = q == T.concat(SINCE(lv.done, g('commands')), T.drop(lv.seq, T.length(lv.done)))
    return out


def since_has_no_command(a, c, x): return z3.Implies(T.member(SINCE(a, c), x), z3.Not(cmd(c, x)))


def next_is(l, n):
    """the rest of a list from n is the element there, and the rest from n + 1"""
    return z3.Implies(z3.And(n >= 0, n < T.length(l)), T.drop(l, n) == T.concat(T.unit(l[n]), T.drop(l, n + 1)))


def loop_facts(lv):
    if lv.done is None or lv.done.sort() != T.SeqV: return []
    c = T.aselect(lv.st.fields[('fld', 'Gyp', 'commands')], lv.eng.entry['self'])
    n = T.length(lv.done)
    out = [since_has_no_command(lv.done, c, lv.seq[n]), next_is(lv.seq, n)]
    for m, q in lv.lists():
        f = first_is(q, SINCE(lv.done, c), lv.seq[n])
        if not any(f.eq(g) for g in out): out.append(f)
    return out


def gyp_module():
    return JC.module('lib/node-gyp.js', stubs={'nopt': nopt, 'process': object()})


def parse_argv():
    m = gyp_module()
    me = lambda e, n, final=False: T.aselect(e.fld('Gyp', n, final), e['self'])
    def words(e): return ALIASED(WORDS_OF(me(e, 'configDefs'), me(e, 'shorthands'), V.ListV(e['argv'])), me(e, 'aliases'))
    def ens(e):
        al, c = words(e), me(e, 'commands')
        return {'commands-with-their-arguments': me(e, 'todo', True) == V.ListV(SPLIT(al, c))}
    return Contract('Gyp.parseArgv', m.fn('Gyp.parseArgv'), {'self': TObj('Gyp'), 'argv': TList(StrT)}, ensures=ens, cands=cands, loop_facts=loop_facts, facts=lambda e: [one_pass(words(e), me(e, 'commands'))],
                    fields=[('Gyp', 'opts'), ('Gyp', 'argv'), ('Gyp', 'todo')], globs={'process': TObj('Process')})


def one_pass(s, c): return SPLIT(s, c) == with_args(CLOSED(s, c), SINCE(s, c))


def is_member(l, i): return z3.Implies(z3.And(i >= 0, i < T.length(l)), T.member(l, l[i]))


def lem_split():
    p, x, c = z3.Const('p', T.SeqV), z3.Const('x', V), z3.Const('c', V)
    px = T.concat(p, T.unit(x))
    return [('none', [], one_pass(T.empty(), c)), ('one-more', [one_pass(p, c)], one_pass(px, c))]


def lem_since():
    p, x, c, y = z3.Const('p', T.SeqV), z3.Const('x', V), z3.Const('c', V), z3.Const('y', V)
    return [('none', [], since_has_no_command(T.empty(), c, y)), ('one-more', [since_has_no_command(p, c, y)], since_has_no_command(T.concat(p, T.unit(x)), c, y))]


def lem_lists():
    l, a, x, n, y = z3.Const('l', T.SeqV), z3.Const('a', T.SeqV), z3.Const('x', V), z3.Int('n'), z3.Const('y', V)
    i = FIRST(l, x)
    m = T.length(a)
    what = [z3.Or(z3.And(i == -1, z3.Not(T.member(l, x))), z3.And(i >= 0, i < T.length(l), l[i] == x, z3.Not(T.member(T.take(l, i), x))))]
    return [('rest', [], next_is(l, n)), ('member-none', [], is_member(T.empty(), n)),
            ('member-one-more', [is_member(l, n)], is_member(T.concat(l, T.unit(y)), n)),
            ('first', what + [is_member(l, m), is_member(a, i), is_member(T.take(l, i), m)], first_is(l, a, x))]


def rebuild():
    """clean, then configure with the same arguments, then build, behind whatever is still to be done"""
    m = JC.module('lib/rebuild.js', objects=('gyp',))
    old = lambda e, final=False: T.acc('items', T.aselect(e.fld('Gyp', 'todo', final), e['gyp']))
    return Contract('rebuild', m.fn('rebuild'), {'gyp': TObj('Gyp'), 'argv': TList(StrT)}, fields=[('Gyp', 'todo')], modifies=['argv'],
                    ensures=lambda e: {'three-commands': old(e, True) == T.concat(old(e), T.seq_of([entry(V.StrV(T.sv('clean')), T.empty()), entry(V.StrV(T.sv('configure')), e['argv']), entry(V.StrV(T.sv('build')), T.empty())]))})


def contracts():
    c, r = parse_argv(), rebuild()
    mk = engine([NOPT, c], {'Gyp': GYP, 'Process': PROC})
    return [(c, mk), (r, mk), (JC.Faithful('parseArgv as extracted', lines, run_text), mk)] + [(Lemma(n, l), mk) for n, l in (('one-pass', lem_split), ('no-command-since-the-last', lem_since), ('lists', lem_lists))]


META = dict(level='proof', technique='contracts on the text extracted mechanically from lib/node-gyp.js and lib/rebuild.js: parseArgv leaves exactly the commands with their own arguments, rebuild adds clean, configure, build; '
                                     'a bounded check of the same and of the program run',
            note='assumed: nopt finds the words, a function of what it is given; the extraction from JavaScript (pyvc/js.py), compared with node on thousands of inputs each run; the order in which bin/node-gyp.js runs the commands is bounded only')
