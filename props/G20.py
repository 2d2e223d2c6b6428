"""G20 Command-line settings survive regeneration."""
import copy
import os
import shlex
import types
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.call import uf
from pyvc.expr import st_term
from vlib import models as M
import gyp
import gyp.common as C

V = T.V
EQ = T.sv('=')
PARSES, NUMBER = uf('int_parses', T.String, T.Bool), uf('int_value', T.String, T.Int)


# ------------------------------------------------------------------ spec
def name(x): return z3.If(z3.Contains(x, EQ), uf('split_before', T.String, T.String, T.String)(x, EQ), x)      # defined by: before + '=' + after == x, no '=' in before


def value(x):
    v = uf('split_after', T.String, T.String, T.String)(x, EQ)
    return z3.If(z3.Contains(x, EQ), z3.If(PARSES(v), V.IntV(NUMBER(v)), V.StrV(v)), V.BoolV(z3.BoolVal(True)))


settings = T.Fold('settings', lambda: T.EMPTY_DICT, lambda acc, x, p: T.dset(acc, name(T.acc('s', x)), value(T.acc('s', x))), V)


def cands_nv(lv):
    if lv.done is None: return {}
    return {'table:' + n: d == settings(lv.done) for n, d, loc in lv.kinds('dict')}


def cuts(lv): return []


NV = Contract('NameValueListToDict', gyp.NameValueListToDict, {'name_value_list': TList(StrT)}, ret=TDict(Any),
              ensures=lambda e: {'later-ones-win': e.rv == settings(e['name_value_list'])}, cands=cands_nv)


def reads_as(flag, opt):
    """(is one word, value) of a flag as argparse reads it"""
    o = z3.Concat(opt, EQ)
    eq = z3.PrefixOf(o, flag)
    return (z3.And(z3.PrefixOf(opt, flag), z3.Or(eq, z3.And(z3.Length(opt) == 2, z3.Length(flag) > 2))),
            z3.If(eq, z3.SubString(flag, z3.Length(o), z3.Length(flag) - z3.Length(o)), z3.SubString(flag, z3.Length(opt), z3.Length(flag) - z3.Length(opt))))


def is_opt(o): return z3.And(z3.Not(z3.Contains(o, EQ)), z3.Or(z3.PrefixOf(T.sv('--'), o), z3.Length(o) == 2))


def fmt_ok(e):
    one, v = reads_as(e.r, e['opt'])
    return {'one-word': one, 'reads-back': v == e['value']}


FORMAT = uf('format_opt', T.String, T.String, T.String)      # the flag FormatOpt makes
FMT = Contract('FormatOpt', gyp.FormatOpt, {'opt': StrT, 'value': StrT}, ret=StrT, requires=lambda e: [is_opt(e['opt'])], ensures=fmt_ok, facts=lambda e: [e.r == FORMAT(e['opt'], e['value'])])

# ShlexEnv: the words of the variable, or none
ENV, SET, WORDS = uf('environ', T.String, T.String), uf('environ_has', T.String, T.Bool), uf('shlex_words', T.String, T.SeqV)


def split_words(eng, st, args, kw, node):
    eng.assumed.add('shlex.split is a pure function (it reads a well formed text; ValueError otherwise)')
    out = []
    for s, n in eng.force(st, args[0]):
        t = WORDS(st_term(n))
        out.append((s, Exc(ValueError)))
        out.append(eng.new_root(s, 'v', V.ListV(t), TList(StrT)))
    return out


def env_words(n): return T.ite(z3.And(SET(n), ENV(n) != T.sv('')), WORDS(ENV(n)), T.empty())


SHLEX = Contract('ShlexEnv', gyp.ShlexEnv, {'env_name': StrT}, ret=TUnion(StrT, TList(StrT)), raises={ValueError: None},
                 ensures=lambda e: {'words': z3.If(T.tester('ListV', e.rv), T.acc('items', e.rv) == env_words(e['env_name']), z3.And(e.rv == T.S(''), env_words(e['env_name']) == T.empty()))})      # an empty text has no words either
PRED = uf('predicate', T.String, T.String)


def predicate(eng, st, f, args, kw):
    return [(s, Sc(PRED(st_term(v)), StrT)) for s, v in eng.force(st, args[0])]


def flag_of(flag, x): return V.StrV(FORMAT(flag, PRED(T.acc('s', x))))


REMOVE = uf('remove_first_', T.SeqV, V, T.SeqV)
plain_flags = T.Fold('plain_flags', lambda flag: T.empty(), lambda acc, x, p, flag: T.concat(acc, T.unit(flag_of(flag, x))), T.SeqV, (T.String,))
# of equal ones the last is kept
last_flags = T.Fold('last_flags', lambda flag: T.empty(), lambda acc, x, p, flag: T.concat(T.ite(T.member(acc, flag_of(flag, x)), REMOVE(acc, flag_of(flag, x)), acc), T.unit(flag_of(flag, x))), T.SeqV, (T.String,))


def cands_append(lv):
    out = {}
    if lv.done is None: return out
    for n, q in lv.lists():
        for m, fl in lv.scalars(TStr):
            if z3.is_string_value(fl): continue
            out['last:%s:%s' % (n, m)] = q == last_flags(lv.done, fl)
            v0 = lv.value(n, lv.entry)
            if isinstance(v0, Loc): out['then:%s:%s' % (n, m)] = q == T.concat(lv.eng.items(lv.entry, v0), plain_flags(lv.done, fl))
    return out


def want_flags(e):
    vs = e.val('values')
    env = e.val('env_name')
    use = z3.And(T.aselect(e.fld('Options', 'use_environment'), e['options']) == V.BoolV(z3.BoolVal(True)), T.tester('StrV', env), T.acc('s', env) != T.sv(''))
    w, given = env_words(T.acc('s', env)), T.acc('items', vs)
    return T.concat(T.ite(use, last_flags(w, e['flag']), T.empty()), T.ite(T.tester('ListV', vs), plain_flags(given, e['flag']), T.empty()))


class Options: pass


APPEND = Contract('RegenerateAppendFlag', gyp.RegenerateAppendFlag, {'flag': StrT, 'values': Opt(TList(StrT)), 'predicate': TFun(predicate), 'env_name': Opt(StrT), 'options': TObj('Options')}, ret=TList(StrT),
                  requires=lambda e: [is_opt(e['flag'])] + [f.f(T.empty(), e['flag']) == T.empty() for f in (plain_flags, last_flags)] + [uf('chars_', T.String, T.SeqV)(T.sv('')) == T.empty()], ensures=lambda e: {'environment-then-command-line': e.rs() == want_flags(e)}, raises={ValueError: None}, cands=cands_append)


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, models={**M.PATHS, shlex.split: split_words}, classes={'Options': {'use_environment': BoolT}}, class_objs={'Options': Options}))
    return [(NV, mk(NV)), (FMT, mk(FMT)), (SHLEX, mk(SHLEX)), (APPEND, mk(APPEND, FMT, SHLEX))]
# ------------------------------------------------------------------ bounded contract runs
import argparse
NAMES = ['a', 'b', 'C', 'target_arch', 'x-y', 'é', 'a.b', 'A', '-n', 'a b']
VALUES = ['', '0', '1', '12', '-3', '007', '-0', '1.5', 'x', 'a=b', '=', 'a b', '"q"', "it's", 'é', '-x', '--y=z', '1x', 'x1', '0x10', '1e3', 'True', '$HOME', '\\', 'a\\b', '#c', '99999999999999999999', '- 1', '+', '-', 'path/to', '1,2', 'a;b', '*']
DEC = __import__('re').compile(r'-?[0-9]+\Z')


def decimal(v): return int(v) if DEC.match(v) else v


def setting(rng): return rng.choice(NAMES[:4] + NAMES) + rng.choice(['', '=' + rng.choice(VALUES), '=' + rng.choice(VALUES)])


def table(l):
    d = {}
    for x in l:
        n, eq, v = x.partition('=')
        d[n] = decimal(v) if eq else True
    return d


def c_table(tier, rng):
    for n in NAMES:
        for v in VALUES: yield [n + '=' + v]
        yield [n]
    while True: yield [setting(rng) for _ in range(rng.randrange(8))]


def typed(d): return {k: (type(v), v) for k, v in d.items()}


def r_table(l):
    src = list(l)
    got = gyp.NameValueListToDict(src)
    return diff('the settings', typed(got), typed(table(l))) or diff('the argument', src, l)


ODD = ['', '=', '==', '=x', 'x', 'x=', 'a=b', '-x', '--x', '-', 'a b', '-D', 'é', '\n', 'x' * 40, '=-', '\\', '"', "'"]


def c_format(tier, rng):
    for o in ('-D', '-x', '--long', '--a-b'):
        for v in ODD: yield (o, v)
    while True: yield (rng.choice(['-D', '-I', '--depth']), ''.join(rng.choice('ab=- \t\'"\\é0') for _ in range(rng.randrange(8))))


def r_format(x):
    opt, v = x
    p = argparse.ArgumentParser()
    p.add_argument(opt, dest='v', action='append')
    p.add_argument('-z', action='append')
    flag = gyp.FormatOpt(opt, v)
    try:
        with quiet(): got, rest = p.parse_known_args(['-zq', flag, '-zr', 'word'])
    except SystemExit: return 'the flag %r is not accepted' % flag
    return diff('the value of %r' % flag, (got.v, got.z, rest), ([v], ['q', 'r'], ['word']))


class Stop(Exception): pass


class Gen:
    @staticmethod
    def GenerateOutput(*a): pass
    @staticmethod
    def PerformBuild(data, configs, params): Gen.built = configs


def run(args, env, cwd, many=False):
    """what a run of gyp is asked to do: everything its generator and loader are given"""
    seen = []

    def load(build_files, format, default_variables={}, includes=[], depth='.', params=None, check=False, circular_check=True):
        o = params['options']
        seen.append(dict(build_files=[os.path.realpath(b) for b in build_files], format=format, variables=typed(default_variables), generator_flags=typed(params['generator_flags']),
                         includes=[os.path.realpath(i) for i in includes], depth=os.path.realpath(depth), check=bool(check), toplevel=os.path.realpath(o.toplevel_dir), output=o.generator_output and os.path.realpath(o.generator_output),
                         suffix=o.suffix, roots=params['root_targets'] or [], home=params['home_dot_gyp'] and os.path.realpath(params['home_dot_gyp']), configs=o.configs or [], options=o))
        return [Gen, ['t'], {'t': {'configurations': {'Debug': {}, 'Release': {}}}}, {}]
    old, olddir, oldload, olddebug = dict(os.environ), os.getcwd(), gyp.Load, dict(gyp.debug)
    for k in list(os.environ):
        if k.startswith('GYP_'): del os.environ[k]
    os.environ.update(env)
    os.chdir(cwd)
    for f in vars(C).values():
        if type(f).__name__ == 'memoize': f.cache.clear()       # a run of gyp does not change its working directory
    gyp.Load = load
    try:
        try:
            with quiet(): gyp.gyp_main(list(args))
        except SystemExit as ex: return ('raise', 'SystemExit', str(ex)), None
        flags = None
        if seen:
            with quiet(): flags = gyp.RegenerateFlags(seen[0]['options'])
            seen[0]['debug'] = sorted(set(gyp.debug) - set(olddebug))
    finally:
        gyp.Load = oldload
        gyp.debug.clear(), gyp.debug.update(olddebug)
        os.chdir(olddir)
        os.environ.clear(), os.environ.update(old)
    if many: return ('ok', seen), None
    if len(seen) != 1: return ('raise', 'runs', len(seen)), None
    del seen[0]['options']
    return ('ok', seen[0]), flags


PATHS_ = ['.', 'src', './src', 'src/', 'src/sub', '../w', '../other', 'src/../src', '/', 'ABS/other', 'ABS/w/src', 'a b', 'é', '=eq', '-dash']


def c_main(tier, rng):
    while True:
        args, env = [], {}
        for _ in range(rng.randrange(7)):
            k = rng.choice(['-D', '-D', '-D', '-G', '-G', '-I', '-I', '-S', '-R', '--check', '-d', '--build', '--generator-output', '--toplevel-dir', '--config-dir', '--include', '--suffix', '--root-target'])
            if k in ('-D', '-G'): args += rng.choice([[k, setting(rng)], [k + setting(rng)]])
            elif k in ('-I', '--include'): args.append(k + '=' * (k != '-I') + rng.choice(['inc.gypi', 'src/x.gypi', 'ABS/i.gypi', '../up.gypi', 'a b.gypi', './src/../y.gypi']))
            elif k in ('-S', '--suffix'): args.append(k + rng.choice(['=', '=='] if k == '-S' else ['=']) + rng.choice(['.x', '-y', '=z', 'a b', '']))
            elif k == '--check': args.append(k)
            elif k == '-d': args.append(k + rng.choice(['variables', 'includes', 'x y']))
            elif k == '--build': args.append('--build=' + rng.choice(['Debug', 'Release']))
            elif k in ('-R', '--root-target'): args += [k, rng.choice(['t', 'a.gyp:x', 'lib y', 'é'])]
            else: args.append(k + '=' + rng.choice(PATHS_))
        args.append('--depth=' + rng.choice(PATHS_[:12]))
        # only words that argparse takes as values
        if any(w.startswith('-') and p in ('-D', '-G', '-R', '--root-target') for p, w in zip(args, args[1:])): continue
        if rng.random() < .6: env['GYP_DEFINES'] = rng.choice([shlex.join([setting(rng) for _ in range(rng.randrange(5))]), 'a=1 b=2 a=1', ' a=1  b="x y" ', "a='1' a=2 a=1 c"])
        if rng.random() < .5: env['GYP_GENERATOR_FLAGS'] = rng.choice([shlex.join([setting(rng) for _ in range(rng.randrange(5))]), 'a=1 b a=2 a=1'])
        if rng.random() < .4: env['GYP_GENERATOR_OUTPUT'] = rng.choice(PATHS_)
        if rng.random() < .3: env['GYP_CONFIG_DIR'] = rng.choice(['ABS/home', 'ABS/none', 'ABS/w'])
        if rng.random() < .2: args.append('--ignore-environment')
        rng.random() < .5 and rng.shuffle(args) if not any(a in ('-D', '-G', '-R', '--root-target') for a in args) else None
        yield (args, env, rng.choice([{}, {}, {'GYP_DEFINES': 'a=9 zz=1', 'GYP_GENERATOR_FLAGS': 'b=9', 'GYP_GENERATOR_OUTPUT': 'wrong', 'GYP_CONFIG_DIR': '/'}, 'same']))


def r_main(x):
    args, env, env2 = x
    with scratch() as d:
        d = os.path.realpath(d)
        w = os.path.join(d, 'w')
        for p in ('w/src/sub', 'other', 'home', 'w/a b', 'w/é', 'w/=eq', 'w/-dash'): os.makedirs(os.path.join(d, p))
        open(os.path.join(d, 'home', 'include.gypi'), 'w').close()
        fix = lambda t: t.replace('ABS', d)
        args, env = [fix(a) for a in args], {k: fix(v) for k, v in env.items()}
        env2 = env if env2 == 'same' else env2
        first, flags = run(['-fmake'] + args + ['b.gyp'], dict(env, HOME=d), w)
        if first[0] == 'raise': return None if first[1] == 'SystemExit' else 'the first run: %r' % (first,)
        f = first[1]
        ignore = '--ignore-environment' in args
        words = lambda k: [] if ignore else shlex.split(env.get(k, ''))

        def given(k):
            out, i = [], 0
            while i < len(args):
                a = args[i]
                if a == k:
                    out.append(args[i + 1])
                    i += 1
                elif a.startswith(k) and not a.startswith('--'): out.append(a[len(k):])
                i += 1
            return out
        m = diff('the variables', f['variables'], typed(table(words('GYP_DEFINES') + given('-D')))) or diff('the generator flags', f['generator_flags'], typed(table(words('GYP_GENERATOR_FLAGS') + given('-G'))))
        if m: return m
        out = [a.split('=', 1)[1] for a in args if a.startswith('--generator-output=')]
        o = (out[-1] if out else '') or ('' if ignore else env.get('GYP_GENERATOR_OUTPUT', ''))
        m = diff('the output directory', f['output'] or None, os.path.realpath(os.path.join(w, o)) if o else None)
        if m: return m
        # the recorded flags are used from the depth directory, the files are named as before
        second, again = run(['-fmake'] + flags + [os.path.join(w, 'b.gyp')], dict(env2, HOME='/nonexistent' if f['home'] is None else d), f['depth'])
        if second[0] == 'raise': return 'the regenerated flags %r: %r' % (flags, second)
        home = [a for a in args if a.startswith('--config-dir')] or env.get('GYP_CONFIG_DIR')      # relative config directories, and those of the environment of the user, are out of scope
        for k in f:
            if k in ('home', 'includes') and home: continue
            if k == 'home' and f[k] is not None and not ignore: continue
            m = diff('%s after regeneration with %r' % (k, flags), second[1][k], f[k])
            if m: return m


def bounded():
    return [Bounded('table', c_table, r_table, 'every single setting of 10 names and 34 values, random lists of up to 8', budget=(5, 40)),
            Bounded('format', c_format, r_format, 'flags of 4 options with 19 kinds of odd values and random values, read by argparse', budget=(5, 40)),
            Bounded('regenerate', c_main, r_main, 'runs of gyp with up to 8 options and 4 environment variables, then a run with the recorded flags from the depth directory under another environment', budget=(10, 80))]


META = dict(level='other', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='Proved for all inputs: the settings table is the fold in which later settings win, a regenerated flag is one word that argparse reads back as its value, the flags of an append option are those of the environment followed by those of the command line, ShlexEnv. '
                 'RegenerateFlags itself (a loop over the metadata of the option parser) is bounded: whole runs of gyp are compared with runs given the recorded flags.')
