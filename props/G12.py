"""G12 Variables are scoped, defaulted and expanded as documented."""
import os
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from pyvc.call import uf
from vlib import models as M
from vlib.load import load
from props.G11 import ref_merge
import gyp.input as I
import gyp.common as C

V = T.V
DIGIT, NONZERO = z3.Range('0', '9'), z3.Range('1', '9')
CANON = z3.Union(z3.Re('0'), z3.Concat(z3.Option(z3.Re('-')), NONZERO, z3.Star(DIGIT)))


def loadable(v): return z3.Or(*[T.tester(t, v) for t in ('StrV', 'IntV', 'ListV')])


# ------------------------------------------------------------------ IsStrCanonicalInt
CANONICAL = Contract('IsStrCanonicalInt', I.IsStrCanonicalInt, {'string': Any}, ret=Any, raises={},
                     ensures=lambda e: {'exactly-the-canonical-form': e.rv == V.BoolV(z3.And(T.tester('StrV', e.val('string')), z3.InRe(T.acc('s', e.val('string')), CANON)))})

# ------------------------------------------------------------------ LoadAutomaticVariablesFromDict
K0 = z3.String('any_name')


def auto_cands(lv):
    out = {}
    e = lv.eng.entry
    if lv.done is None: return out
    d, v0, v = e.val('the_dict'), e.val('variables'), lv.eng.box(lv.st, e.params['variables'])
    sub = z3.SubString(K0, 1, z3.Length(K0) - 1)
    hit = z3.And(z3.PrefixOf(T.sv('_'), K0), member_name(lv.done, sub), loadable(T.dget(d, sub)))
    out['loaded'] = z3.And(T.dhas(v, K0) == z3.Or(T.dhas(v0, K0), hit), z3.Implies(hit, T.dget(v, K0) == T.dget(d, sub)), z3.Implies(z3.Not(hit), T.dget(v, K0) == T.dget(v0, K0)))
    return out


def member_name(q, k): return T.member(q, k) if q.sort() == T.SeqS else T.member(q, V.StrV(k))


def auto_ens(e):
    d, v0, v = e.val('the_dict'), e.val('variables'), e.val('variables', True)
    sub = z3.SubString(K0, 1, z3.Length(K0) - 1)
    hit = z3.And(z3.PrefixOf(T.sv('_'), K0), T.dhas(d, sub), loadable(T.dget(d, sub)))
    return {'exactly-the-keys-with-an-underscore': T.dhas(v, K0) == z3.Or(T.dhas(v0, K0), hit), 'their-values': z3.Implies(hit, T.dget(v, K0) == T.dget(d, sub)),
            'others-kept': z3.Implies(z3.And(z3.Not(hit), T.dhas(v0, K0)), T.dget(v, K0) == T.dget(v0, K0))}


AUTO = Contract('LoadAutomaticVariablesFromDict', I.LoadAutomaticVariablesFromDict, {'variables': TDict(Any), 'the_dict': TDict(Any)}, ret=NoneT, raises={}, modifies={'variables'}, ensures=auto_ens, cands=auto_cands)


# ------------------------------------------------------------------ LoadVariablesFromVariablesDict
def scoped(e, v, done=None):
    """what the variable K0 is after the definitions named in done (all of them by default), in any order"""
    d, v0 = e.val('the_dict'), e.val('variables')
    vd = T.ite(T.dhas(d, T.sv('variables')), T.dget(d, T.sv('variables')), T.EMPTY_DICT)
    there = lambda k: T.dhas(vd, k) if done is None else member_name(done, k)
    k1 = z3.Concat(K0, T.sv('%'))
    plain = z3.And(there(K0), loadable(T.dget(vd, K0)), z3.Not(z3.SuffixOf(T.sv('%'), K0)))
    default = z3.And(there(k1), loadable(T.dget(vd, k1)), z3.Not(T.dhas(v0, K0)))
    own = z3.And(e.val('the_dict_key') == V.StrV(T.sv('variables')), T.dhas(d, K0))
    return {'defined': T.dhas(v, K0) == z3.Or(T.dhas(v0, K0), plain, default), 'definition': z3.Implies(plain, T.dget(v, K0) == T.dget(vd, K0)),
            'default': z3.Implies(z3.And(default, z3.Not(plain)), T.dget(v, K0) == T.ite(own, T.dget(d, K0), T.dget(vd, k1))),
            'others-kept': z3.Implies(z3.And(z3.Not(plain), z3.Not(default), T.dhas(v0, K0)), T.dget(v, K0) == T.dget(v0, K0))}


def string_facts(eng, s, seq, done, x, rest):
    k = x if x.sort() == T.String else T.acc('s', x)
    p = T.sv('%')
    return [(k == z3.Concat(K0, p)) == z3.And(z3.SuffixOf(p, k), z3.SubString(k, 0, z3.Length(k) - 1) == K0), z3.Implies(k == K0, z3.SuffixOf(p, k) == z3.SuffixOf(p, K0))]


def vars_cands(lv):
    if lv.done is None: return {}
    e = lv.eng.entry
    return {'scoped': z3.And(*scoped(e, lv.eng.box(lv.st, e.params['variables']), lv.done).values())}


VARS = Contract('LoadVariablesFromVariablesDict', I.LoadVariablesFromVariablesDict, {'variables': TDict(Any), 'the_dict': TDict(Any, {'variables': (TDict(Any), False)}), 'the_dict_key': Opt(StrT)}, ret=NoneT, raises={}, modifies={'variables'},
                ensures=lambda e: scoped(e, e.val('variables', True)), cands=vars_cands, elem_facts=string_facts)


# ------------------------------------------------------------------ FindEnclosingBracketGroup
PAIRS = {'}': '{', ']': '[', ')': '('}
CHARS = z3.Function('chars_', T.String, T.SeqV)


def ch(x): return T.acc('s', x)
def opening(x): return z3.Or(*[ch(x) == T.sv(c) for c in PAIRS.values()])
def closing(x): return z3.Or(*[ch(x) == T.sv(c) for c in PAIRS])
def matches(o, x): return z3.And(*[z3.Implies(ch(x) == T.sv(c), o == V.StrV(T.sv(k))) for c, k in PAIRS.items()])


STACK = T.Fold('open_brackets', lambda: T.empty(), lambda acc, x, p: T.ite(opening(x), T.concat(acc, T.unit(x)), T.ite(z3.And(closing(x), T.length(acc) > 0), z3.SubSeq(acc, 0, T.length(acc) - 1), acc)), T.SeqV)
FIRST = T.Fold('first_bracket', lambda: z3.IntVal(-1), lambda acc, x, p: T.ite(acc >= 0, acc, T.ite(opening(x), T.length(p), z3.IntVal(-1))), T.Int)


def end_step(acc, x, p):
    """0: still open; n > 0: the group that starts at the first bracket ends before n; -1: a bracket closes nothing, or the wrong one"""
    n = T.length(STACK(p))
    return T.ite(acc != 0, acc, T.ite(z3.Not(closing(x)), z3.IntVal(0), T.ite(z3.Or(n == 0, z3.Not(matches(STACK(p)[n - 1], x))), z3.IntVal(-1), T.ite(n == 1, T.length(p) + 1, z3.IntVal(0)))))


END = T.Fold('group_end', lambda: z3.IntVal(0), end_step, T.Int)


def stays(p, q): return [z3.Implies(END(p) != 0, END(q) == END(p)), z3.Implies(FIRST(p) >= 0, FIRST(q) == FIRST(p))]


def lem_stays():
    p, r, x = z3.Const('p', T.SeqV), z3.Const('r', T.SeqV), z3.Const('x', V)
    yield 'base', [], z3.And(*stays(p, T.concat(p, T.empty())))
    yield 'step', stays(p, T.concat(p, r)), z3.And(*stays(p, T.concat(p, r, T.unit(x))))


def group_cands(lv):
    if lv.done is None: return {}
    d = lv.done
    out = {'undecided': END(d) == 0, 'open': (T.length(STACK(d)) > 0) == (FIRST(d) >= 0)}
    for nm, q in lv.lists(): out['stack:' + nm] = q == STACK(d)
    for nm, t in lv.scalars(TInt): out['first:' + nm] = z3.And(t == FIRST(d), FIRST(d) >= -1)
    return out


def group_ens(e):
    c = CHARS(e['input_str'])
    a, b = [e.nat(e.st1, x) for x in e.rt()]
    return {'end': b == T.ite(END(c) > 0, END(c), z3.IntVal(-1)), 'start': a == T.ite(END(c) > 0, FIRST(c), z3.IntVal(-1))}


GROUP = Contract('FindEnclosingBracketGroup', I.FindEnclosingBracketGroup, {'input_str': StrT}, ret=TTup(IntT, IntT), raises={}, ensures=group_ens, cands=group_cands,
                 elem_facts=lambda eng, s, seq, done, x, rest: stays(T.concat(done, T.unit(x)), seq))


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, models=dict(M.PATHS)))
    return [(CANONICAL, mk(CANONICAL)), (AUTO, mk(AUTO)), (VARS, mk(VARS)), (GROUP, mk(GROUP)), (Lemma('a-decision-stays', lem_stays), mk())]


# ------------------------------------------------------------------ bounded
import copy
import itertools
import re
import shlex


def c_int(tier, rng):
    for n in range(4):
        for t in itertools.product('-019a ', repeat=n): yield ''.join(t)
    for t in ('1\u00b2', '1\u0663', '\u0661', '1\n', '+1', '1_0', '0x1', '1.0', '-\u0661', '9' * 40, '-' + '9' * 40, '00', '-00', '-0'): yield t
    for x in (0, 5, None, ['1'], {'1': 2}, True): yield x
    while True: yield ''.join(rng.choice('-0123456789+_. \u00b2\u0663') for _ in range(rng.randrange(1, 9)))


def r_int(x):
    want = isinstance(x, str) and re.fullmatch('0|-?[1-9][0-9]*', x) is not None
    m = diff('canonical %r' % (x,), bool(I.IsStrCanonicalInt(x)), want)
    if m or not isinstance(x, str): return m
    got = outcome(I.ExpandVariables, x, I.PHASE_EARLY, {}, 'f')
    return diff('the value of %r' % x, got, ('ok', int(x) if want else x))


def c_brackets(tier, rng):
    for n in range(6):
        for t in itertools.product('([)]a', repeat=n): yield ''.join(t)
    while True: yield ''.join(rng.choice('([{)]}a<') for _ in range(rng.randrange(5, 16)))


def r_brackets(x):
    pairs = {')': '(', ']': '[', '}': '{'}
    want, st, start = (-1, -1), [], None
    for i, c in enumerate(x):
        if c in '([{':
            st.append(c)
            start = i if start is None else start
        elif c in ')]}':
            if not st or st.pop() != pairs[c]: break
            if not st:
                want = (start, i + 1)
                break
    return diff('the group in %r' % x, I.FindEnclosingBracketGroup(x), want)


NAMES = ['a', 'b', 'c', 'l', 'n', 'default', 'a%', 'b%', 'c%', 'l%', 'ab', 'x%y']


def value(rng, deep=True):
    r = rng.random()
    if r < .5: return rng.choice(['p', 'q', '', '7', '-3', '07'])
    if r < .7: return rng.choice([0, 5, -2])
    if r < .9: return rng.choice([[], ['p'], ['q', 'p', 3]])
    return {'k': 'v'} if deep else 'z'


def c_loadvars(tier, rng):
    while True:
        some = lambda k, p: {n: value(rng) for n in rng.sample(k, len(k)) if rng.random() < p}
        d = some(['a', 'b', 'c', 'l', 'target_name'], .5)
        if rng.random() < .85: d['variables'] = some(NAMES, .5)
        yield (some(['a', 'b', 'l', '_a', 'z'], .4), d, rng.choice(['variables', None, 'x']))


def ok(x): return type(x) in (str, int, list)


def ref_loadvars(v, d, key):
    vd = d.get('variables', {})
    out = dict(v)
    out.update({k: x for k, x in vd.items() if ok(x) and not k.endswith('%')})
    for k, x in vd.items():
        if ok(x) and k.endswith('%') and k[:-1] not in v and not (k[:-1] in vd and ok(vd[k[:-1]]) and not k[:-1].endswith('%')):
            out[k[:-1]] = d[k[:-1]] if key == 'variables' and k[:-1] in d else x
    return out


def r_loadvars(x):
    v, d, key = x
    v1, v2, d1 = copy.deepcopy(v), copy.deepcopy(v), copy.deepcopy(d)
    I.LoadVariablesFromVariablesDict(v1, d1, key)
    I.LoadAutomaticVariablesFromDict(v2, d1)
    return diff('variables with the section loaded', v1, ref_loadvars(v, d, key)) or diff('automatic variables', v2, dict(v, **{'_' + k: y for k, y in d.items() if ok(y)})) or diff('the settings', d1, d)


# -------- expansion
class Bad(Exception): pass
class Skip(Exception): """a list reference left alone because the texts next to it turned out to be empty: not decided here"""


def refs(text, sym):
    """the outermost references of a text: [(start, end, is @, content)]"""
    out, i = [], 0
    while True:
        m = re.compile(re.escape(sym) + r'(@?)\(').search(text, i)
        if not m: return out
        depth, j = 1, m.end()
        while j < len(text) and depth:
            depth += {'(': 1, ')': -1}.get(text[j], 0)
            j += 1
        if depth: return out
        out.append((m.start(), j, bool(m.group(1)), text[m.end():j - 1]))
        i = j


def number(x): return int(x) if isinstance(x, str) and re.fullmatch('0|-?[1-9][0-9]*', x) else x


def ref_expand(x, sym, v, fuel=60):
    text = str(x)
    if fuel < 0 or len(text) > 3000: raise Skip('endless')
    if re.search(re.escape(sym) + r'[!|@]*[-\w.]*\(', text) and (unbalanced(text, sym) or re.search(re.escape(sym) + r'(!|\||@?[-\w.]+\()', text)): raise Skip('commands, or brackets that may not match')
    if number(text) != text: return number(text)
    rs = refs(text, sym)
    out = text
    for s, e, at, content in reversed(rs):
        name = str(ref_expand(content, sym, v, fuel - 1)).strip()
        if name in v: val = v[name]
        elif name[-1:] in ('!', '/'): val = []
        else: raise Bad('undefined ' + name)
        if isinstance(val, list): val = ref_list(val, sym, v, fuel - 1)
        if at and s == 0 and e == len(out) != len(text): raise Skip()
        if at and (s, e) == (0, len(text)):
            items = val if isinstance(val, list) else shlex.split(str(val))
            return ref_list([number(y) for y in items], sym, v, fuel - 1)
        out = out[:s] + (C.EncodePOSIXShellList(val) if isinstance(val, list) else str(val)) + out[e:]
    return out if out == text else ref_expand(out, sym, v, fuel - 1)


def ref_list(l, sym, v, fuel=60):
    out = []
    for y in l:
        if isinstance(y, str):
            z = ref_expand(y, sym, v, fuel)
            if isinstance(z, list): out += z
            else: out.append(z)
        elif isinstance(y, list): out.append(ref_list(y, sym, v, fuel))
        else: out.append(y)
    return out


LIT = ['', ' ', 'x', '-', 'y z', '1', '0', '(', ')', '[', '<', '>', '^', '@', '!', "'", '=', '.']
REF = ['<(a)', '<(b)', '<(l)', '<@(l)', '<(n)', '<(<(which))', '<(_s)', '<@(_s)', '>(a)', '>(b)', '^(a)', '<( a )', '<(v<(n))', '<(chain)', '<(e!)', '<@(e/)', '<@(le)', '>@(l)', '^(l)', '^(n)', '<(m)', '<@(m)']
VALS = {'a': ['x', 'two words', '', '7', '<(b)', 7, "it's"], 'b': ['y', '-4', '0'], 'l': [[], ['p'], ['p q', 'r'], ['<(b)', '3'], ['<@(m)', 'z'], ['<@(m)']], 'm': [['u', 'v w'], ['1', '<(b)'], []], 'n': ['1', '2', 2], 'which': ['a', 'b', 'l'], '_s': ['s', '<(a) t', '"k k" j'],
        'v1': ['one'], 'v2': [['t', 'w']], 'chain': ['<(a)<(b)', '<(l)', '<@(l)'], 'le': [['', '0', '-']]}


def c_expand(tier, rng):
    for r in REF:
        for _ in range(4): yield (r, {k: rng.choice(x) for k, x in VALS.items()}, 0)
    while True:
        n = rng.choice([1, 1, 2, 3, 4])
        t = ''.join(rng.choice(LIT) if rng.random() < .4 else rng.choice(REF) for _ in range(n))
        yield (t, {k: rng.choice(x) for k, x in VALS.items() if rng.random() < .95}, rng.choice([0, 0, 0, 1, 2]))


SYM = '<>^'


def unbalanced(t, sym):
    """brackets other than parentheses, or an odd number of parentheses, inside a reference: what is an error is not what this reference decides"""
    if re.search(r'[\[\]{}]', t): return True
    while re.search(r'\([^()]*\)', t): t = re.sub(r'\([^()]*\)', '', t)
    return '(' in t or ')' in t


def r_expand(x):
    t, v, ph = x
    v = {k: re_sym(y, SYM[ph]) for k, y in v.items()}
    if SYM[ph] != '<': t = t.translate({ord('<'): SYM[ph], ord(SYM[ph]): '<'})
    v0 = copy.deepcopy(v)
    try: want = ('ok', ref_expand(t, SYM[ph], v))
    except Skip: return None
    except (Bad, ValueError, RecursionError): want = ('raise',)
    got = outcome(I.ExpandVariables, t, ph, v, 'd/f.gyp')
    m = diff('the expansion of %r' % t, got[:len(want)], want)
    if not m and got[0] == 'ok' and isinstance(got[1], list) and any(got[1] is y for y in v.values()): m = 'the list of the variable itself comes back'
    return m or diff("the caller's variables", v, v0)


def re_sym(y, sym):
    if isinstance(y, str): return y.replace('<', sym)
    if isinstance(y, list): return [re_sym(z, sym) for z in y]
    return y


REJECT = ['<(nosuch)', 'x<(nosuch)', '<(a', '<()', '<(a [)', '<!(echo [)', '<|(a [)', 'x <(a [) y', '<!(exit 3)', '<!nosuch(a)', '<(<(l))', '<(d)', '<@(d)', '<(loop)', '<!pymod_do_main(nosuchmod_)', '<|(/abs b)', '<(ld)', 'ab <!(a {)', '<(a{)']
UNREFERENCED = ['', 'x', '<', '<a', '< (a)', '>(a)', '^(a)', 'a(b)', '<[a]', '(<)', '$(a)', '1 2', '<a(b', '@(a)']


def c_errors(tier, rng):
    for t in REJECT + UNREFERENCED: yield t


def r_errors(t):
    with scratch() as d:
        os.chdir(d)
        v = {'a': 'x', 'l': ['p', 'q'], 'd': {'k': 'v'}, 'loop': '<(loop2)', 'loop2': 'x<(loop)', 'ld': [{'k': 'v'}]}
        o = outcome(I.ExpandVariables, t, I.PHASE_EARLY, v, 'f.gyp')
        left = sorted(os.listdir(d))
    if left: return 'files were written: %r' % left
    if t in REJECT and t != '<(a': return None if o[0] == 'raise' else 'accepted: %r gives %r' % (t, o[1])
    return diff('the expansion of %r' % t, o, ('ok', t))


# -------- commands and list files
def c_commands(tier, rng):
    outs = ['one', 'a b', '5', "'q r' s", '', '<(v)', 'x\n\n', ' y']
    while True:
        o = rng.choice(outs)
        yield (o, rng.choice(['', 'sub', 'sub/deep']), rng.choice(['<!(cat F)', '<!@(cat F)', 'p<!(cat F)q', '<!(["cat", "F"])', '<!(<(cmd) F)', '<!@(<(cmd) <(file))', '<!pymod_do_main(mod F x)', '<!@(["cat", "F"])']), rng.choice(['V', 'w z']))


def r_commands(x):
    out, where, form, v = x
    with scratch() as d:
        os.chdir(d)
        for p in ('', 'sub', 'sub/deep'):
            os.makedirs(os.path.join(d, p), exist_ok=True)
            with open(os.path.join(d, p, 'F'), 'w') as f: f.write(out if p == where else 'other')
            with open(os.path.join(d, p, 'mod.py'), 'w') as f: f.write('def DoMain(a): return open(a[0]).read() + a[1]')
        I.cached_command_results.clear()
        import sys
        sys.modules.pop('mod', None)
        vs = {'v': v, 'cmd': 'cat', 'file': 'F'}
        other = 'sub' if where != 'sub' else ''
        o1 = outcome(I.ExpandVariables, form, I.PHASE_EARLY, dict(vs), os.path.join(other, 'f.gyp'))
        sys.modules.pop('mod', None)
        for _ in range(2):
            o = outcome(I.ExpandVariables, form, I.PHASE_EARLY, dict(vs), os.path.join(where, 'f.gyp'))
            text = (out + 'x' if 'pymod' in form else out).rstrip()
            try:
                if '@' in form: want = ref_list([number(y) for y in shlex.split(text)], '<', vs)
                else: want = ref_expand(('p%sq' if form[0] == 'p' else '%s') % text, '<', vs)
            except ValueError: return None
            m = diff('the output of %r in %r' % (form, where), o, ('ok', want))
            if m: return m
        if os.getcwd() != os.path.realpath(d): return 'the working directory has changed'
        return diff('the output in the other directory', o1[1], (['otherx'] if 'pymod' in form else ['other']) if '@' in form else 'potherq' if form[0] == 'p' else 'otherx' if 'pymod' in form else 'other')


def c_filelist(tier, rng):
    while True: yield (rng.choice(['', 'sub']), rng.choice(['out.txt', 'o/out.txt', '<(nm)']), [rng.choice(['a', 'b.c', '1', 'd/e']) for _ in range(rng.randrange(0, 4))], rng.random() < .5)


def r_filelist(x):
    where, nm, items, direct = x
    with scratch() as d:
        os.chdir(d)
        for p in ('sub', 'o', 'sub/o'): os.makedirs(os.path.join(d, p), exist_ok=True)
        v = {'l': list(items), 'nm': 'named.txt'}
        form = '<|(%s %s)' % (nm, '<@(l)') if not direct else '<|(' + ' '.join([nm] + items) + ')'
        if not items: form = '<|(%s)' % nm
        I.generator_filelist_paths = None
        o = outcome(I.ExpandVariables, form, I.PHASE_EARLY, v, os.path.join(where, 'f.gyp'))
        name = nm.replace('<(nm)', 'named.txt')
        if o != ('ok', name): return 'the value of %r is %r' % (form, o)
        with open(os.path.join(d, where, name)) as f: return diff('the list file', f.read(), ''.join(i + '\n' for i in items))


# -------- scopes
class Scopes:
    """settings whose texts refer to variables defined around them"""
    def __init__(self, rng): self.rng = rng

    def text(self, names):
        rng = self.rng
        n = rng.choice(names)
        return rng.choice(['<(%s)', 'p<(%s)', '<(%s)-<(' + rng.choice(names) + ')', '%s', '<(%s) ']) % n

    def defs(self, names, depth):
        rng, out = self.rng, {}
        for n in rng.sample(['a', 'b', 'c', 'l'], rng.choice([0, 1, 2])):
            k = n + ('%' if rng.random() < .35 else '')
            if n == 'l': out[k] = [rng.choice(['i1', 'i2', 'i3', '4']) for _ in range(rng.randrange(0, 3))] + ([self.text([x for x in names if x != 'l'])] if rng.random() < .3 and len(names) > 1 else [])
            else: out[k] = rng.choice(['d1', 'd2', '5', 6]) if rng.random() < .6 else self.text([x for x in names if x not in ('l', n)] or ['zz'])
        if depth > 0 and rng.random() < .3: out['variables'] = self.defs(names, depth - 1)
        ks = list(out)
        rng.shuffle(ks)
        return {k: out[k] for k in ks}

    def settings(self, depth):
        rng, d = self.rng, {}
        names = ['a', 'b', 'c', 'l']
        if rng.random() < .6: d['variables'] = self.defs(names, 2)
        if rng.random() < .5: d['s'] = self.text(names)
        if rng.random() < .3: d['kind'] = rng.choice(['k1', '3', self.text(['a', 'b'])])
        if rng.random() < .5: d['list'] = [rng.choice([self.text(names), '<@(l)', 'w', '12', ['<@(l)', '<(a)'], '<(_kind)' if 'kind' in d else 'v']) for _ in range(rng.randrange(1, 4))]
        if depth > 0 and rng.random() < .6: d['part'] = self.settings(depth - 1)
        if depth > 0 and rng.random() < .4:
            d['conditions'] = [[rng.choice(['1==1', '1==1', 'a!=b', '_s=="a"', '1==0'])] + [self.settings(depth - 1) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([1, 1, 2]))]
        if depth > 0 and rng.random() < .4: d['items'] = [self.settings(depth - 1) for _ in range(rng.choice([1, 2]))]
        ks = list(d)
        rng.shuffle(ks)
        return {k: d[k] for k in ks}


def ref_scopes(d, v, sym, key=None, inplace=False):
    """v: the variables around the dictionary, already expanded or not; d is changed"""
    def scope():
        w = dict(v)
        w.update({'_' + k: x for k, x in d.items() if ok(x)})
        return ref_loadvars(w, d, key)
    if 'variables' in d:
        w = dict(v)
        w.update({'_' + k: x for k, x in d.items() if ok(x)})
        w.update(d['variables'])
        ref_scopes(d['variables'], w, sym, 'variables', inplace)
    w = scope()
    for k, x in d.items():
        if isinstance(x, str):
            y = ref_expand(x, sym, w)
            if isinstance(y, list): raise Bad('list')
            d[k] = y
    w = scope()
    for c in d.pop('conditions', []):
        try: hit = eval(c[0], {}, w)
        except NameError as ex: raise Bad(str(ex))
        b = c[1] if hit else c[2] if len(c) > 2 else None
        if b is not None:
            ref_scopes(b, w, sym, None, inplace)
            ref_merge(d, b, inplace)
    w = scope()
    for k, x in d.items():
        if k == 'variables': continue
        if isinstance(x, dict): ref_scopes(x, w, sym, k, inplace)
        elif isinstance(x, list): ref_items(x, w, sym, inplace)


def ref_items(l, w, sym, inplace=False):
    out = []
    for x in l:
        if isinstance(x, dict):
            ref_scopes(x, w, sym, None, inplace)
            out.append(x)
        elif isinstance(x, list):
            ref_items(x, w, sym, inplace)
            out.append(x)
        elif isinstance(x, str):
            y = ref_expand(x, sym, w)
            out += y if isinstance(y, list) else [y]
        else: out.append(x)
    l[:] = out


def c_scopes(tier, rng):
    forms = [{}, {'n': 'A'}, {'n%': 'B'}, {'n': 'A', 'n%': 'B'}, {'n%': '<(m)', 'm': 'C'}]
    vary = lambda x, t: {k: t + y if y in 'ABC' else y for k, y in x.items()}
    for v in ({}, {'n': 'out'}, {'n': 0}, {'m': 'out'}):
        for f1 in forms:
            for f2 in forms:
                for f3 in forms:
                    for g in forms[:4]:
                        d = {'s': '<(n)', 'variables': dict(vary(f1, '1'), variables=vary(g, '4')), 'conditions': [['1==1', {'variables': vary(f2, '2')}]], 'sub': {'variables': vary(f3, '3'), 't': '<(n)', 'l': ['<(n)', {'u': '<(n)'}]}, 'last': {'u': '<(n)'}}
                        if not any('n' in y or 'n%' in y for y in (v, f1, g)): del d['s']
                        yield (d, v)
    while True:
        v = {n: rng.choice(['g', 'h i', '8', '<(b)' if n == 'a' else 'g2']) for n in 'abc' if rng.random() < .85}
        if rng.random() < .9: v['l'] = rng.choice([[], ['gl'], ['g m', '9'], ['<(b)', 'w']])
        yield (Scopes(rng).settings(2), v)


def r_scopes(x):
    wants = []
    for inplace in (False, True):
        d0, v0 = copy.deepcopy(x)
        try:
            ref_scopes(d0, copy.deepcopy(v0), '<', None, inplace)
            wants.append(('ok', d0))
        except Skip: return None
        except (Bad, ValueError, RecursionError): wants.append(('raise',))
    # whether a list that a branch extends is already longer for the conditions after it is not decided here
    if wants[0] != wants[1]: return None
    want = wants[0]
    d, v = copy.deepcopy(x)
    o = outcome(I.ProcessVariablesAndConditionsInDict, d, I.PHASE_EARLY, v, 'f.gyp')
    if want == ('raise',): m = None if o[0] == 'raise' else 'accepted: %r' % d
    else: m = 'rejected: %r' % (o,) if o[0] == 'raise' else diff('the settings', d, d0)
    return m or diff("the caller's variables", v, v0)


def bounded():
    return [Bounded('integers', c_int, r_int, 'all texts of up to 3 of 6 characters, digits of other scripts, random ones', budget=(3, 20)),
            Bounded('brackets', c_brackets, r_brackets, 'all texts of up to 5 of 5 characters, random ones of up to 15', budget=(4, 30)),
            Bounded('loading', c_loadvars, r_loadvars, 'random variables, settings and variables sections over 12 names with and without %', budget=(4, 30)),
            Bounded('expansion', c_expand, r_expand, 'texts of up to 4 pieces out of 18 literals and 22 references, in all three phases, against an independent expander', budget=(6, 60)),
            Bounded('errors', c_errors, r_errors, 'undefined, unbalanced, endless and otherwise wrong references, and texts without any', budget=(3, 10)),
            Bounded('commands', c_commands, r_commands, 'command expansions of 8 forms in three directories', budget=(5, 40)),
            Bounded('list files', c_filelist, r_filelist, 'list files of up to 3 items', budget=(3, 20)),
            Bounded('scopes', c_scopes, r_scopes, 'settings nested up to 3 deep with variables sections, defaults, nested variables and automatic variables, against an independent evaluator', budget=(6, 60))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='IsStrCanonicalInt holds of exactly the canonical forms; the automatic variables and the variables section are loaded exactly as documented (any name, any order: definitions, % defaults, names already set, the surrounding variables section) and nothing else changes; FindEnclosingBracketGroup returns exactly the group that starts at the first bracket. '
                 'ExpandVariables itself (regular expressions, commands, files) and the recursion over settings are bounded, against independent evaluators.')
