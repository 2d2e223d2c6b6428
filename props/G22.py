"""G22 Makefile text denotes the intended names, values and rules."""
import io
import itertools
import os
import re
import subprocess
import sys
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.strops import RE, ReadsBack, pred
from pyvc.strtrans import WEND, run_reader, words
from vlib import models as M
from vlib import readers as R
import gyp.generator.make as K

V = T.V
WRD = [[(ord('a'), ord('z') + 1), (ord('A'), ord('Z') + 1), (ord('0'), ord('9') + 1)]]


class DoubleDollar(R.Reader):
    """$$ is a dollar sign; any other use of one would be a reference"""
    start, special = '', '$'
    def step(self, q, c):
        if q == '$': return ('$', '') if c == '$' else None
        return ('', '$') if c == '$' else (c, '')
    def final(self, q): return '' if q == '' else None


class MakeName(R.Reader):
    """one file name in a rule: an escaped space is part of it, an unescaped one would end it"""
    start, special = '', ' \\\t\n'
    def step(self, q, c):
        if c in '\t\n': return None
        if q == '\\':
            if c == ' ': return (' ', '')
            return ('\\', '\\') if c == '\\' else ('\\' + c, '')
        if c == '\\': return ('', '\\')
        return None if c == ' ' else (c, '')
    def final(self, q): return '' if q == '' else '\\'


class Same(R.Reader):
    """the text itself"""
    start, special = '', ''
    def step(self, q, c): return (c, '')
    def final(self, q): return ''


class OnlyWord(R.Reader):
    """characters of a make variable name and nothing else; their text is not kept"""
    start, special, sets = '', '_', WRD
    def step(self, q, c): return ('', '') if c == '_' or c.isascii() and c.isalnum() else None
    def final(self, q): return ''


def no(chars, t): return [z3.Not(z3.Contains(t, T.sv(c))) for c in chars]


DEFINE = Contract('EscapeCppDefine', K.EscapeCppDefine, {'s': StrT}, ret=StrT,
                  ensures=lambda e: {'one-word': ReadsBack(e, [R.MakeRecipe(), R.PosixShell()], e['s'], no('\0\n', e['s']), suffix=[WEND], replay='define')})
DOLLAR = Contract('EscapeMakeVariableExpansion', K.EscapeMakeVariableExpansion, {'s': StrT}, ret=StrT,
                  ensures=lambda e: {'text': ReadsBack(e, DoubleDollar(), e['s'], [], replay='dollar')})
QUOTE = Contract('QuoteIfNecessary', K.QuoteIfNecessary, {'string': StrT}, ret=StrT,
                 ensures=lambda e: {'one-word': z3.Implies(z3.Not(z3.Contains(e['string'], T.sv('"'))), e.r == e['string']) if e.r.eq(e['string']) else
                                    ReadsBack(e, R.PosixShell(dollar=True), e['string'], no('\0\\`', e['string']), suffix=[WEND], replay='quote')})
SPACES = Contract('QuoteSpaces', K.QuoteSpaces, {'s': StrT}, ret=StrT,
                  ensures=lambda e: {'one-name': ReadsBack(e, MakeName(), e['s'], no(['\t', '\n', '\\ '], e['s']), replay='spaces')})
NAME = Contract('StringToMakefileVariable', K.StringToMakefileVariable, {'string': StrT}, ret=StrT,
                ensures=lambda e: {'a-name': ReadsBack(e, OnlyWord(), e['string'], [], image=T.sv(''), replay='name'),
                                   'kept': ReadsBack(e, Same(), e['string'], [pred(r'[a-zA-Z0-9_]*\Z', 'match', e['string'])], replay='name')})
REF = T.sv('$(')
isabs, norm, join = M.PATHS[os.path.isabs].f, M.PATHS[os.path.normpath].f, M.PATHS[os.path.join].f
SOURCE = Contract('Sourceify', K.Sourceify, {'path': StrT}, ret=StrT,
                  ensures=lambda e: {'path': e.r == z3.If(z3.Or(z3.Contains(e['path'], REF), isabs(e['path'])), e['path'], z3.Concat(T.sv(K.srcdir_prefix), e['path']))},
                  assumed=['Sourceify is verified for the initial value of srcdir_prefix (the empty string); other values are covered by the bounded check'])


def attr(e, f): return T.acc('s', T.aselect(e.fld('MakefileWriter', f), e['self']))


def req_attr(*fs): return lambda e: [T.tester('StrV', T.aselect(e.fld('MakefileWriter', f), e['self'])) for f in fs]


ABS = Contract('Absolutify', K.MakefileWriter.Absolutify, {'self': TObj('MakefileWriter'), 'path': StrT}, ret=StrT, requires=req_attr('path'),
               ensures=lambda e: {'plain': z3.Implies(z3.Not(z3.Contains(e['path'], REF)), e.r == norm(join(attr(e, 'path'), e['path']))),
                                  'variable': z3.Implies(z3.Contains(e['path'], REF), z3.And(z3.PrefixOf(e.r, e['path']), z3.Not(z3.SuffixOf(T.sv('/'), e.r)),
                                                                                            z3.InRe(z3.SubString(e['path'], z3.Length(e.r), z3.Length(e['path']) - z3.Length(e.r)), z3.Star(z3.Re(T.sv('/'))))))})
from pyvc.call import REPLACE_ALL


def obj_spec(e):
    p, ts = e['path'], attr(e, 'toolset')
    pre = z3.Concat(T.sv('$(obj).'), ts, T.sv('/$(TARGET)/'))
    p1 = z3.If(z3.Contains(p, REF), REPLACE_ALL(p, T.sv('$(obj)/'), pre), p)
    return z3.If(z3.Contains(p1, T.sv('$(obj)')), p1, z3.Concat(pre, p1))


OBJ = Contract('Objectify', K.MakefileWriter.Objectify, {'self': TObj('MakefileWriter'), 'path': StrT}, ret=StrT, requires=req_attr('toolset'),
               ensures=lambda e: {'path': e.r == obj_spec(e)})


def base_spec(e):
    """prefix, name and extension of an output, from the documentation of the target settings"""
    sp, ty, fl = e.val('spec'), attr(e, 'type'), attr(e, 'flavor')
    name = T.acc('s', T.dget(sp, T.sv('target_name')))
    lib = z3.Or(*[ty == T.sv(x) for x in ('static_library', 'shared_library', 'loadable_module')])
    n = z3.If(z3.And(lib, z3.PrefixOf(T.sv('lib'), name)), z3.SubString(name, 3, z3.Length(name) - 3), z3.If(ty == T.sv('none'), z3.Concat(name, T.sv('.stamp')), name))
    get = lambda k, d: z3.If(T.dhas(sp, T.sv(k)), T.acc('s', T.dget(sp, T.sv(k))), d)
    ext = z3.If(ty == T.sv('static_library'), T.sv('.a'),
                z3.If(lib, z3.If(fl == T.sv('aix'), T.sv('.a'), z3.If(fl == T.sv('zos'), T.sv('.x'), T.sv('.so'))), T.sv('')))
    pe = get('product_extension', T.sv(''))
    return z3.Concat(get('product_prefix', z3.If(lib, T.sv('lib'), T.sv(''))), get('product_name', n), z3.If(pe != T.sv(''), z3.Concat(T.sv('.'), pe), ext))


BASE = Contract('ComputeOutputBasename', K.MakefileWriter.ComputeOutputBasename,
                {'self': TObj('MakefileWriter'), 'spec': TDict(Any, {'target_name': (StrT, True), 'product_prefix': (StrT, False), 'product_name': (StrT, False), 'product_extension': (StrT, False)})}, ret=StrT,
                requires=lambda e: req_attr('type', 'flavor')(e) + [attr(e, 'flavor') != T.sv('mac'), T.tester('BoolV', T.aselect(e.fld('MakefileWriter', 'is_mac_bundle'), e['self'])),
                                                                   z3.Not(T.acc('b', T.aselect(e.fld('MakefileWriter', 'is_mac_bundle'), e['self'])))]
                + [z3.Implies(T.dhas(e.val('spec'), T.sv(k)), T.tester('StrV', T.dget(e.val('spec'), T.sv(k)))) for k in ('target_name', 'product_prefix', 'product_name', 'product_extension')],
                ensures=lambda e: {'name': e.r == base_spec(e)})
CL = {'MakefileWriter': {'path': StrT, 'toolset': StrT, 'type': StrT, 'flavor': StrT, 'is_mac_bundle': BoolT}}


def contracts():
    mk = lambda *cs: (lambda: Verifier({inspect.unwrap(c.fn): c for c in cs}, models={**M.PATHS, **RE, print: lambda eng, st, a, k, n: [(st, Py(None))]}, classes=CL, class_objs={'MakefileWriter': K.MakefileWriter}))
    return [(c, mk()) for c in (DEFINE, DOLLAR, QUOTE, SPACES, NAME, SOURCE, ABS, OBJ, BASE)]


# ------------------------------------------------------------------ bounded contract runs
ODD = ['\\', '#', '$', "'", '"', ' ', 'a', '/', '(', ')', '.', ':', '=', '`', ';', '%', '&', '*', '~', 'é', '-', '_', '\t', '1', '']


def c_text(tier, rng):
    for k in range(5): yield from map(''.join, itertools.product(ODD[:6 if k > 3 else 11], repeat=k))
    while True: yield ''.join(rng.choice(ODD[:rng.choice([3, 5, 9, 25])]) for _ in range(rng.randrange(1, 16)))


def chain(text, *rs):
    out = [text]
    for i, r in enumerate(rs):
        out = [o for t in out for o in run_reader(r, t)]
        if i < len(rs) - 1: out = [''.join(o) for o in out]
    return out


def r_define(s):
    if '\n' in s: return None
    t = K.EscapeCppDefine(s)
    got = [words(r) for r in chain(t, R.MakeRecipe(), R.PosixShell())]
    return None if got == [[s]] else 'make and the shell read %r as %r' % (t, got)


def r_dollar(s):
    t = K.EscapeMakeVariableExpansion(s)
    return None if [''.join(r) for r in chain(t, DoubleDollar())] == [s] else 'make reads %r' % t


def r_quote(s):
    t = K.QuoteIfNecessary(s)
    if '"' not in s: return None if t == s else 'text without quotes was changed to %r' % t
    if '\\' in s or '`' in s: return None
    got = [words(r) for r in chain(t, R.PosixShell(dollar=True))]
    return None if got == [[s]] else 'the shell reads %r as %r' % (t, got)


def r_spaces(s):
    if '\\ ' in s or '\t' in s: return None
    for f in (K.QuoteSpaces, lambda x: K.SourceifyAndQuoteSpaces(x)):
        t = f(s)
        if [''.join(r) for r in chain(t, MakeName())] != [s]: return 'make reads the name %r' % t
    return None if K.QuoteSpaces(s, '?') == s.replace(' ', '?') else 'the given replacement is not used'


def r_name(s):
    t = K.StringToMakefileVariable(s)
    return None if re.fullmatch('[a-zA-Z0-9_]*', t) and len(t) == len(s) and all(a == b or b == '_' and not re.match('[a-zA-Z0-9]', a) for a, b in zip(s, t)) else 'the variable name %r' % t


class W(K.MakefileWriter):
    def __init__(self, **k):
        self.__dict__.update(dict(path='', toolset='target', type='executable', flavor='linux', is_mac_bundle=False, target='t', alias='t', fp=io.StringIO()), **k)


PATHS = ['a', 'b/c', '../x', './a', 'a/', '/abs/d', '$(obj)/a', '$(obj)/gen/b c', '$(builddir)/x/', '$(obj).target/y', '$(SHARED)/../z//', 'a//b', 'd/../e', '', 'sp ace/f', '$x/y', 'a$(b', '$(obj)', 'q$(obj)/w/']


def c_paths(tier, rng):
    for p in PATHS:
        for d in ('', 'd', 'd/e', '/top', '..', '$(v)'):
            for pre in ('', '$(srcdir)/', '../src/'): yield (p, d, rng.choice(['target', 'host', 'x']), pre)
    seg = ['a', 'b c', '..', '.', '', '$(obj)', '$(v)', 'x.y', '$(obj).host', '$z']
    while True: yield ('/'.join(rng.choice(seg) for _ in range(rng.randrange(1, 6))), '/'.join(rng.choice(seg[:5]) for _ in range(rng.randrange(3))), rng.choice(['target', 'host']), rng.choice(['', '$(srcdir)/']))


def r_paths(x):
    p, d, ts, pre = x
    w = W(path=d, toolset=ts)
    want = p.rstrip('/') if '$(' in p else os.path.normpath(os.path.join(d, p))
    m = diff('Absolutify', w.Absolutify(p), want)
    if m: return m
    old = K.srcdir_prefix
    K.srcdir_prefix = pre
    try: got = K.Sourceify(p), K.SourceifyAndQuoteSpaces(p)
    finally: K.srcdir_prefix = old
    s = p if '$(' in p or p.startswith('/') else pre + p
    m = diff('Sourceify', got, (s, s.replace(' ', '\\ ')))
    if m: return m
    o = w.Objectify(p)
    base = '$(obj).%s/$(TARGET)/' % ts
    want = base.join(p.split('$(obj)/'))
    if '$(obj)' not in want: want = base + want
    m = diff('Objectify', o, want)
    if m: return m
    g = w.Pchify(p, 'cc')
    a = p.rstrip('/') if '$(' in p else os.path.normpath(os.path.join(d, p))
    return diff('Pchify', g, ('$(obj).%s/$(TARGET)/pch-cc' % ts).join(a.split('$(obj)/')) if '$(' in a else '$(obj).%s/$(TARGET)/pch-cc/%s' % (ts, a))


TYPES = ['executable', 'static_library', 'shared_library', 'loadable_module', 'none']


def c_names(tier, rng):
    for ty in TYPES:
        for fl in ('linux', 'aix', 'zos', 'openbsd', 'win'):
            for n in ('foo', 'libfoo', 'lib', 'li', 'liblib', 'FOO.lib'):
                for opt in itertools.product([None, '', 'P'], [None, '', 'N', 'libN'], [None, '', 'e']):
                    yield (ty, fl, n, opt, rng.choice([None, '$(builddir)/p', '', 'rel', '/abs']), rng.choice(['', 'd', 'd/e']), rng.choice(['target', 'host']))


def r_names(x):
    ty, fl, n, (px, pn, pe), pd, d, ts = x
    spec = {'target_name': n}
    for k, v in (('product_prefix', px), ('product_name', pn), ('product_extension', pe), ('product_dir', pd)):
        if v is not None: spec[k] = v
    s0 = dict(spec)
    w = W(type=ty, flavor=fl, path=d, toolset=ts)
    lib = ty.endswith('library') or ty.endswith('module')
    name = n[3:] if lib and n.startswith('lib') else n + '.stamp' if ty == 'none' else n
    ext = '.a' if ty == 'static_library' or lib and fl == 'aix' else '.x' if lib and fl == 'zos' else '.so' if lib else ''
    want = (px if px is not None else 'lib' if lib else '') + (pn if pn is not None else name) + ('.' + pe if pe else ext)
    m = diff('ComputeOutputBasename', w.ComputeOutputBasename(spec), want)
    if m: return m
    dd = pd if pd is not None else '$(builddir)' if ty == 'executable' else os.path.join('$(obj).' + ts, d)
    return diff('ComputeOutput', w.ComputeOutput(spec), os.path.join(dd, want)) or (None if spec == s0 else 'the target was changed')


def item(rng, odd): return ''.join(rng.choice(odd) for _ in range(rng.randrange(1, 9)))


def c_list(tier, rng):
    yield ('plain', [], '')
    while True:
        k = rng.choice(['plain', 'define', 'quoted'])
        odd = {'plain': list('ab./-_,=+') + ['$(v)'], 'define': ODD, 'quoted': list('ab./-_= ;&"') + ['$(v)']}[k]
        yield (k, [item(rng, odd) for _ in range(rng.randrange(6))], rng.choice(['', '-D', '-I', '$(x)/']) if k != 'define' else rng.choice(['', '-D']))


def make_value(text, name):
    """what make stores for a ':=' definition: continuations joined, comment and surrounding space dropped"""
    m = re.match(r'%s :=((?:[^\n]*\\\n)*[^\n]*)\n\n\Z' % re.escape(name), text)
    if not m: return None
    v = re.sub(r'[ \t]*\\\n[ \t]*', ' ', m.group(1))
    return v.strip(' \t')


def r_list(x):
    k, l, pre = x
    if any('\n' in s or '\t' in s for s in l): return None
    if k == 'quoted': l = [s for s in l if '"' in s] or ['a"']
    w = W()
    l0 = list(l)
    w.WriteList(l, 'VAR', pre, **({'quoter': K.EscapeCppDefine} if k == 'define' else {}))
    if l != l0: return 'the list was changed'
    t = w.fp.getvalue()
    v = make_value(t, 'VAR')
    if v is None: return 'make does not see one definition in %r' % t
    if k == 'plain': got, want = [v.split()], [pre + s for s in l]
    elif k == 'define': got, want = [words(r) for r in chain(v, R.MakeRecipe(), R.PosixShell())], [pre + s for s in l]
    else: got, want = [words(r) for r in chain(v, R.PosixShell(dollar=True))], [pre + s for s in l]
    return None if got == [want] else 'the items %r written as %r are read as %r' % (want, t, got)


def c_reallist(tier, rng):
    safe = [c for c in ODD if c not in '\t`;&*~'] + ['\\#', '##', '$$', '\\\\']
    while True: yield [item(rng, safe) for _ in range(12)]


def r_reallist(l):
    """the defines, through make and the shell, to a program"""
    with scratch() as d:
        w = W()
        w.WriteList(l, 'DEFS', '-D', quoter=K.EscapeCppDefine)
        with open(d + '/Makefile', 'w') as f: f.write(w.fp.getvalue() + "all:\n\t@printf '%s\\0' $(DEFS)\n")
        p = subprocess.run(['make', '-s', '-C', d, '--no-print-directory'], capture_output=True)
        got = p.stdout.split(b'\0')[:-1]
    return None if got == [('-D' + s).encode() for s in l] else 'make and sh read %r as %r %s' % (l, got, p.stderr[:200])


def fname(rng): return ''.join(rng.choice('abcxyz/.-_ ') for _ in range(rng.randrange(1, 8))).strip(' ./-') or 'n'


def c_rule(tier, rng):
    while True:
        names = list(dict.fromkeys(fname(rng) for _ in range(9)))
        names = [n for n in names if not any(m.startswith(n + '/') or n.startswith(m + '/') for m in names)] or ['o']
        k = rng.randrange(1, min(4, len(names)) + 1)
        yield (names[:k], names[k:], [rng.choice([None, ['act one'], ['a1', 'a2']]), rng.random() < .3, rng.random() < .3, rng.random() < .3, rng.choice([None, 'cmd_x']), rng.choice([None, 'a comment'])])


def rule_text(x):
    outs, ins, (acts, oo, force, phony, cmd, comment) = x
    if len(outs) > 1 and not oo and acts is None: acts = []
    w = W()
    w.WriteMakeRule(list(outs), list(ins), actions=None if acts is None else ['@echo act ' + a for a in acts], comment=comment, order_only=oo, force=force, phony=phony, command=cmd)
    return w.fp.getvalue()


def split_names(s): return [re.sub(r'\\ ', ' ', n) for n in re.findall(r'(?:\\ |[^ ])+', s)]


def parse_rules(t):
    """[(targets, prerequisites, order-only, recipe)]"""
    out = []
    for l in t.split('\n'):
        if not l.strip() or l.startswith('#'): continue
        if l.startswith('\t'):
            out[-1][3].append(l[1:])
            continue
        m = re.match(r'((?:\\ |[^:])*): ?(.*)\Z', l)
        if m.group(2).startswith('TOOLSET :='): continue
        a, _, b = (m.group(2) + ' ').partition('| ') if '|' in m.group(2).split() else (m.group(2), '', '')
        out.append((split_names(m.group(1)), split_names(a), split_names(b), []))
    return out


def r_rule(x):
    outs, ins, (acts, oo, force, phony, cmd, comment) = x
    t = rule_text(x)
    rules = parse_rules(t)
    pre, rec = {}, {}
    for ts, ps, os_, r in rules:
        for n in ts:
            pre.setdefault(n, []).extend((p, False) for p in ps)
            pre[n].extend((p, True) for p in os_)
            if r: rec.setdefault(n, []).append(r)

    def reach(n, seen):
        for p, o in pre.get(n, []):
            if p not in seen:
                seen[p] = o
                reach(p, seen)
        return seen
    for o in outs:
        got = reach(o, {})
        miss = [i for i in ins if i not in got]
        if miss: return 'the output %r does not depend on %r in %r' % (o, miss, t)
        extra = [g for g in got if g not in ins and g != 'FORCE_DO_CMD' and not g.endswith('.intermediate')]
        if extra: return 'the output %r also depends on %r' % (o, extra)
        if any(got[i] != oo for i in ins): return 'order-only is %r for %r' % (not oo, t)
        if ('FORCE_DO_CMD' in got) != force: return 'FORCE_DO_CMD in %r' % t
        if (o in [p for p, _ in pre.get('.PHONY', [])]) != phony: return 'phony in %r' % t
        if acts:
            rs = rec.get(o, []) + [r for p in got for r in rec.get(p, [])]
            if not any([l for l in r if l.startswith('@echo')] == ['@echo act ' + a for a in acts] for r in rs): return 'the actions of %r are not its recipe in %r' % (o, t)
    return None


def c_realrule(tier, rng):
    for x in c_rule(tier, rng):
        outs, ins, f = x
        if f[1] or f[3]: continue
        yield (outs, ins, [['one'] if f[0] is None else f[0], False, f[2], False, f[4], None])


def r_realrule(x):
    outs, ins, _ = x
    t = rule_text(x)
    with scratch() as d:
        t += 'FORCE_DO_CMD:\n' + ''.join('.PHONY: %s\n%s:\n\t@echo \'in:%s:\'\n' % (K.QuoteSpaces(i), K.QuoteSpaces(i), i) for i in ins)
        with open(d + '/Makefile', 'w') as f: f.write(t)
        for o in outs:
            p = subprocess.run(['make', '-rR', '-s', '--no-print-directory', '-C', d, '--', o], capture_output=True, text=True)
            if p.returncode: return 'make cannot build %r: %s of %r' % (o, p.stderr, t)
            got = set(p.stdout.split('\n'))
            miss = [i for i in ins if 'in:%s:' % i not in got]
            if miss: return 'make does not bring %r up to date for %r in %r' % (miss, o, t)
            if not any(l.startswith('act ') for l in got): return 'make runs no action for %r in %r' % (o, t)


# -- whole projects through the generator and make
WORDS = ['plain', 'X=1', 'a b', 'q"q', "s's", '*', 'c;d', 'e&f', 'h#i', '\\#', 'a\\b', '##', '<>|', '-x', '~', '(a)', 'x:y', 'a  b']
GEN = "import sys\na=sys.argv[1:]\ni=a.index('--');j=a.index('--',i+1)\nt=repr(a[:i])+''.join(open(n).read() for n in a[i+1:j])\nfor o in a[j+1:]: open(o,'w').write(t)\n"
INS = ['i1.txt', 'i2.txt', 'n/i3.txt']


def c_project(tier, rng):
    while True:
        dirs = rng.sample(['', 'sub', 'sub/deep', 'other'], rng.randrange(1, 4))
        if '' not in dirs: dirs[0] = ''
        acts = []
        for i in range(rng.randrange(1, 6)):
            j = rng.randrange(i) if i and rng.random() < .4 else None          # joins the target of another action
            dr = rng.choice(dirs) if j is None else acts[j][0]
            acts.append((dr, j, rng.sample(INS, rng.randrange(1, 4)), ['o%d_%d.out' % (i, k) for k in range(rng.randrange(1, 4))], rng.choice(WORDS), rng.sample(range(i), rng.randrange(min(i, 2) + 1)) if j is None else []))
        yield (acts, [(rng.choice(dirs), rng.sample(INS[::2], rng.randrange(1, 3)))] if rng.random() < .6 else [],
               [(rng.choice(dirs), rng.sample(['r.in', 's.in', 'n/t.in'], rng.randrange(1, 4)), rng.choice([[], ['i1.txt']]), rng.choice(WORDS), rng.random() < .5)] if rng.random() < .6 else [])


def gyp_make(d, *targets):
    env = dict(os.environ, PYTHONPATH=PYLIB, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-c', 'import sys, gyp; sys.exit(gyp.main(sys.argv[1:]))', '--depth=.', '-fmake', '--no-circular-check', 'p.gyp'], cwd=d, env=env, capture_output=True, text=True)
    return 'gyp failed: %s' % (p.stdout + p.stderr)[-600:] if p.returncode else run_make(d, *targets)


def run_make(d, *targets):
    p = subprocess.run(['make', '-s', *(targets or ['all_of_it']), 'BUILDTYPE=Default'], cwd=d, capture_output=True, text=True)
    return 'make failed: %s' % (p.stdout + p.stderr)[-600:] if p.returncode else None


def find(d, o): return [os.path.join(r, o) for r, _, fs in os.walk(d + '/out') if o in fs]


def r_project(x):
    acts, copies, rules = x
    root = lambda i: i if acts[i][1] is None else root(acts[i][1])
    with scratch() as d:
        files, tg = {}, {}
        for i, (dr, j, ins, outs, word, deps) in enumerate(acts):
            gen = os.path.relpath('gen.py', dr or '.')
            cmd = ['python3', gen, word, '--'] + ins + ['--'] + ['<(INTERMEDIATE_DIR)/' + o if o.endswith('1.out') else '<(PRODUCT_DIR)/%s' % o for o in outs]
            if j is None:
                tg[i] = {'target_name': 't%d' % i, 'type': 'none', 'dependencies': list(dict.fromkeys(os.path.relpath(acts[k][0] or '.', dr or '.') + '/p.gyp:t%d' % root(k) for k in deps)), 'actions': []}
                files.setdefault(dr, []).append(tg[i])
            tg[root(i)]['actions'].append({'action_name': 'act%d' % i, 'inputs': ins + [gen], 'outputs': cmd[-len(outs):], 'action': cmd})
        for n, (dr, ins) in enumerate(copies):
            files.setdefault(dr, []).append({'target_name': 'c%d' % n, 'type': 'none', 'copies': [{'destination': '<(PRODUCT_DIR)/copied%d' % n, 'files': ins}]})
        for n, (dr, srcs, more, word, two) in enumerate(rules):
            gen = os.path.relpath('gen.py', dr or '.')
            outs = ['<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).r%d%d' % (n, k) for k in range(1 + two)]
            files.setdefault(dr, []).append({'target_name': 'r%d' % n, 'type': 'none', 'sources': srcs,
                                             'rules': [{'rule_name': 'rule', 'extension': 'in', 'inputs': more + [gen], 'outputs': outs,
                                                        'action': ['python3', gen, word, '<(RULE_INPUT_NAME)', '--', '<(RULE_INPUT_PATH)'] + more + ['--'] + outs}]})
        dd = lambda dr, n: (dr or '.') + '/p.gyp:' + n
        files.setdefault('', []).append({'target_name': 'all_of_it', 'type': 'none',
                                         'dependencies': [dd(acts[i][0], 't%d' % i) for i in tg] + [dd(dr, 'c%d' % i) for i, (dr, _) in enumerate(copies)] + [dd(r[0], 'r%d' % i) for i, r in enumerate(rules)]})
        for dr, ts in files.items():
            os.makedirs(os.path.join(d, dr, 'n'), exist_ok=True)
            with open(os.path.join(d, dr, 'p.gyp'), 'w') as f: f.write(repr({'targets': ts}))
            for n in INS + ['r.in', 's.in', 'n/t.in']:
                with open(os.path.join(d, dr, n), 'w') as f: f.write('%s in %s\n' % (n, dr))
        with open(d + '/gen.py', 'w') as f: f.write(GEN)
        m = gyp_make(d)
        if m: return m

        def check(text, when):
            for i, (dr, j, ins, outs, word, deps) in enumerate(acts):
                want = repr([word]) + ''.join(text(n, dr) for n in ins)
                for o in outs:
                    fs = find(d, o)
                    if len(fs) != 1: return 'the output %s of action %d was written to %r' % (o, i, fs)
                    if ('/obj' in fs[0]) != o.endswith('1.out'): return 'the output %s was written to %s' % (o, fs[0])
                    with open(fs[0]) as f: m = diff(when + 'the output %s' % o, f.read(), want)
                    if m: return m
            for n, (dr, ins) in enumerate(copies):
                for i in ins:
                    q = os.path.join(d, 'out/Default/copied%d' % n, os.path.basename(i))
                    if not os.path.exists(q) or open(q).read() != text(i, dr): return when + 'the copy %s was not made' % q
            for n, (dr, srcs, more, word, two) in enumerate(rules):
                for s in srcs:
                    want = repr([word, os.path.basename(s)]) + ''.join(text(i, dr) for i in [s] + more)
                    for k in range(1 + two):
                        fs = find(d, os.path.basename(s)[:-3] + '.r%d%d' % (n, k))
                        if len(fs) != 1: return 'output %d of rule %d for %s was written to %r' % (k, n, s, fs)
                        with open(fs[0]) as f: m = diff(when + 'output %d of rule %d for %s' % (k, n, s), f.read(), want)
                        if m: return m
        m = check(lambda n, dr: '%s in %s\n' % (n, dr), '')
        if m: return m
        # a newer input is taken up by whatever uses it
        dr, n = acts[-1][0], acts[-1][2][-1]
        ch = os.path.join(d, dr, n)
        st = os.stat(ch)
        with open(ch, 'w') as f: f.write('changed\n')
        os.utime(ch, (st.st_atime + 50, st.st_mtime + 50))
        return run_make(d) or check(lambda a, b: 'changed\n' if (a, b) == (n, dr) else '%s in %s\n' % (a, b), 'after a change of %s in %r: ' % (n, dr))


CDEF = ['-', ' ', '#', '\\', "'", '"', 'a', '(', '%', ';', '=', '*', '&', '<']


def c_cproject(tier, rng):
    while True:
        yield ([item(rng, CDEF) for _ in range(rng.randrange(1, 4))], rng.choice(['none', 'static_library', 'shared_library']), [item(rng, CDEF)], rng.choice(['', 'sub']), rng.choice(['main', 'libmain', 'a-b']))


def c_lit(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def r_cproject(x):
    """a C program whose defines, include directories and libraries all have to arrive"""
    defs, lib, ldefs, dr, name = x
    with scratch() as d:
        t = {'target_name': name, 'type': 'executable', 'sources': ['m.c', 'n/n.c'], 'defines': ['D%d=%s' % (i, c_lit(s)) for i, s in enumerate(defs)], 'include_dirs': ['inc', '../up' if dr else 'up'], 'dependencies': []}
        files = {dr: [t]}
        if lib != 'none':
            files.setdefault('', []).append({'target_name': 'libdep', 'type': lib, 'sources': ['dep.c'], 'defines': ['L=' + c_lit(ldefs[0])], 'direct_dependent_settings': {'defines': ['FROMDEP=7']}})
            t['dependencies'].append(('../' if dr else '') + 'p.gyp:libdep')
        files.setdefault('', []).append({'target_name': 'all_of_it', 'type': 'none', 'dependencies': [(dr or '.') + '/p.gyp:' + name]})
        for q, ts in files.items():
            os.makedirs(os.path.join(d, q, 'n'), exist_ok=True)
            with open(os.path.join(d, q, 'p.gyp'), 'w') as f: f.write(repr({'targets': ts}))
        os.makedirs(d + '/up')
        os.makedirs(os.path.join(d, dr, 'inc'))
        src = {'up/u.h': '#define UP "up"\n', os.path.join(dr, 'inc/i.h'): '#define INC "inc"\n', 'dep.c': 'const char *dep(void) { return L; }\n', os.path.join(dr, 'n/n.c'): 'const char *n(void) { return D0; }\n',
               os.path.join(dr, 'm.c'): '#include <stdio.h>\n#include "i.h"\n#include "u.h"\nconst char *n(void);\n' + ('const char *dep(void);\n' if lib != 'none' else '') + 'int main(void) {\n puts(n()); puts(INC UP);\n'
               + ''.join(' puts(D%d);\n' % i for i in range(len(defs))) + (' puts(dep()); printf("%d\\n", FROMDEP);\n' if lib != 'none' else '') + ' return 0; }\n'}
        for q, s in src.items():
            with open(os.path.join(d, q), 'w') as f: f.write(s)
        m = gyp_make(d)
        if m: return m
        p = subprocess.run([d + '/out/Default/' + name], capture_output=True, text=True)
        return diff('what the program prints', p.stdout, ''.join(s + '\n' for s in [defs[0], 'incup'] + defs + ([ldefs[0], '7'] if lib != 'none' else [])))


def bounded():
    b = 'every text of up to 3 of 11 and 4 of 6 awkward characters, then random texts'
    return [Bounded('define', c_text, r_define, b, budget=(5, 60)), Bounded('dollar', c_text, r_dollar, b, budget=(3, 20)), Bounded('quote', c_text, r_quote, b, budget=(4, 40)),
            Bounded('spaces', c_text, r_spaces, b, budget=(4, 40)), Bounded('name', c_text, r_name, b, budget=(3, 20)),
            Bounded('paths', c_paths, r_paths, '19 path shapes in 6 directories with 3 prefixes, then random paths', budget=(5, 40)),
            Bounded('output-names', c_names, r_names, 'all target types, flavors, and combinations of product settings', budget=(6, 40)),
            Bounded('list', c_list, r_list, 'random lists of up to 5 items', budget=(6, 60)),
            Bounded('real-list', c_reallist, r_reallist, 'defines through make and sh', budget=(6, 60)),
            Bounded('rule', c_rule, r_rule, 'random rules with up to 4 outputs and 8 inputs', budget=(6, 60)),
            Bounded('real-rule', c_realrule, r_realrule, 'random rules run by make', budget=(7, 60)),
            Bounded('project', c_project, r_project, 'random projects of actions, rules and copies in up to 3 directories, generated, built by make, changed and built again', budget=(20, 150), per=60),
            Bounded('c-project', c_cproject, r_cproject, 'random C programs with awkward defines, a library and include directories, generated, built and run', budget=(10, 80), per=60)]


META = dict(level='other', technique='contract-based deductive verification (pyvc: VCs from the real source; z3/cvc5 and an exact decision procedure for string transducers)',
            note='The text encoders of the make generator (EscapeCppDefine, EscapeMakeVariableExpansion, QuoteIfNecessary, QuoteSpaces, StringToMakefileVariable) and its path functions (Sourceify, Absolutify, Objectify, ComputeOutputBasename) are proved '
                 'against readers of make and shell text or their documented path. WriteList, WriteMakeRule and whole generated Makefiles are bounded: run on stated inputs, read back and executed by make.',
            assumptions=['make reads text as the readers in props/G22.py and vlib/readers.py do (compared with GNU make on bounded inputs)', 'os.path functions are pure'])
