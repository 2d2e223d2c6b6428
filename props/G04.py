"""G04 Relative path rewriting keeps pointing at the same file."""
import inspect
import itertools
import os
import posixpath
import re
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from pyvc.call import uf, REPLACE_ALL
from pyvc.strops import RE
from vlib import models as M
from vlib.load import load
import gyp.common as C
import gyp.input as I

V = T.V


def plainfn(f): return getattr(f, 'func', None) or inspect.unwrap(f)


# --- RelativePath: walking the result from the one directory leads to the other
REAL, ABS = [M.fun('os.path.' + n, T.String, T.String) for n in ('realpath', 'abspath')]
SPLIT = uf('split_on', T.String, T.String, T.SeqV)
PREFIX = z3.Function('common_prefix', T.SeqV, T.SeqV, T.SeqV)
LEADS = z3.Function('components_reached', T.SeqV, T.String, T.SeqV)
UP, HERE, NIL = [V.StrV(T.sv(c)) for c in ('..', '.', '')]
REPEAT = z3.Function('repeat_', V, T.Int, T.SeqV)


def walk_step(s, x, *_):
    return z3.If(x == UP, z3.If(z3.Length(s) > 1, z3.Extract(s, z3.IntVal(0), z3.Length(s) - 1), s), z3.If(z3.Or(x == HERE, x == NIL), s, z3.Concat(s, z3.Unit(x))))


WALK = T.Scan('walk', walk_step, T.SeqV)
NAMES_ = T.Fold('all_names', lambda: z3.BoolVal(True), lambda acc, x, s: z3.And(acc, x != UP, x != HERE, x != NIL), T.Bool)


def commonprefix(eng, st, args, kw, node):
    sp = eng.spine(st, args[0]) if len(args) == 1 and not kw else None
    if sp is None or len(sp) != 2: raise Unsupported("os.path.commonprefix")
    ls = [eng.as_listseq(st, x) for x in sp]
    if None in ls: raise Unsupported("os.path.commonprefix")
    eng.assumed.add("os.path.commonprefix of two lists is their longest common prefix")
    a, b = ls[0][0], ls[1][0]
    p = PREFIX(a, b)
    n = z3.Length(p)
    st = st.assume(n <= z3.Length(a), n <= z3.Length(b), z3.Extract(a, z3.IntVal(0), n) == p, z3.Extract(b, z3.IntVal(0), n) == p, z3.Or(n == z3.Length(a), n == z3.Length(b), a[n] != b[n]))
    return [eng.new_root(st, 'v', V.ListV(p), TList(StrT))]


def ends(e):
    """components of what is named and of the directory it is seen from"""
    sep = T.sv('/')
    return SPLIT(z3.If(e['follow_path_symlink'], REAL(e['path']), ABS(e['path'])), sep), SPLIT(REAL(e['relative_to']), sep)


def tail(q, n): return z3.Extract(q, n, z3.Length(q) - n)


def rel_facts(e):
    a, b = ends(e)
    one = z3.IntVal(1)
    out = [z3.And(z3.Length(q) > 1, q[0] == NIL, NAMES_.f(tail(q, one))) for q in (a, b)]           # a real path that is not the root
    n = z3.Length(PREFIX(a, b))
    k = z3.Length(b) - n
    up = REPEAT(UP, k)
    out += [z3.Implies(z3.And(n >= 1), lem_up(b, k)), lem_names(b, up, tail(a, n)), z3.Implies(n >= 1, lem_part(tail(a, one), n - 1))]
    out += [LEADS(b, T.sv('')) == b, RP(e['path'], e['relative_to'], e['follow_path_symlink']) == e.r]
    r = e.r
    if T.is_app(r, 'join_all'): out += [LEADS(b, r) == WALK(b, r.arg(0)), LEADS(b, r) == WALK.f(b, r.arg(0)), WALK.f(b, z3.Concat(up, tail(a, n))) == WALK.f(b, z3.Concat(up, tail(a, n)))]
    return out


def lem_up(b, k): return z3.Implies(z3.And(k >= 0, k < z3.Length(b)), WALK.f(b, REPEAT(UP, k)) == z3.Extract(b, z3.IntVal(0), z3.Length(b) - k))
def lem_names(b, u, q): return z3.Implies(NAMES_.f(q), WALK.f(b, z3.Concat(u, q)) == z3.Concat(WALK.f(b, u), q))
def lem_part(q, n): return z3.Implies(z3.And(NAMES_.f(q), n >= 0, n <= z3.Length(q)), NAMES_.f(tail(q, n)))


def prove_up():
    b, k = z3.Const('b', T.SeqV), z3.Int('k')
    r = REPEAT(UP, k)
    yield 'base', [REPEAT(UP, z3.IntVal(0)) == T.empty(), WALK.f(b, T.empty()) == b], lem_up(b, z3.IntVal(0))
    yield 'step', [lem_up(b, k), k >= 0, REPEAT(UP, k + 1) == z3.Concat(r, z3.Unit(UP)), WALK.f(b, z3.Concat(r, z3.Unit(UP))) == walk_step(WALK.f(b, r), UP)], lem_up(b, k + 1)


def prove_names():
    b, u, q, x = z3.Const('b', T.SeqV), z3.Const('u', T.SeqV), z3.Const('q', T.SeqV), z3.Const('x', V)
    yield 'base', [], lem_names(b, u, T.empty())
    yield 'step', [lem_names(b, u, q), NAMES_.f(z3.Concat(q, z3.Unit(x))) == NAMES_(T.concat(q, T.unit(x))), WALK.f(b, z3.Concat(u, q, z3.Unit(x))) == walk_step(WALK.f(b, z3.Concat(u, q)), x)], lem_names(b, u, z3.Concat(q, z3.Unit(x)))


def prove_part():
    q, x, n = z3.Const('q', T.SeqV), z3.Const('x', V), z3.Int('n')
    t = tail(q, n)
    yield 'base', [NAMES_.f(T.empty())], z3.Implies(n == 0, lem_part(T.empty(), n))
    q1 = z3.Concat(q, z3.Unit(x))
    yield 'step', [lem_part(q, n), n >= 0, n <= z3.Length(q), NAMES_.f(q1) == NAMES_(T.concat(q, T.unit(x))), NAMES_.f(z3.Concat(t, z3.Unit(x))) == NAMES_(T.concat(t, T.unit(x))), tail(q1, n) == z3.Concat(t, z3.Unit(x))], lem_part(q1, n)
    yield 'all-of-it', [NAMES_.f(T.empty())], lem_part(q, z3.Length(q))
    yield 'tails', [n >= 0, n <= z3.Length(q)], tail(q1, n) == z3.Concat(t, z3.Unit(x))


RELATIVE = Contract('RelativePath', plainfn(C.RelativePath), {'path': StrT, 'relative_to': StrT, 'follow_path_symlink': BoolT}, ret=StrT,
                    ensures=lambda e: {'leads-to-the-same-file': LEADS(ends(e)[1], e.r) == ends(e)[0]}, facts=rel_facts,
                    assumed=["a real or absolute path splits into '' and names that are neither '', '.' nor '..' (the root itself: bounded)", 'walking os.path.join(*components) from a directory walks the components one after the other'])


RP = z3.Function('relative_path', T.String, T.String, T.Bool, T.String)
SEP = T.sv('/')


def leads(frm, r, to): return LEADS(SPLIT(REAL(frm), SEP), r) == SPLIT(REAL(to), SEP)


def invert_ens(e):
    p = e['path']
    top = T.acc('s', e.val('toplevel_dir')) if 'toplevel_dir' in e.params and not isinstance(e.params['toplevel_dir'], Py) else T.sv('.')
    if not isinstance(e.params['toplevel_dir'], Py): top = z3.If(e.val('toplevel_dir') == V.NoneV, T.sv('.'), T.acc('s', e.val('toplevel_dir')))
    j = M.fun('os.path.join', T.String, T.String, T.String)(top, p)
    return {'empty': z3.Implies(p == T.sv(''), e.r == p), 'leads-back': z3.Implies(p != T.sv(''), leads(j, e.r, top))}


INVERT = Contract('InvertRelativePath', plainfn(C.InvertRelativePath), {'path': StrT, 'toplevel_dir': Opt(StrT)}, ret=StrT, ensures=invert_ens)
ISABS = M.fun('os.path.isabs', T.String, T.Bool)
FIX = Contract('FixIfRelativePath', C.FixIfRelativePath, {'path': StrT, 'relative_to': StrT}, ret=StrT,
               ensures=lambda e: {'absolute-unchanged': z3.Implies(ISABS(e['path']), e.r == e['path']), 'leads-to-the-same-file': z3.Implies(z3.Not(ISABS(e['path'])), leads(e['relative_to'], e.r, e['path']))})
DIRNAME, NORM, JOIN = M.fun('os.path.dirname', T.String, T.String), M.fun('os.path.normpath', T.String, T.String), M.fun('os.path.join', T.String, T.String, T.String)
UNREL = Contract('UnrelativePath', C.UnrelativePath, {'path': StrT, 'relative_to': StrT}, ret=StrT, ensures=lambda e: {'named-from-the-directory-of-the-file': e.r == NORM(JOIN(DIRNAME(e['relative_to']), e['path']))})


def chars(s): return z3.Union(*[z3.Re(T.sv(c)) for c in s])


ANY = z3.Star(z3.AllChar(z3.ReSort(T.String)))
SPECIAL = z3.Concat(z3.Option(chars('"\'')), chars('/$-<>^'), ANY)


def make_ens(e):
    it, to, fro = e['item'], e['to_file'], e['fro_file']
    verbatim = z3.Or(to == fro, z3.InRe(it, SPECIAL))
    rp = RP(DIRNAME(fro), DIRNAME(to), z3.BoolVal(True))
    x = REPLACE_ALL(NORM(JOIN(rp, it)), T.sv('\\'), SEP)
    return {'verbatim': z3.Implies(verbatim, e.r == it), 'named-from-the-other-directory': z3.Implies(z3.Not(verbatim), e.r == z3.If(z3.SuffixOf(SEP, it), z3.Concat(x, SEP), x)),
            'which-leads-to-the-first': z3.Implies(z3.Not(verbatim), leads(DIRNAME(to), rp, DIRNAME(fro)))}


MAKE = Contract('MakePathRelative', I.MakePathRelative, {'to_file': StrT, 'fro_file': StrT, 'item': StrT}, ret=StrT, ensures=make_ens)
MAKEINT = Contract('MakePathRelative-of-a-number', I.MakePathRelative, {'to_file': StrT, 'fro_file': StrT, 'item': IntT}, ret=Any,
                   ensures=lambda e: {'same-file': z3.Implies(e['to_file'] == e['fro_file'], e.rv == V.IntV(e['item']))})

# --- which settings hold paths
B_, W_ = z3.String('name'), z3.String('suffixes')
MERGE_CHARS = z3.Star(chars('=+?!'))
ENDINGS = ['_%s%s' % (n, p) for n in ('dir', 'file', 'path') for p in ('', 's')]


def section_hyp(e): return [e['section'] == z3.Concat(B_, W_), z3.InRe(W_, MERGE_CHARS), z3.Not(z3.InRe(B_, z3.Concat(ANY, chars('=+?!'))))]


def section_cands(lv):
    return {'stripped:' + n: z3.And(z3.PrefixOf(B_, t), z3.InRe(z3.SubString(t, z3.Length(B_), z3.Length(t) - z3.Length(B_)), MERGE_CHARS)) for n, t in lv.scalars(TStr) if not z3.is_string_value(t)}


SECTION_ = Contract('IsPathSection', I.IsPathSection, {'section': StrT}, ret=Any, globs={'path_sections': TSet(StrT)}, requires=section_hyp,
                    ensures=lambda e: {'names-a-path': e.rb() == z3.Or(z3.IsMember(V.StrV(B_), e.eng.read(e.st0, e.params['path_sections'])), *[z3.SuffixOf(T.sv(n), B_) for n in ENDINGS])},
                    cands=section_cands)


def contracts():
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, models={**M.PATHS, **RE, 'languages': True, os.path.commonprefix: commonprefix}))
    lem = [(Lemma('walking-up', prove_up), mk()), (Lemma('walking-down', prove_names), mk()), (Lemma('names', prove_part), mk())]
    return [(RELATIVE, mk())] + lem + [(INVERT, mk(RELATIVE)), (FIX, mk(RELATIVE)), (UNREL, mk()), (MAKE, mk(RELATIVE)), (MAKEINT, mk(RELATIVE)), (SECTION_, mk())]


# ------------------------------------------------------------------ bounded: where do the paths lead
def forget():
    for f in (C.RelativePath, C.InvertRelativePath): getattr(f, 'cache', {}).clear()


NAMES = ['a', 'b', 'ab', 'a b', '..', '.', 'a', 'b', 'é', '-x', 'l', 'ld', 'a.b', '...', '..a', 'c']


def rel(rng, n=5):
    k = rng.randrange(n)
    return '/'.join(rng.choice(NAMES) for _ in range(k)) + ('/' if k and rng.random() < .15 else '')


def some_path(rng):
    """a path: relative, absolute, below the working directory (@) or far away"""
    r = rng.random()
    if r < .7: return rel(rng)
    if r < .85: return '@/' + rel(rng)
    return rng.choice(['/', '/usr', '/usr/lib/', '/a/b', '/../a', '/a/../..', '//a/b', '@', '@/..', '@x', '@/../x', '/usr/../usr/./lib'])


def c_rel(tier, rng):
    """inputs: (calls one after the other: (path, directory, follow), symbolic links)"""
    for n in (0, 1, 2, 3):
        for p in itertools.product(['a', 'b', '..', ''], repeat=n):
            for q in itertools.product(['a', 'ab', '..'], repeat=2): yield [('/'.join(p), '/'.join(q), True)], []
    while True:
        links = rng.choice([[], [], [('l', 'a/f')], [('ld', 'a')], [('l', 'a/f'), ('ld', 'a/b')], [('a/l', '../b/f')], [('ld', '../out')]])
        calls = [(some_path(rng), some_path(rng), rng.random() < .7) for _ in range(rng.choice([1, 1, 2, 3]))]
        if links:
            l = links[-1][0]
            calls = [(rng.choice([l, l + '/' + rel(rng), p]), rng.choice([l, l + '/' + rel(rng), q]), f) for p, q, f in calls]
        if rng.random() < .3: calls.append((calls[0][0], calls[0][1], not calls[0][2]))
        yield calls, links


def inside(f):
    def run(x):
        with scratch() as d:
            d = os.path.realpath(d) + '/w'
            os.makedirs(d + '/a/b')
            os.makedirs(d + '/b')
            os.makedirs(d + '/../out/k')
            for p in ('a/f', 'b/f', 'a/b/f'): open(d + '/' + p, 'w').close()
            os.chdir(d)
            forget()
            try: return f(x, d)
            finally: forget()
    return run


def absolute(p):
    p = os.path.abspath(p)
    return p[1:] if p.startswith('//') else p


def at(p, d): return d + p[1:] if p.startswith('@') else p


def dotdot_after_link(p):
    """a '..' that follows a symbolic link: read as text it leads elsewhere"""
    cur = '/'
    for c in os.path.join(os.getcwd(), p).split('/'):
        if c == '..' and os.path.islink(cur): return True
        cur = os.path.normpath(os.path.join(cur, c))
    return False


@inside
def r_rel(x, d):
    calls, links = x
    for a, b in links: os.symlink(b, a)
    for p, q, follow in calls:
        p, q = at(p, d), at(q, d)
        if not follow and links and (dotdot_after_link(p)): continue
        o = outcome(C.RelativePath, p, q) if follow else outcome(C.RelativePath, p, q, False)
        if o[0] == 'raise': return '%r from %r: %r' % (p, q, o[1:])
        r = o[1]
        if os.path.isabs(r): return '%r from %r is absolute: %r' % (p, q, r)
        m = diff('%r from %r is %r, which leads to' % (p, q, r), os.path.realpath(os.path.join(os.path.realpath(q), r)), os.path.realpath(absolute(p)) if p.startswith('//') else os.path.realpath(p))
        if m: return m
        if not follow:
            m = diff('%r from %r without following links is %r, which names' % (p, q, r), absolute(os.path.join(os.path.realpath(q), r)), absolute(p))
            if m: return m
        if follow and any(os.path.islink(os.path.normpath(os.path.join(os.path.realpath(q), *r.split('/')[:i + 1]))) for i in range(len(r.split('/'))) if r): return '%r from %r is %r, which goes through a link' % (p, q, r)
        o = outcome(C.FixIfRelativePath, p, q)
        if o[0] == 'raise': return 'FixIfRelativePath(%r, %r): %r' % (p, q, o[1:])
        if os.path.isabs(p):
            if o[1] != p: return 'the absolute path %r became %r' % (p, o[1])
        else:
            m = diff('%r fixed for %r is %r, which leads to' % (p, q, o[1]), os.path.realpath(os.path.join(os.path.realpath(q), o[1])), os.path.realpath(absolute(p)) if p.startswith('//') else os.path.realpath(p))
            if m or os.path.isabs(o[1]): return m or '%r fixed for %r is absolute' % (p, q)


def c_inv(tier, rng):
    """inputs: (path, top directory or None, symbolic links)"""
    for p in itertools.product(['a', 'b', '..', '.'], repeat=3):
        for t in (None, '.', 'a', '..', '@'): yield '/'.join(p), t, []
    while True: yield some_path(rng), rng.choice([None, None, '.', 'a', 'a/b', '@', '@/b', '..', '', some_path(rng)]), rng.choice([[], [], [('ld', 'a/b')]])


@inside
def r_inv(x, d):
    p, top, links = x
    for a, b in links: os.symlink(b, a)
    p, t = at(p, d), at(top, d) if top is not None else None
    o = outcome(C.InvertRelativePath, p, t) if top is not None else outcome(C.InvertRelativePath, p)
    if o[0] == 'raise': return 'failed: %r' % (o[1:],)
    if not p: return None if o[1] == p else 'the empty path became %r' % (o[1],)
    t = '.' if t is None else t
    m = diff('%r leads to' % o[1], os.path.realpath(os.path.join(os.path.realpath(os.path.join(t, p)), o[1])), os.path.realpath(t))
    return m or ('absolute: %r' % o[1] if os.path.isabs(o[1]) else None)


def c_un(tier, rng):
    """inputs: (path, file it is relative to)"""
    for p in itertools.product(['a', 'b', '..', '.'], repeat=2):
        for q in itertools.product(['a', '..', 'x'], repeat=3): yield '/'.join(p), '/'.join(q)
    while True: yield some_path(rng), some_path(rng)


@inside
def r_un(x, d):
    p, q = at(x[0], d), at(x[1], d)
    o = outcome(C.UnrelativePath, p, q)
    if o[0] == 'raise': return 'failed: %r' % (o[1:],)
    return diff('%r names' % o[1], absolute(o[1]), absolute(os.path.join(os.path.dirname(q), p)))


SECTION = re.compile(r'_(dir|file|path)s?\Z')
BASE = {'destination', 'files', 'include_dirs', 'inputs', 'libraries', 'outputs', 'sources'}


def is_path(k, extra=()):
    k = k.rstrip('=+?!')
    return k in BASE or k in extra or bool(SECTION.search(k))


def c_section(tier, rng):
    """inputs: (name of a setting, further path settings of the generator)"""
    bits = ['_', 'dir', 'file', 'path', 's', 'x', '=', '+', '?', '!', '/', 'sources', 'inputs', 'd', 'my', '', 'Dir', 'mac_bundle_resources', 'include_dirs', 'files', 'libraries', 'ir', 'le', 'S']
    for n in (0, 1, 2, 3):
        for p in itertools.product(bits[:12], repeat=n): yield ''.join(p), []
    while True: yield ''.join(rng.choice(bits) for _ in range(rng.randrange(1, 7))), rng.choice([[], ['mac_bundle_resources'], ['d', 'my']])


def with_sections(extra, f):
    saved = I.path_sections
    I.path_sections = set(BASE) | set(extra)
    try: return f()
    finally: I.path_sections = saved


def r_section(x):
    o = outcome(lambda: with_sections(x[1], lambda: I.IsPathSection(x[0])))
    return 'failed: %r' % (o[1:],) if o[0] == 'raise' else diff('%r is for paths' % x[0], bool(o[1]), is_path(x[0], x[1]))


FILES = ['p.gyp', 'q.gyp', 'a/p.gyp', 'a/q.gypi', 'a/b/x.gyp', 'b/x.gyp', '../out/o.gypi', './p.gyp', 'a/../b/y.gyp', '@/a/z.gyp', '../w/p.gyp', 'a//r.gyp', '/usr/x.gypi', 'c/d/e/f.gyp']
ITEMS = ['a', 'x.c', './x.c', '../x.c', '../../x', 'a/b', 'a/', '../a/', './', '..', '.', 'a//b', 'a/../b', '/x', '/x/', '$(V)/x', '$x', '-lfoo', '-', '<(V)', '<!(c)', '>(V)', '^(V)', '"$x', "'-l", '"<(V)"', "'/x'", '"^x', 'a$x', 'a-b', 'a<b', ' /x', ' x', '~x', '@x', '(x', 'a b/c d', 'é', '.x', '...', '=x', '%x', '!x', '#x', '_', '\u2028', '*.c']


def check_item(item, got, to, fro, d):
    if item == '' or '\\' in item: return None if isinstance(got, str) else 'became %r' % (got,)
    special = item[0] in '/$-<>^' or item[0] in '"\'' and item[1:2] != '' and item[1] in '/$-<>^'
    if to == fro or special: return None if got == item else '%r became %r' % (item, got)
    if item[0] in '"\'': return None
    if not isinstance(got, str): return '%r became %r' % (item, got)
    m = diff('%r became %r, which names' % (item, got), absolute(os.path.join(os.path.dirname(at(to, d)), got)), absolute(os.path.join(os.path.dirname(at(fro, d)), item)))
    if m: return m
    if item.endswith('/') != got.endswith('/'): return '%r became %r' % (item, got)


def some_item(rng):
    r = rng.random()
    if r < .6: return rng.choice(ITEMS)
    if r < .9: return rel(rng)
    return rng.choice(['', '"', "'", '$', '<', '/']) + rel(rng)


def c_item(tier, rng):
    """inputs: (file merged into, file merged from, item)"""
    for to in FILES[:6]:
        for fro in FILES[:6]:
            for i in ITEMS: yield to, fro, i
    while True: yield rng.choice(FILES), rng.choice(FILES), some_item(rng) if rng.random() < .97 else rng.choice([1, 0, 12, -3])


def number(i): return str(i) if isinstance(i, int) else i


@inside
def r_item(x, d):
    to, fro, i = x
    o = outcome(I.MakePathRelative, at(to, d), at(fro, d), i)
    if o[0] == 'raise': return 'failed: %r' % (o[1:],)
    return check_item(number(i), number(o[1]), to, fro, d)


KEYS = ['sources', 'include_dirs', 'defines', 'x_dir', 'x_file', 'my_paths', 'outputs', 'cflags', 'ldflags', 'libraries', 'name', 'x_dirx', 'sources!', 'x_path+', 'x_files=', 'y_dirs?', 'sources/', 'msvs_dir', 'dir', 'files', 'x_dir/', '_path']


def c_merge(tier, rng):
    """inputs: (file merged into, file merged from, settings)"""
    def val(rng, depth=1):
        r = rng.random()
        if r < .35: return some_item(rng)
        if r < .85 or not depth: return [some_item(rng) if rng.random() < .85 or not depth else {rng.choice(KEYS[:12]): val(rng, 0)} for _ in range(rng.randrange(4))]
        return {rng.choice(KEYS[:12]): val(rng, 0) for _ in range(rng.randrange(3))}
    while True: yield rng.choice(FILES), rng.choice(FILES), {k: val(rng) for k in rng.sample(KEYS, rng.randrange(1, 4)) if not (k[-1] in '=+?!' and k[:-1] in KEYS)}


def merged_ok(k, v, got, to, fro, d):
    if isinstance(v, str): return check_item(v, got, to, fro, d) if is_path(k) else None if got == v else '%s: %r became %r' % (k, v, got)
    if isinstance(v, dict):
        if not isinstance(got, dict): return '%s became %r' % (k, got)
        for k2 in v:
            m = merged_ok(k2, v[k2], got.get(k2), to, fro, d)
            if m: return m
        return
    if not isinstance(got, list): return '%s became %r' % (k, got)
    want, seen = [], []
    for i in v:          # items are not added twice
        if isinstance(i, dict) or (is_path(k) and to != fro and not i.startswith('-')): want.append(i)
        elif i.startswith('-') or i not in seen:
            want.append(i)
            seen.append(i)
    if len(want) != len(got): return None          # which items are equal after the rewriting is decided by G03
    for i, g in zip(want, got):
        m = merged_ok(k, i, g, to, fro, d) if not isinstance(i, dict) else next((m for m in (merged_ok(k2, i[k2], g.get(k2), to, fro, d) for k2 in i) if m), None)
        if m: return m


@inside
def r_merge(x, d):
    to, fro, s = x
    out = {}
    o = outcome(lambda: with_sections((), lambda: I.MergeDicts(out, s, at(to, d), at(fro, d))))
    if o[0] == 'raise': return 'failed: %r' % (o[1:],)
    for k, v in s.items():
        base = k[:-1] if isinstance(v, list) and k[-1] in '=+?' else k
        m = merged_ok(k, v, out.get(base), to, fro, d)
        if m: return m


def c_load(tier, rng):
    """inputs: (directory of the target, directory of the file it includes, directory of what it depends on, items)"""
    dirs = ['', 'a', 'a/b', 'b', 'c/d/e']
    while True: yield rng.choice(dirs), rng.choice(dirs), rng.choice(dirs), [i for i in (some_item(rng) for _ in range(rng.randrange(4))) if i and i[0] not in '<>^!@' and '\\' not in i and '<' not in i and '>' not in i and '^' not in i and not i.startswith(('"', "'"))]


def r_load(x):
    t, inc, dep, items = x
    j = lambda *p: posixpath.normpath(posixpath.join(*p))
    fi, ft, fd = j(inc, 'i.gypi'), j(t, 't.gyp'), j(dep, 'd.gyp')
    files = {fi: {'include_dirs': list(items), 'defines': ['../x', 'sub/y'], 'my_dir': 'z'},
             ft: {'targets': [{'target_name': 't', 'type': 'none', 'includes': [posixpath.relpath(fi, t or '.')], 'dependencies': [posixpath.relpath(fd, t or '.') + ':d']}]},
             fd: {'targets': [{'target_name': 'd', 'type': 'none', 'direct_dependent_settings': {'include_dirs': ['inc', '../up/'], 'defines': ['../x', 'D']}}]}}
    o = load(files, root=ft)
    if o[0] == 'raise': return 'failed: %r' % (o[1:],)
    got = next(v for k, v in o[1].targets.items() if k.startswith(ft + ':t#'))
    conf = got['configurations']['Default'] if 'Default' in got.get('configurations', {}) else got
    defs = conf.get('defines', got.get('defines'))
    if defs != ['../x', 'sub/y', 'D']: return 'the defines are %r' % (defs,)
    mine = got.get('my_dir', conf.get('my_dir'))
    m = check_item('z', mine, ft, fi, '')
    if m: return 'my_dir: ' + m
    incs = conf.get('include_dirs', got.get('include_dirs', []))
    want = {absolute(os.path.join(inc, i)) for i in items if i[0] not in '/$-'} | {i for i in items if i[0] in '/$-'} | {absolute(os.path.join(dep, i)) for i in ('inc', '../up/')}
    return diff('the include directories %r lead to' % incs, sorted({absolute(os.path.join(t, i)) if i[0] not in '/$-' or i not in items else i for i in incs}), sorted(want))


def bounded():
    return [Bounded('paths from directories', c_rel, r_rel, 'paths of up to 4 components and absolute ones, with and without links', budget=(4, 40)), Bounded('back to the top', c_inv, r_inv, 'paths of up to 4 components', budget=(2, 20)),
            Bounded('paths of files', c_un, r_un, 'paths of up to 4 components', budget=(1, 10)), Bounded('path settings', c_section, r_section, 'names of up to 6 parts', budget=(2, 15)),
            Bounded('items', c_item, r_item, 'items in 14 by 14 build files', budget=(4, 30)), Bounded('merging', c_merge, r_merge, 'random settings nested up to depth 2', budget=(4, 30)), Bounded('loading', c_load, r_load, 'an included file and a dependency in other directories', budget=(4, 30))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='RelativePath: walking the components of the result from the real directory reaches the components of the real path, for all paths and directories (three lemmas by induction); InvertRelativePath, FixIfRelativePath, UnrelativePath and MakePathRelative against it, with the items kept verbatim, the trailing slash, '
                 'and IsPathSection for every name and every set of path settings. Where the merging asks them is under contract in G03; paths with links, the root, and whole build files in several directories are bounded, decided by the file system.',
            assumptions=['realpath, abspath, join, dirname and normpath are pure functions of their arguments during a run (links and the working directory do not change)', 'normpath keeps what a path names (no .. after a symbolic link)', 'POSIX paths', 'RelativePath is deterministic (its memo is bounded)'])
