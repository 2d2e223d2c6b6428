"""G10 Restricted build-file evaluation accepts literals only and rejects duplicates."""
import ast
import os
import warnings
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from pyvc.expr import st_term, is_str
from vlib import models as M
import gyp.input as I
from gyp.common import GypError
warnings.filterwarnings('ignore', category=DeprecationWarning)

V = T.V
# A syntax tree node is an object with a kind. What it denotes and whether it is acceptable are defined by recursion over the (finite) tree:
# acceptable(n): n is a string, a list of acceptable nodes, or a dictionary whose keys are distinct strings and whose values are acceptable
# denotes(n):    the string, the list of what the elements denote, the dictionary in which key i maps to what value i denotes
KIND = z3.Function('node_kind', T.Int, T.Int)
CVAL = z3.Function('constant_value', T.Int, V)
OK, DEN = z3.Function('acceptable', T.Int, T.Bool), z3.Function('denotes', T.Int, V)
KDICT, KLIST, KCONST = 1, 2, 3
I0 = z3.Int('any_index')
NODE = TObj('Node')
CLASSES = {'Node': {'keys': TList(NODE), 'values': TList(NODE), 'elts': TList(NODE), 's': StrT, 'value': Any}, 'Module': {'body': TList(TObj('Stmt'))}, 'Stmt': {'value': NODE}}
PARSES, TREE, ISEXPR = z3.Function('parses', T.String, T.Bool), z3.Function('tree_of', T.String, T.Int), z3.Function('is_expression', T.Int, T.Bool)


def is_strnode(n): return z3.And(KIND(n) == KCONST, T.tester('StrV', CVAL(n)))


def node_tests(st, n, c):
    if c is ast.Dict: return KIND(n) == KDICT
    if c is ast.List: return KIND(n) == KLIST
    if c is getattr(ast, 'Str', None): return is_strnode(n)
    if c is ast.Constant: return KIND(n) == KCONST
    raise Unsupported("isinstance(node, %s)" % c.__name__)


TESTS = {'Node': node_tests, 'Module': lambda st, n, c: z3.BoolVal(issubclass(ast.Module, c)), 'Stmt': lambda st, n, c: ISEXPR(n) if c is ast.Expr else z3.BoolVal(issubclass(ast.stmt, c))}


class Tree:
    """the fields of the nodes (they never change: frame obligations)"""
    def __init__(self, fields): self.f = fields
    def items(self, name, n): return T.acc('items', T.aselect(self.f[('fld', 'Node', name)], n))
    def keys(self, n): return self.items('keys', n)
    def values(self, n): return self.items('values', n)
    def elts(self, n): return self.items('elts', n)


def text(n): return T.acc('s', CVAL(n))
def oid(x): return T.acc('oid', x)


def kids_ok(q): return z3.And(*[z3.Implies(inside(I0, q), OK(oid(q[I0])))])
def inside(i, q): return z3.And(i >= 0, i < T.length(q))


def wf(t, n):
    """what ast.parse guarantees about a node"""
    k, v = t.keys(n), t.values(n)
    return [T.length(k) == T.length(v), T.aselect(t.f[('fld', 'Node', 'value')], n) == CVAL(n), z3.Implies(is_strnode(n), T.aselect(t.f[('fld', 'Node', 's')], n) == CVAL(n))]


def req(e):
    return wf(Tree(e.st0.fields), e['node'])


NAMES = T.Fold('key_names', lambda: T.empty(T.SeqS), lambda acc, x, p: T.concat(acc, z3.Unit(text(oid(x)))), T.SeqS)      # the keys, in the order written


def denotes(t, n, r):
    """r is what n denotes, at an arbitrary index"""
    k, v, el = t.keys(n), t.values(n), t.elts(n)
    ri, rk = T.acc('items', r), T.acc('keys', r)
    return {'only-literals': z3.Or(is_strnode(n), KIND(n) == KDICT, KIND(n) == KLIST),
            'string': z3.Implies(is_strnode(n), r == CVAL(n)),
            'list': z3.Implies(KIND(n) == KLIST, z3.And(T.tester('ListV', r), T.length(ri) == T.length(el), z3.Implies(inside(I0, el), z3.And(OK(oid(el[I0])), ri[I0] == DEN(oid(el[I0])))))),
            'dictionary': z3.Implies(KIND(n) == KDICT, z3.And(T.tester('DictV', r), rk == NAMES(k), z3.Length(rk) == T.length(k), z3.Implies(inside(I0, k), z3.And(
                is_strnode(oid(k[I0])), T.dget(r, text(oid(k[I0]))) == DEN(oid(v[I0])), OK(oid(v[I0]))))))}


i_, j_ = z3.Ints('i j')


def distinct(k): return z3.ForAll([i_, j_], z3.Implies(z3.And(i_ >= 0, i_ < j_, j_ < T.length(k)), text(oid(k[i_])) != text(oid(k[j_]))))
def every(q, f): return z3.ForAll([i_], z3.Implies(inside(i_, q), f(oid(q[i_]))))


def bad(e):
    """something is wrong in the node; at a call: the node is not acceptable"""
    n = e['node']
    if e.st0 is not e.eng.entry.st0: return z3.Not(OK(n))
    t = Tree(e.st0.fields)
    k = t.keys(n)
    return z3.Not(z3.Or(is_strnode(n), z3.And(KIND(n) == KLIST, every(t.elts(n), OK)), z3.And(KIND(n) == KDICT, every(k, is_strnode), distinct(k), every(t.values(n), OK))))


def cands(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    e = lv.eng.entry
    n, t = e['node'], Tree(e.st0.fields)
    k, v, el = t.keys(n), t.values(n), t.elts(n)
    ln = T.length(lv.done)
    j = z3.Int('j')
    for nm, q in lv.lists():
        out['count:' + nm] = T.length(q) == ln
        out['elements:' + nm] = z3.Implies(inside(I0, q), z3.And(OK(oid(el[I0])), q[I0] == DEN(oid(el[I0]))))
    for nm, d, l in lv.kinds('dict'):
        dk = T.acc('keys', d)
        out['count:' + nm] = z3.Length(dk) == ln
        here = z3.And(I0 >= 0, I0 < ln)
        out['string keys:' + nm] = z3.Implies(here, is_strnode(oid(k[I0])))
        out['keys:' + nm] = dk == NAMES(lv.done)
        out['in:' + nm] = z3.Implies(here, T.member(dk, text(oid(k[I0]))))
        out['acceptable:' + nm] = z3.Implies(here, OK(oid(v[I0])))
        out['values:' + nm] = z3.Implies(here, T.dget(d, text(oid(k[I0]))) == DEN(oid(v[I0])))
        out['new:' + nm] = z3.Implies(distinct(k), z3.ForAll([j], z3.Implies(z3.And(j >= ln, j < T.length(k)), z3.Not(T.member(dk, text(oid(k[j])))))))
    return out


def facts_node(eng, s, seq, done, x, rest):
    t = Tree(s.fields)
    i = T.length(done)
    out = wf(t, oid(x))
    n = eng.entry['node'] if 'node' in eng.entry.params else None
    if n is not None: out += wf(t, oid(t.values(n)[i]))
    return out


NODEC = Contract('CheckNode', I.CheckNode, {'node': NODE, 'keypath': TList(StrT)}, ret=Any, requires=req, ensures=lambda e: denotes(Tree(e.st0.fields), e['node'], e.rv),
                 facts=lambda e: [OK(e['node']), e.rv == DEN(e['node'])] if e.st0 is not e.eng.entry.st0 else [], raises={AssertionError: bad, GypError: bad, TypeError: bad}, cands=cands, elem_facts=facts_node, fresh_result=True)


# ------------------------------------------------------------------ CheckedEval
def m_parse(eng, st, args, kw, node):
    out = []
    for s, v in eng.force(st, args[0]):
        if len(args) != 1 or kw or not is_str(v): raise Unsupported("ast.parse with these arguments")
        eng.assumed.add("ast.parse gives the syntax tree of the text, or a SyntaxError")
        for s2, good in eng.branch(s, mk_bool(PARSES(st_term(v)))): out.append((s2, Sc(TREE(st_term(v)), TObj('Module')) if good else Exc(SyntaxError)))
    return out


from pyvc.expr import mk_bool


def parts(e):
    f = e.st0.fields
    body = T.acc('items', T.aselect(f[('fld', 'Module', 'body')], TREE(e['file_contents'])))
    st = oid(body[0])
    return body, st, oid(T.aselect(f[('fld', 'Stmt', 'value')], st))


def ens_eval(e):
    body, st, n = parts(e)
    return {'one-expression': z3.And(PARSES(e['file_contents']), T.length(body) == 1, ISEXPR(st)), 'what-is-written': z3.And(OK(n), e.rv == DEN(n))}


def bad_eval(e):
    body, st, n = parts(e)
    return z3.Not(z3.And(T.length(body) == 1, ISEXPR(st), OK(n)))


def req_eval(e):
    body, st, n = parts(e)
    return wf(Tree(e.st0.fields), n)


EVALC = Contract('CheckedEval', I.CheckedEval, {'file_contents': StrT}, ret=Any, requires=req_eval, ensures=ens_eval, raises={SyntaxError: lambda e: z3.Not(PARSES(e['file_contents'])), AssertionError: bad_eval, GypError: bad_eval, TypeError: bad_eval})


def contracts():
    def mk():
        v = Verifier({I.CheckNode: NODEC}, models=dict(M.PATHS, **{}), classes=CLASSES)
        v.models[ast.parse] = m_parse
        v.class_tests = TESTS
        return v
    return [(NODEC, mk), (EVALC, mk)]


# ------------------------------------------------------------------ bounded contract runs
import builtins
import random
from vlib.load import load
STRS = ['', 'a', 'b', 'x y', "it's", '"q"', 'é', '\n', '\\', '0', '1', 'True', 'None', '#x', '<(v)', "'''", '\x00', 'a' * 300, '\u2028', '[', '{}']
KEYS = ['a', 'b', 'c', '', 'é', "k'", 'x+', 'a\\']
BADV = ['1', '-1', '1.5', 'None', 'True', '()', "('a',)", "('a', 'b')", 'set()', "{'a'}", "f'a'", "f'{PROBE}'", "b'a'", 'PROBE', 'PROBE.append(1)', "['a'][0]", "'a'.upper()", "'a' + 'b'", "'a' * 2", "'a' % 'b'", "not 'a'",
        "'a' if 'b' else 'c'", "[x for x in ['a']]", "{x: x for x in ['a']}", "lambda: 'a'", '...', "'a' < 'b'", "'a' and 'b'", "__import__('builtins').PROBE.append(1)", "(PROBE := 'a')", 'dict()', "list('a')", "dict(a='b')",
        "'%s' % PROBE.append(1)", "[PROBE.append(1)]", "{'a': PROBE.append(1)}", "(yield)", "[*['a']]", "[*PROBE]", "{**{'a': 'b'}}", "{'a': 'b', **{'c': 'd'}}", "{1: 'a'}", "{None: 'a'}", "{('a',): 'b'}", "{b'a': 'b'}",
        "{f'a': 'b'}", "{'a' + 'b': 'c'}", "{PROBE.append(1): 'a'}", "{PROBE: 'a'}", '0x10', '1j', "{(): 'a'}", "{1: 'a', 2: 'b'}", "['a', 1]", "[['a'], [['b', 2]]]"]
DUPS = ["{'a': 'b', 'a': 'b'}", "{'a': 'b', 'a': 'c'}", "{'a': 'b', 'c': 'd', \"a\": 'e'}", "{'': 'b', '': []}", "{'a': {'x': '1'}, 'a': {'y': '2'}}", "{'a': [], 'b': [], 'c': [], 'a': []}", "{'ab': 'x', 'a' 'b': 'y'}",
        "{'\\x61': 'x', 'a': 'y'}", "{'q': {'a': 'b', 'a': 'c'}}", "{'a': 'x', 'b': {'a': 'y'}, 'a': 'z'}"]
BADS = ["{'a': 'b'}\n{'c': 'd'}", "x = {'a': 'b'}", '', '# nothing', "import os\n{'a': 'b'}", "{'a': 'b'}; PROBE.append(1)", "PROBE.append(1)\n{'a': 'b'}", "if 'a': {'b': 'c'}", "def f(): pass", "PROBE.append(1)", "del PROBE",
        "{'a': 'b'", "'a' 'b", "return {'a': 'b'}", "pass", "assert {'a': 'b'}", "{'a': 'b'} == PROBE.append(1)", "for x in []: {'a': 'b'}"]


def data(rng, d):
    r = rng.random()
    if not d or r < .35: return rng.choice(STRS)
    if r < .65: return [data(rng, d - 1) for _ in range(rng.randrange(5))]
    return {k: data(rng, d - 1) for k in rng.sample(KEYS, rng.randrange(5))}


def write(rng, x):
    """some text that denotes x"""
    if isinstance(x, str):
        how = rng.randrange(6)
        if how == 0 and x: return '(' + ' '.join(repr(p) for p in (x[:len(x) // 2], x[len(x) // 2:])) + ')'
        if how == 1: return "'" + ''.join('\\u%04x' % ord(c) for c in x) + "'"
        if how == 2 and '"' not in x and '\\' not in x and x.isprintable(): return '"' + x + '"'
        if how == 3: return '(' + repr(x) + ')'
        if how == 4: return 'u' + repr(x)
        return repr(x)
    c = rng.choice(['', ',']) if x else ''
    nl = rng.choice(['', ' ', '\n  ', ' # it is\n'])
    if isinstance(x, list): return '[' + nl + (',' + nl).join(write(rng, y) for y in x) + c + nl + ']'
    return '{' + nl + (',' + nl).join(write(rng, k) + ':' + nl + write(rng, v) for k, v in x.items()) + c + nl + '}'


def exact(x): return ['list'] + [exact(y) for y in x] if type(x) is list else ['dict'] + [(exact(k), exact(v)) for k, v in x.items()] if type(x) is dict else (type(x).__name__, x)


def probe(f, *a, **k):
    """(outcome, what was executed)"""
    builtins.PROBE = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = outcome(f, *a, **k)
        return o, builtins.PROBE
    finally: del builtins.PROBE


def c_lit(tier, rng):
    for x in STRS: yield (x, 0)
    while True: yield (data(rng, rng.randrange(7)), rng.randrange(10 ** 6))


def r_lit(a):
    x, seed = a
    src = write(random.Random(seed), x)
    o, _ = probe(I.CheckedEval, src)
    if o[0] != 'ok': return '%r is rejected: %s' % (src, o[1:])
    return diff('what %r denotes' % src, exact(o[1]), exact(x))


def around(rng, src, d):
    """src somewhere inside acceptable data"""
    for _ in range(d):
        o = [write(rng, data(rng, 2)) for _ in range(3)]
        k = rng.randrange(5)
        src = ('[%s]' % src if k == 0 else "{'k': %s}" % src if k == 1 else '[%s, %s, %s]' % (o[0], src, o[1]) if k == 2 else "{'h': %s, 'k': %s}" % (o[0], src) if k == 3 else "{'k': %s, 'l': %s}" % (src, o[0]))
    return src


def c_rej(tier, rng):
    for s in BADV + DUPS: yield (s, 0, 0)
    while True: yield (rng.choice(BADV if rng.random() < .7 else DUPS), rng.randrange(6), rng.randrange(10 ** 6))


def r_rej(a): return r_stm(around(random.Random(a[2]), a[0], a[1]))


def c_stm(tier, rng):
    for s in BADS: yield s


def r_stm(src):
    o, ran = probe(I.CheckedEval, src)
    if ran: return '%r was executed' % src
    return None if o[0] == 'raise' else '%r is accepted as %r' % (src, o[1])


PLACES = ['root', 'include', 'nested', 'target', 'variables', 'dep', 'depinc', 'global']


def files(place, src):
    """build files with src somewhere, and the -I files"""
    t = "{'targets': [{'target_name': 't', 'type': 'none', 'x_data': %s%s}]%s}"
    data, more = "{'x_data': %s}" % src, "{'x_more': %s}" % src
    if place == 'root': return {'p.gyp': t % (src, '', '')}, []
    if place == 'include': return {'p.gyp': t % ("'a'", '', ", 'includes': ['i.gypi']"), 'i.gypi': data}, []
    if place == 'nested': return {'p.gyp': t % ("'a'", '', ", 'includes': ['i.gypi']"), 'i.gypi': "{'includes': ['j.gypi']}", 'j.gypi': data}, []
    if place == 'target': return {'p.gyp': t % ("'a'", ", 'includes': ['i.gypi']", ''), 'i.gypi': more}, []
    if place == 'variables': return {'p.gyp': t % ("'a'", ", 'variables': {'includes': ['i.gypi']}", ''), 'i.gypi': data}, []
    if place == 'dep': return {'p.gyp': t % ("'a'", ", 'dependencies': ['q.gyp:u']", ''), 'q.gyp': t.replace("'t'", "'u'") % (src, '', '')}, []
    if place == 'depinc': return {'p.gyp': t % ("'a'", ", 'dependencies': ['q.gyp:u']", ''), 'q.gyp': t.replace("'t'", "'u'") % ("'a'", ", 'includes': ['i.gypi']", ''), 'i.gypi': more}, []
    return {'p.gyp': t % ("'a'", '', ''), 'g.gypi': data}, ['g.gypi']


def c_files(tier, rng):
    for pl in PLACES:
        for s in ["'a'", "['a', {'b': 'c'}]", "PROBE.append(1)", "{'a': 'b', 'a': 'c'}", "('a',)", "1"]: yield (pl, s)
    while True:
        if rng.random() < .3: yield (rng.choice(PLACES), write(rng, [rng.choice(['a', 'x y', 'é', '#']), {'k': rng.choice(['v', ''])}]))
        else: yield (rng.choice(PLACES), around(rng, rng.choice(BADV + DUPS), rng.randrange(3)))


def reference(src):
    """the statement, over Python's own syntax tree"""
    def go(n):
        if isinstance(n, ast.Constant) and type(n.value) is str: return n.value
        if isinstance(n, ast.List): return [go(x) for x in n.elts]
        if isinstance(n, ast.Dict):
            ks = [go(k) for k in n.keys]
            if any(not isinstance(k, str) for k in ks) or len(set(ks)) != len(ks): raise ValueError('keys')
            return dict(zip(ks, map(go, n.values)))
        raise ValueError('other')
    return go(ast.parse(src, mode='eval').body)


def r_files(a):
    place, src = a
    fs, inc = files(place, src)
    want = outcome(reference, src)
    o, ran = probe(load, fs, check=True, includes=inc)
    if o[0] == 'ok': o = o[1]
    if ran: return '%r in place %r was executed' % (src, place)
    if want[0] != 'ok': return None if o[0] == 'raise' else '%r in place %r is accepted by the checked loading' % (src, place)
    if o[0] == 'raise': return '%r in place %r is rejected: %s' % (src, place, o[1:])
    if place in ('root', 'dep'):
        t = [t for n, t in o[1].targets.items() if n.startswith('p.gyp' if place == 'root' else 'q.gyp')][0]
        return diff('the data in the target', t['configurations']['Default'].get('x_data'), want[1])
    return None


def bounded():
    return [Bounded('literals', c_lit, r_lit, 'random data up to depth 6 of strings, lists and dictionaries, written with quotes of both kinds, escapes, concatenation, comments, trailing commas', budget=(5, 60)),
            Bounded('rejected', c_rej, r_rej, '%d other constructs and repeated keys, inside up to 5 levels of data; nothing may be executed' % (len(BADV) + len(DUPS)), budget=(5, 60)),
            Bounded('statements', c_stm, r_stm, '%d texts that are not one expression' % len(BADS), budget=(2, 5)),
            Bounded('files', c_files, r_files, 'whole loading with the check on: data and constructs in the build file, its includes at four places, its dependencies and files given on the command line', budget=(8, 90))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='CheckNode is proved by induction on the syntax tree: it returns exactly what the node denotes (every element, every key in the order written), accepts only strings, lists and dictionaries with distinct string keys, and raises only where something in the node is not '
                 'acceptable; CheckedEval adds that the file is one expression. Nothing is evaluated: both functions are verified with no call to eval, exec or compile. That the loading of files uses them everywhere is covered by the bounded whole-loading check.',
            assumptions=['ast.parse returns the syntax tree of the text (a finite tree; a dictionary node has as many values as keys)', 'ast.Str is the class of string constants'])
