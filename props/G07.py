"""G07 Ninja files read back as the values that were written."""
import itertools
import subprocess
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.strops import RE, ReadsBack, pred, str_parts
from pyvc.strtrans import WEND, run_reader, words
from pyvc.expr import py_string
from vlib import models as M
from vlib import readers as R
from vlib import ninjalex as L
import gyp.ninja_syntax as S
import gyp.generator.ninja as N

V = T.V
# a path as the generator has it: dollars only start references or stand before a space; no bar, no line end
PATH_OK = r'(?:[^$\n\r\0|]|\$ |\$[A-Za-z0-9_{-])*\Z'
VALUE_OK = r'[^\n\r\0]*\Z'


class Path(R.NinjaPath):
    def step(self, q, c):
        if q == '$' and (c in '_-{' or 'a' <= c <= 'z' or 'A' <= c <= 'Z' or '0' <= c <= '9'): return ('$' + c, '')
        return R.NinjaPath.step(self, q, c)
    special = R.NinjaPath.special + '_-{|'
    sets = [[(ord('a'), ord('z') + 1), (ord('A'), ord('Z') + 1), (ord('0'), ord('9') + 1)]]


ESC = Contract('escape', S.escape, {'string': StrT}, ret=StrT, raises={AssertionError: lambda e: z3.Contains(e['string'], T.sv('\n'))},
               ensures=lambda e: {'reads-back': ReadsBack(e, R.NinjaValue(), e['string'], [pred(VALUE_OK, 'match', e['string'])], replay='escape')})
EPATH = Contract('escape_path', S.escape_path, {'word': StrT}, ret=StrT,
                 ensures=lambda e: {'reads-back': ReadsBack(e, Path(), e['word'], [pred(PATH_OK, 'match', e['word'])], replay='escape_path')})
DEFINE = Contract('ninja.Define[posix]', N.Define, {'d': StrT, 'flavor': StrT}, ret=StrT, requires=lambda e: [e['flavor'] != T.sv('win')] + [z3.Not(z3.Contains(e['d'], T.sv(c))) for c in '\n\r\0'],
                  ensures=lambda e: {'reads-back': ReadsBack(e, [R.NinjaValue(), R.PosixShell()], e['d'], [], suffix=[WEND], image=z3.Concat(T.sv('-D'), e['d']), replay='define')})

# ------------------------------------------------------------------ line wrapping
SP = z3.Star(z3.Re(T.sv(' ')))


class Out:
    """stands for the file the writer writes to: what ninja makes of the lines so far is kept in `joined`"""
    def write(self, chunk): pass


def flat(t):
    if z3.is_string_value(t): return [t] if py_string(t) else []
    if T.kind(t) == z3.Z3_OP_SEQ_CONCAT: return [p for i in range(t.num_args()) for p in flat(t.arg(i))]
    return [t]


def chunk_parts(t):
    """(leading white space, body, ends the statement) of a written chunk"""
    ps = flat(t)
    if not ps or not z3.is_string_value(ps[-1]): raise Unsupported("a chunk without a literal end: %s" % t)
    end = py_string(ps[-1])
    if end.endswith(' $\n'): tail, last = ' $\n', False
    elif end.endswith('\n'): tail, last = '\n', True
    else: raise Unsupported("a chunk that does not end a line")
    rest = ([T.sv(end[:-len(tail)])] if end != tail else [])
    ps = ps[:-1] + rest
    cat = lambda xs: z3.Concat(*xs) if len(xs) > 1 else xs[0] if xs else T.sv('')
    if len(ps) == 1: return T.sv(''), ps[0], last
    return ps[0], cat(ps[1:]), last


def fld(e, c, f, o, final=False): return T.acc('s', T.aselect(e.fld(c, f, final), o))


def leaves(t, c=()):
    if T.kind(t) == z3.Z3_OP_ITE: return leaves(t.arg(1), c + (t.arg(0),)) + leaves(t.arg(2), c + (z3.Not(t.arg(0)),))
    return [(z3.And(*c), chunk_parts(t))]


def req_write(e):
    o = e['self']
    out = []
    for c, (lead, body, last) in leaves(e['chunk']):
        out += [z3.Implies(c, z3.InRe(lead, SP)),
                # the first line of the statement may begin as it likes, a continuation must not begin with a space ninja would skip
                z3.Implies(c, z3.Or(fld(e, 'Out', 'state', o) == T.sv('new'), z3.And(fld(e, 'Out', 'state', o) == T.sv('cont'), z3.Not(z3.PrefixOf(T.sv(' '), body)))))]
    return out


def ens_write(e):
    o = e['self']
    j0 = fld(e, 'Out', 'joined', o)
    ls = leaves(e['chunk'])
    j1 = lambda body, last: z3.Concat(j0, body) if last else z3.Concat(j0, body, T.sv(' '))
    put = lambda f, v: e.fld('Out', f, True) == z3.Store(e.fld('Out', f), o, V.StrV(v))
    return {'joined': z3.And(*[z3.Implies(c, put('joined', j1(body, last))) for c, (lead, body, last) in ls]),
            'state': z3.And(*[z3.Implies(c, put('state', T.sv('done' if last else 'cont'))) for c, (lead, body, last) in ls])}


OUTW = Contract('output.write', Out.write, {'self': TObj('Out'), 'chunk': StrT}, ret=NoneT, trusted=True, requires=req_write, ensures=ens_write,
                fields=[('Out', 'joined'), ('Out', 'state')],
                assumed=["ninja reads a line that ends in ' $' and its continuation as one, dropping the line end and the spaces that begin the continuation (vlib/ninjalex.py, compared with ninja on bounded inputs)"])
WR = z3.Int('wr_out')


def outobj(e): return T.acc('oid', T.aselect(e.fld('Writer', 'output'), e['self']))


def cands_line(lv):
    out = {}
    st, en = lv.st, lv.entry
    key = ('fld', 'Out', 'joined')
    if key not in st.fields: return out
    o = LINE_O.get('o')
    if o is None: return out
    j = T.acc('s', T.aselect(st.fields[key], o))
    s = T.acc('s', T.aselect(st.fields[('fld', 'Out', 'state')], o))
    for k in (key, ('fld', 'Out', 'state')):
        if not st.fields[k].eq(LINE_O[k]): out['frame:' + k[2]] = st.fields[k] == z3.Store(LINE_O[k], o, T.aselect(st.fields[k], o))
    out['tag:joined'] = T.tester('StrV', T.aselect(st.fields[key], o))
    out['tag:state'] = T.tester('StrV', T.aselect(st.fields[('fld', 'Out', 'state')], o))
    out['open'] = z3.Or(s == T.sv('new'), s == T.sv('cont'))
    for n, t in lv.scalars(TStr):
        if z3.is_string_value(t): continue
        out['rest:' + n] = z3.Concat(j, t) == z3.Concat(LINE_O['j0'], LINE_O['text'])
        out['lead:' + n] = z3.InRe(t, SP)
        out['nospace:' + n] = z3.Or(s == T.sv('new'), z3.Not(z3.PrefixOf(T.sv(' '), t)))
    for n, t in lv.scalars(TInt):
        if z3.is_int_value(t): continue
        for m, x in lv.scalars(TStr):
            if z3.is_string_value(x): continue
            out['pos:%s:%s' % (n, m)] = z3.Or(t < 0, z3.SubString(x, t, 1) == T.sv(' '))
    return out


LINE_O = {}


def req_line(e):
    o = outobj(e)
    LINE_O.update(o=o, text=e['text'], j0=fld(e, 'Out', 'joined', o))
    for f in ('joined', 'state'): LINE_O[('fld', 'Out', f)] = e.fld('Out', f)
    return [fld(e, 'Out', 'state', o) == T.sv('new'), T.tester('StrV', T.aselect(e.fld('Out', 'joined'), o)), T.tester('StrV', T.aselect(e.fld('Out', 'state'), o)),
            T.tester('ObjV', T.aselect(e.fld('Writer', 'output'), e['self'])), T.tester('IntV', T.aselect(e.fld('Writer', 'width'), e['self'])), z3.Length(e['text']) > 0]


COUNT = Contract('_count_dollars_before_index', S.Writer._count_dollars_before_index, {'self': TObj('Writer'), 's': StrT, 'i': IntT}, ret=IntT,
                 requires=lambda e: [e['i'] >= 0, e['i'] <= z3.Length(e['s'])], ensures=lambda e: {'count': e.r >= 0},
                 cands=lambda lv: dict([('below:' + n, t < I_['i']) for n, t in lv.scalars(TInt) if I_.get('i') is not None] + [('nonneg:' + n, t >= 0) for n, t in lv.scalars(TInt)]))
I_ = {}
_rq = COUNT.requires_
COUNT.requires_ = lambda e: (I_.update(i=e['i']), _rq(e))[1]
LINE = Contract('Writer._line', S.Writer._line, {'self': TObj('Writer'), 'text': StrT, 'indent': IntT}, ret=NoneT, requires=req_line, cands=cands_line,
                fields=[('Out', 'joined'), ('Out', 'state')],
                ensures=lambda e: {'joined': fld(e, 'Out', 'joined', outobj(e), True) == z3.Concat(LINE_O['j0'], e['text']),
                                   'ended': fld(e, 'Out', 'state', outobj(e), True) == T.sv('done')})
CL = {'Writer': {'output': TObj('Out'), 'width': IntT}, 'Out': {'joined': StrT, 'state': StrT}}


def contracts():
    mk = lambda *cs: (lambda: Verifier({inspect.unwrap(c.fn): c for c in cs}, models={**M.PATHS, **RE}, classes=CL, class_objs={'Writer': S.Writer, 'Out': Out}))
    return [(ESC, mk()), (EPATH, mk()), (DEFINE, mk()), (COUNT, mk()), (LINE, mk(OUTW, COUNT))]


# ------------------------------------------------------------------ bounded contract runs
ODD = ['a', ' ', '$', ':', '|', '"', "'", '\\', '#', '=', '{', '}', '(', '&', 'é', '.', '/', '-', '_', '\t', '^', '%', '0', '']


def c_text(tier, rng):
    for k in range(4): yield from map(''.join, itertools.product(ODD[:12], repeat=k))
    while True: yield ''.join(rng.choice(ODD) for _ in range(rng.randrange(1, 30)))


def r_escape(s):
    if '\n' in s: return None if outcome(S.escape, s)[:2] == ('raise', 'AssertionError') else 'a newline was accepted'
    t = S.escape(s)
    lx = L.Lexer('>' + t + '\n')
    return diff('the value written as %r' % t, lx.eval_string(False), '>' + s)


import re


def o_path(p):
    """the path with its references marked as the reader marks them"""
    return re.sub(r'\$(?:\{([a-zA-Z0-9_.-]+)\}|([a-zA-Z0-9_-]+))', lambda m: '${%s}' % (m.group(1) or m.group(2)), p)


def r_epath(p):
    if not re.match(PATH_OK, p) or not p or not re.fullmatch(r'(?:[^$]|\$ |\$\{[\w.-]+\}|\$[\w-]+)*', p, re.A): return None
    lx = L.Lexer(S.escape_path(p) + ' next: r\n')
    got = lx.eval_string(True)
    return diff('the path written as %r' % S.escape_path(p), got, o_path(p)) or (None if lx.t[lx.i:] == 'next: r\n' else 'the path %r does not end where it should: %r follows' % (p, lx.t[lx.i:]))


def r_define(d):
    if re.search(r'[\n\r\0]', d): return None
    t = N.Define(d, 'linux')
    v = L.Lexer('v ' + t + '\n').eval_string(False)[2:]
    rs = [words(r) for r in run_reader(R.PosixShell(), v)]
    return None if rs == [['-D' + d]] else 'the shell reads %r as %r' % (v, rs)


def stmts(rng):
    word = lambda: ''.join(rng.choice('abcdefg/._-xyz $:') for _ in range(rng.randrange(1, 14)))
    def path():
        while True:
            p = word()
            if re.fullmatch(r'(?:[^$]|\$ (?=.))*', p) and p.strip() == p: return p
    val = lambda: rng.choice([' ', ' ', ' ', '  ', '   ', ' \t', '\t ', ' \t ', ' $ ', ' \f']).join(''.join(rng.choice('abcdefgh$:"\\\'') for _ in range(rng.randrange(1, 12))) for _ in range(rng.randrange(1, 8)))
    k = rng.randrange(4)
    if k == 0: return ('variable', val(), rng.randrange(3))
    if k == 1: return ('rule', val(), rng.choice([None, val()]), rng.choice([None, 'x y']), rng.random() < .5, rng.random() < .5, rng.choice([None, val()]), rng.choice([None, val()]), rng.choice([None, 'gcc']))
    ps = lambda n: [path() for _ in range(rng.randrange(n))]
    return ('build', [path()] + ps(2), ps(6), ps(3), ps(3), [('k%d' % i, val()) for i in range(rng.randrange(3))], rng.random() < .5)


def c_writer(tier, rng):
    while True: yield (rng.choice([1, 10, 20, 20, 30, 40, 78, 78]), [stmts(rng) for _ in range(rng.randrange(1, 4))])


def r_writer(x, real=False):
    width, ss = x
    out = io.StringIO()
    w = S.Writer(out, width)
    want = []
    for i, s in enumerate(ss):
        if s[0] == 'variable':
            if s[2]: w.rule('v%d' % i, 'c'); want.append(('rule', 'v%d' % i, [('command', 'c'), ('key', s[1])]))
            else: want.append(('let', 'key', s[1]))
            w.variable('key', S.escape(s[1]), s[2])
        elif s[0] == 'rule':
            e = lambda t: None if t is None else S.escape(t)
            w.rule('r%d' % i, e(s[1]), description=e(s[2]), depfile=s[3], generator=s[4], restat=s[5], rspfile=e(s[6]), rspfile_content=e(s[7]), deps=s[8])
            want.append(('rule', 'r%d' % i, [(k, v) for k, v in [('command', s[1]), ('description', s[2]), ('depfile', s[3]), ('generator', '1' if s[4] else None), ('restat', '1' if s[5] else None),
                                                                ('rspfile', s[6]), ('rspfile_content', s[7]), ('deps', s[8])] if v]))
        else:
            w.build(s[1], 'phony', s[2], implicit=s[3], order_only=s[4], variables=dict((k, S.escape(v)) for k, v in s[5]) if s[6] else [(k, S.escape(v)) for k, v in s[5]])
            want.append(('build', s[1], 'phony', s[2], s[3], s[4], s[5]))
    t = out.getvalue()
    try: got = L.parse(t)
    except L.Bad as ex: return 'ninja rejects %r: %s' % (t, ex)
    return diff('what ninja reads from %r' % t, got, want)


def c_real(tier, rng):
    while True:
        vs = [' '.join('x' * rng.randrange(1, 20) + rng.choice(['', ' ', '$', '$a', ':', ' $ ']) for _ in range(rng.randrange(1, 12))).strip() for _ in range(6)]
        ps = [p for p in ['d/' + ''.join(rng.choice('ab c:d.$') for _ in range(6)).strip() + 'z' for _ in range(6)] if re.fullmatch(r'(?:[^$]|\$ )*', p)]
        yield (rng.choice([10, 20, 40, 78]), vs, sorted(set(ps)))


def r_real(x):
    width, vs, ps = x
    with scratch() as d:
        out = io.StringIO()
        w = S.Writer(out, width)
        for i, v in enumerate(vs):
            w.rule('r%d' % i, 'echo ' + S.escape(v))
            w.build('o%d' % i, 'r%d' % i, ps)
        for p in ps: w.build(p, 'phony')
        with open(d + '/build.ninja', 'w') as f: f.write(out.getvalue())
        for i, v in enumerate(vs):
            p = subprocess.run(['ninja', '-C', d, '-t', 'commands', 'o%d' % i], capture_output=True, text=True)
            got = [l for l in p.stdout.split('\n') if l and not l.startswith('ninja:')]
            if p.returncode or got != ['echo ' + v]: return 'ninja reads the command %r as %r %s' % (v, got, p.stderr)
        p = subprocess.run(['ninja', '-C', d, '-t', 'inputs', 'o0'], capture_output=True, text=True)
        if p.returncode == 0:
            got = [l for l in p.stdout.split('\n') if l and not l.startswith('ninja:')]
            if not vs: return None
            unq = sorted(q[1:-1] if q.startswith("'") and q.endswith("'") else q for q in got)
            if unq != sorted(ps): return 'ninja reads the inputs %r as %r' % (ps, got)
        else: return 'ninja rejects the file: %s' % (p.stdout + p.stderr)


def bounded():
    b = 'every text of up to 3 of 12 awkward characters, then random texts'
    return [Bounded('escape', c_text, r_escape, b, budget=(5, 60)),
            Bounded('escape_path', c_text, r_epath, b, budget=(6, 60)),
            Bounded('define', c_text, r_define, b, budget=(6, 60)),
            Bounded('writer', c_writer, r_writer, 'random statements at widths 1 to 78, read by a reader of ninja manifests', budget=(8, 120)),
            Bounded('real-ninja', c_real, r_real, 'random commands and paths, read by ninja 1.11', budget=(8, 90))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source; z3/cvc5 and an exact decision procedure for string transducers)',
            note='escape, escape_path and Define are proved to be read back by a reader of ninja values and paths for every string of the stated form; Writer._line is proved (loop invariants) to write lines that ninja joins to the text it was given, '
                 'never letting a continuation begin with a space. Writer.build, rule and variable are run on bounded inputs and read back.',
            assumptions=["ninja's lexer works as the readers in /verif/vlib (compared with ninja 1.11 on bounded inputs)"])
