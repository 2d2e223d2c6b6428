"""G09 Generated XML is well formed and reads back as the specification."""
import itertools
import os
import re
import time
import xml.parsers.expat
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.call import uf, REPLACE_ALL
from pyvc.strops import RE, ReadsBack, pred
from pyvc.strtrans import run_reader
from vlib import models as M
from vlib import readers as R
from vlib import disk as D
import gyp.easy_xml as E

V = T.V


def esc(attr):
    return Contract('_XmlEscape (%s)' % ('attribute' if attr else 'text'), E._XmlEscape, {'value': StrT, 'attr': BoolT}, ret=StrT, requires=lambda e: [e['attr'] == z3.BoolVal(attr)],
                    ensures=lambda e: {'reads-back': ReadsBack(e, R.XmlText(attr), e['value'], [], replay='escape', wrap=lambda s: (s, attr))})


STRING = Contract('XmlToString', E.XmlToString, {'content': Any, 'encoding': StrT, 'pretty': BoolT}, ret=StrT, trusted=True,
                  ensures=lambda e: {'text': e.r == TEXT(e.val('content'), e['encoding'], e['pretty'])},
                  assumed=['XmlToString is a pure function of the specification (its text is checked by the bounded checks of this property)'])
TEXT = z3.Function('xml_text', V, T.String, T.Bool, T.String)
ENC, OK = uf('encode', T.String, T.String, T.String), uf('encodable', T.String, T.String, z3.BoolSort())


def new_bytes(e):
    t = TEXT(e.val('content'), e['encoding'], e['pretty'])
    return z3.If(e['win32'], REPLACE_ALL(t, T.sv('\n'), T.sv('\r\n')), t), e['encoding']


def same_files(e): return z3.And(*[e.fld('File', f, True) == e.fld('File', f) for f in ('content', 'touched')])


def write_ens(e):
    p = e['path']
    b = V.StrV(ENC(*new_bytes(e)))
    old = D.content(e, p)
    return {'content': D.content(e, p, True) == b,
            'untouched': z3.Implies(old == b, D.touched(e, p, True) == D.touched(e, p)),
            'only-this-file': z3.And(*[e.fld('File', f, True) == z3.Store(e.fld('File', f), D.FID(p), T.aselect(e.fld('File', f, True), D.FID(p))) for f in ('content', 'touched')])}


WRITE = Contract('WriteXmlIfChanged', E.WriteXmlIfChanged, {'content': Any, 'path': StrT, 'encoding': StrT, 'pretty': BoolT, 'win32': BoolT}, ret=NoneT, fields=D.KEYS,
                 requires=lambda e: [T.tester('BoolV', D.touched(e, e['path'])), z3.Or(T.tester('NoneV', D.content(e, e['path'])), T.tester('StrV', D.content(e, e['path'])))],
                 ensures=write_ens,
                 raises={UnicodeEncodeError: lambda e: z3.And(z3.Not(OK(*new_bytes(e))), same_files(e)), OSError: same_files},
                 assumed=['the running platform ends lines with \\n, so that os.linesep != "\\r\\n" is decided as here'])


def contracts():
    mk = lambda *cs: (lambda: Verifier({**D.CONTRACTS, **{inspect.unwrap(c.fn): c for c in cs}}, models={**M.PATHS, **RE, **D.MODELS}, classes=D.CLASSES, class_objs=D.OBJS))
    a, t = esc(True), esc(False)
    return [(a, mk(a)), (t, mk(t)), (WRITE, mk(WRITE, STRING))]


# ------------------------------------------------------------------ bounded contract runs
ODD = ['<', '>', '&', '"', "'", ']', '\n', '\t', '\r', ' ', 'a', ';', '#', 'é', '=', '/', '!', '-', '?', '\U0001f600', '\x85', '\u2028', 'lt;', '&amp;', ']]>', '<!--', '$', '\\', '\xa0', '0', '']
NAMES = ['a', 'Tool', 'x-y', 'ns.b', '_z', 'B1', 'b1', 'A', 'é']


def c_escape(tier, rng):
    for k in range(5):
        for s in itertools.product(ODD[:8 if k > 3 else 20], repeat=k): yield (''.join(s), rng.random() < .5)
    while True: yield (''.join(rng.choice(ODD) for _ in range(rng.randrange(1, 20))), rng.random() < .5)


def r_escape(x):
    s, attr = x
    t = E._XmlEscape(s, attr) if attr else E._XmlEscape(s)
    m = diff('read as %s' % ('an attribute' if attr else 'text'), [''.join(r) for r in run_reader(R.XmlText(attr), t)], [s])
    if m: return m
    got = parse('<a b="%s"/>' % t if attr else '<a>%s</a>' % t)
    return diff('expat reads %r' % t, got, ['a', {'b': s}] if attr else ['a', {}] + ([s] if s else []))


def parse(text):
    """the element tree expat sees: [name, attributes, children…] with adjacent text joined"""
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    p.ordered_attributes = True
    st = [[None, {}]]

    def start(n, at):
        if len(set(at[::2])) * 2 != len(at): raise AssertionError('attribute twice')
        el = [n, dict(zip(at[::2], at[1::2]))]
        st[-1].append(el)
        st.append(el)

    def chars(s):
        if isinstance(st[-1][-1], str) and len(st[-1]) > 2: st[-1][-1] += s
        else: st[-1].append(s)
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, lambda n: st.pop(), chars
    p.Parse(text if isinstance(text, bytes) else text, True)
    if len(st) != 1 or len(st[0]) != 3: raise AssertionError('not one element')
    return st[0][2]


def text(rng): return ''.join(rng.choice(ODD) for _ in range(rng.randrange(6)))


def tree(rng, depth):
    t = [rng.choice(NAMES)]
    if rng.random() < .6: t.append({rng.choice(NAMES): text(rng) for _ in range(rng.randrange(4))})
    for _ in range(rng.randrange(5) if depth else rng.randrange(2)):
        t.append(tree(rng, depth - 1) if depth and rng.random() < .55 else text(rng))
    return t


def want(t, pretty):
    """what the specification says, as the parser should report it; pretty printing may add white space between elements"""
    rest = list(t[1:])
    at = rest.pop(0) if rest and isinstance(rest[0], dict) else {}
    kids = []
    for c in rest:
        if not isinstance(c, str): kids.append(want(c, pretty))
        elif c:
            if kids and isinstance(kids[-1], str): kids[-1] += c
            else: kids.append(c)
    return [t[0], at] + kids


def strip_pretty(got, spec):
    """drop what pretty printing may add: white space next to elements"""
    if not any(isinstance(c, list) for c in got[2:]): return got
    out = got[:2]
    for c in got[2:]:
        if isinstance(c, str):
            c = c.strip(' \n')
            if not c: continue
        else: c = strip_pretty(c, None)
        out.append(c)
    return out


def c_tree(tier, rng):
    yield (['a'], False, 'utf-8')
    yield (['a', {}], True, 'utf-8')
    while True: yield (tree(rng, rng.randrange(5)), rng.random() < .5, rng.choice(['utf-8', 'utf-8', 'Windows-1252', 'utf-16', 'ascii']))


def frozen(t): return repr(t)


def r_tree(x):
    t, pretty, enc = x
    before = repr(t)
    s = E.XmlToString(t, enc, pretty)
    if repr(t) != before: return 'the specification was changed'
    m = re.match(r'<\?xml version="1.0" encoding="([^"]*)"\?>', s)
    if not m or m.group(1) != enc: return 'the declaration of %r' % s[:60]
    if s != E.XmlToString(t, enc, pretty): return 'two runs differ'
    if '\r' in s: return 'a raw carriage return'
    got, exp = parse(s[m.end():]), want(t, pretty)
    if pretty: got, exp = strip_pretty(got, t), strip_pretty(exp, t)
    return diff('expat reads %r' % s, got, exp)


BAD = [[], [1], [None, {}], [['a']], ['a', ['b', [2]]], ['a', [{}]]]


def c_bad(tier, rng):
    yield from BAD
    for _ in range(300 if tier == 'quick' else 3000):
        t = tree(rng, 3)
        u = t
        while True:
            ls = [c for c in u if isinstance(c, list)]
            if not ls or rng.random() < .3: break
            u = rng.choice(ls)
        u.append([rng.choice([1, None, ('x',), {}])])
        yield t


def r_bad(t):
    o = outcome(E.XmlToString, t)
    return None if o[0] == 'raise' else 'a specification without a name was written as %r' % (o[1],)


# -- histories of writes to one path
def c_hist(tier, rng):
    while True:
        specs = [tree(rng, rng.randrange(3)) for _ in range(rng.randrange(1, 4))] + [['a', 'line\nline'], ['p', ['q', '1'], ['r']]]
        h = []
        for _ in range(rng.randrange(1, 9)):
            h.append(rng.choice([('write', rng.randrange(len(specs)), rng.choice(['utf-8', 'utf-8', 'Windows-1252', 'ascii', 'utf-16']), rng.random() < .5, rng.random() < .3)] * 5
                                + [('touch', rng.choice([b'', b'\xff\xfe', b'junk', b'<a/>'])), ('remove',), ('eol',), ('chop',), ('append', rng.choice([b' ', b'\n', b'<!-- x -->'])), ('flip',)]))
        yield (specs, h)


def r_hist(x):
    specs, h = x
    OLD = 10 ** 18
    with scratch() as d:
        p, other = d + '/f.xml', d + '/other'
        with open(other, 'w') as f: f.write('x')
        for i, op in enumerate(h):
            have = open(p, 'rb').read() if os.path.exists(p) else None
            if op[0] == 'touch': open(p, 'wb').write(op[1])
            elif op[0] == 'remove':
                if have is not None: os.remove(p)
            elif op[0] == 'eol':
                if have is not None: open(p, 'wb').write(have.replace(b'\n', b'\r\n') if b'\r' not in have else have.replace(b'\r\n', b'\n'))
            elif op[0] == 'append':
                if have is not None: open(p, 'ab').write(op[1])
            elif op[0] == 'flip':
                if have: open(p, 'wb').write(have.swapcase())
            elif op[0] == 'chop':
                if have: open(p, 'wb').write(have[:-1])
            else:
                _, n, enc, pretty, win = op
                s = E.XmlToString(specs[n], enc, pretty)
                if win: s = s.replace('\n', '\r\n')
                try: b = s.encode(enc)
                except UnicodeEncodeError: b = None
                if have is not None: os.utime(p, ns=(OLD, OLD))
                o = outcome(E.WriteXmlIfChanged, specs[n], p, enc, pretty, win)
                now = open(p, 'rb').read() if os.path.exists(p) else None
                if b is None:
                    if o[0] != 'raise' or now != have: return 'step %d: text that cannot be encoded: %r, file %r' % (i, o, now)
                    continue
                if o[0] == 'raise': return 'step %d: %r' % (i, o)
                if now != b: return 'step %d: the file holds %r, not %r' % (i, now, b)
                if have == b and os.stat(p).st_mtime_ns != OLD: return 'step %d: a file with the same content was written again' % i
                if have != b and have is not None and os.stat(p).st_mtime_ns == OLD: return 'step %d: the new content kept the old time' % i
            if sorted(os.listdir(d)) not in (['f.xml', 'other'], ['other']): return 'step %d left %r' % (i, os.listdir(d))


def bounded():
    return [Bounded('escape', c_escape, r_escape, 'every text of up to 3 of 20 and 4 of 8 awkward characters, then random texts, as text and as attribute', budget=(6, 60)),
            Bounded('tree', c_tree, r_tree, 'random element trees up to depth 4, plain and pretty, read by expat', budget=(8, 80)),
            Bounded('no-name', c_bad, r_bad, 'specifications in which some element has no name', budget=(3, 20)),
            Bounded('history', c_hist, r_hist, 'random histories of up to 8 writes, edits and removals of one file in 5 encodings', budget=(7, 60))]


META = dict(level='other', technique='contract-based deductive verification (pyvc: VCs from the real source; z3/cvc5 and an exact decision procedure for string transducers)',
            note='_XmlEscape is proved, for text and for attribute values, against a reader of XML character data; WriteXmlIfChanged is proved against a ghost model of files (content exact, untouched when equal, nothing changed on failure, no other file). '
                 'The recursion over the specification (XmlToString, _ConstructContentList) is bounded: random trees read back by expat.',
            assumptions=['XML is read as R.XmlText says (compared with expat on bounded inputs)'])
