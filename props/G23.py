"""G23 String literals written for CMake and Xcode readers read back unchanged."""
import io
import itertools
import re
import subprocess
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.strops import RE, ReadsBack, pred
from pyvc.strtrans import run_reader
from vlib import models as M
from vlib import readers as R
import gyp.generator.cmake as C
import gyp.xcodeproj_file as X

V = T.V


class Wrapped:
    def __init__(self, e): self.e = e


def no(chars, t): return [z3.Not(z3.Contains(t, T.sv(c))) for c in chars]


CMAKE = Contract('CMakeStringEscape', C.CMakeStringEscape, {'a': StrT}, ret=StrT,
                 ensures=lambda e: {'reads-back': ReadsBack(e, R.CMakeQuoted(), e['a'], no('\0', e['a']), term=z3.Concat(T.sv('"'), e.r, T.sv('"')), replay='cmake-text')})
XPLAIN = Contract('XCObject._EncodeString', X.XCObject._EncodeString, {'self': TObj('XCObject'), 'value': StrT}, ret=StrT,
                  ensures=lambda e: {'reads-back': ReadsBack(e, R.XcodeString(), e['value'], no('\r', e['value']), replay='xcode-text', wrap=lambda s: ('XCObject', s))})
XALT = Contract('PBXFileReference._EncodeString', X.PBXFileReference._EncodeString, {'self': TObj('PBXFileReference'), 'value': StrT}, ret=StrT,
                ensures=lambda e: {'reads-back': ReadsBack(e, R.XcodeString(), e['value'], no('\r', e['value']), replay='xcode-text', wrap=lambda s: ('PBXFileReference', s))})
XBUILD = Contract('PBXBuildFile._EncodeString', X.PBXBuildFile._EncodeString, {'self': TObj('PBXBuildFile'), 'value': StrT}, ret=StrT,
                  ensures=lambda e: {'reads-back': ReadsBack(e, R.XcodeString(), e['value'], no('\r', e['value']), replay='xcode-text', wrap=lambda s: ('PBXBuildFile', s))})
CLS = {'XCObject': {}, 'PBXFileReference': {}, 'PBXBuildFile': {}}


def contracts():
    mk = lambda *cs: (lambda: Verifier({inspect.unwrap(c.fn): c for c in cs}, models={**M.PATHS, **RE}, classes=CLS, class_objs={k: getattr(X, k) for k in CLS}))
    return [(c, mk()) for c in (CMAKE, XPLAIN, XALT, XBUILD)]


# ------------------------------------------------------------------ bounded contract runs
ODD = ['\\', '"', ';', 'a', '/', '_', '\n', ' ', '\t', '*', '\x01', '.', '$', '(', ')', '#', '\x7f', '\x1f', '\x0b', 'é', '{', ',', '=', '0', '\x07', "'", '-', ':', '[', ']', '\x00', ''] + [chr(i) for i in range(1, 32) if chr(i) not in '\n\t\r\x01\x1f\x0b\x07']


def c_text(tier, rng):
    for k in range(4): yield from map(''.join, itertools.product(ODD[:14], repeat=k))
    while True: yield ''.join(rng.choice(ODD[:rng.choice([3, 6, 14, 32, 99])]) for _ in range(rng.randrange(1, 14)))


def reads(who, reader, text, want):
    got = [''.join(r) for r in run_reader(reader, text)]
    return None if got == [want] else '%s reads %r as %r' % (who, text, got)


def r_cmake(s):
    if '\0' in s: return None
    return reads('CMake', R.CMakeQuoted(), '"' + C.CMakeStringEscape(s) + '"', s)


def c_xcode(tier, rng):
    for s in c_text(tier, rng):
        for k in CLS: yield (k, s)


def r_xcode(x):
    k, s = x
    if '\r' in s: return None
    return reads('Xcode', R.XcodeString(), getattr(X, k)()._EncodeString(s), s)


# -- CMake commands
def cm_args(text):
    """arguments of the commands in a text: [(command, [(quoted, raw value)...])...]"""
    i, out = 0, []
    while True:
        m = re.compile(r'\s*').match(text, i)
        i = m.end()
        if i >= len(text): return out
        m = re.compile(r'(\w+)\(').match(text, i)
        if not m: raise ValueError('no command at %r' % text[i:i + 20])
        i, args = m.end(), []
        while True:
            m = re.compile(r'\s*').match(text, i)
            i = m.end()
            if text[i] == ')':
                i += 1
                break
            if text[i] == '"':
                j, v = i + 1, ''
                while text[j] != '"':
                    if text[j] == '\\':
                        c = text[j + 1]
                        v += {'n': '\n', 't': '\t', 'r': '\r', ';': '\\;'}.get(c, c)
                        if c.isalnum() and c not in 'ntr': raise ValueError('bad escape')
                        j += 2
                    else:
                        v += text[j]
                        j += 1
                args.append((True, v))
                i = j + 1
            else:
                m = re.compile(r'[^\s()"]+').match(text, i)
                args.append((False, m.group()))
                i = m.end()
        out.append((m and None, args)) if False else out.append(args)


def cm_list(v):
    """the items of a list value"""
    if v == '': return []
    out, cur, i, nest = [], '', 0, 0
    while i < len(v):
        if v[i] == '\\' and v[i + 1:i + 2] == ';':
            cur += ';'
            i += 2
            continue
        nest += {'[': 1, ']': -1}.get(v[i], 0)
        if v[i] == ';' and nest == 0:
            out.append(cur)
            cur = ''
        else: cur += v[i]
        i += 1
    return out + [cur]


def item(rng, odd=('\\', '"', ';', 'a', 'b ', '\n', ' ', '\t', '#', '(', ')', '.', '=', 'é')):
    s = ''.join(rng.choice(odd) for _ in range(rng.randrange(7)))
    while s.endswith('\\'): s = s[:-1]                # CMake lists cannot hold an item that ends in a backslash
    return s


def c_lists(tier, rng):
    while True: yield (rng.choice(['var', 'varlist', 'file', 'files', 'target']), [x for x in (item(rng) for _ in range(rng.randrange(5))) if x], rng.choice([';', ' ']))


def r_lists(x):
    what, vals, sep = x
    o = io.StringIO()
    if what == 'var':
        v = vals[0] if vals else ''
        C.SetVariable(o, 'x', v)
        got = cm_args(o.getvalue())
        want = [[(False, 'x'), (True, None)]]
        if len(got) != 1 or len(got[0]) != 2 or got[0][0] != (False, 'x') or not got[0][1][0]: return 'CMake reads %r as %r' % (o.getvalue(), got)
        return diff('the value', cm_list(got[0][1][1]), [v] if v else [])
    if what == 'varlist':
        v0 = list(vals)
        C.SetVariableList(o, 'x', vals)
        if vals != v0: return 'the list was changed'
        got = cm_args(o.getvalue())
        if len(got) != 1: return 'CMake reads %r as %r' % (o.getvalue(), got)
        a = got[0]
        a = a[2:] if a[0] == (False, 'APPEND') else a[1:]
        if not all(q for q, _ in a): return 'unquoted items in %r' % o.getvalue()
        return diff('the items of %r' % o.getvalue(), [i for q, v in a for i in cm_list(v)], vals)
    if what == 'file': C.SetFileProperty(o, 'n.c', 'P', vals, sep)
    elif what == 'files': C.SetFilesProperty(o, 'v', 'P', vals, sep)
    else: C.SetTargetProperty(o, 'n.c', 'P', vals, sep)
    got = cm_args(o.getvalue())
    if len(got) != 1 or [v for q, v in got[0][:-1]] != ['${v}' if what == 'files' else 'n.c', 'PROPERTIES', 'P'] or not got[0][-1][0]: return 'CMake reads %r as %r' % (o.getvalue(), got)
    v = got[0][-1][1]
    if sep == ';': return diff('the items of %r' % o.getvalue(), [i for i in cm_list(v)], vals + ([''] if vals else []))
    return diff('the text of %r' % o.getvalue(), v.replace('\\;', ';'), ''.join(s + ' ' for s in vals))


def c_real(tier, rng):
    odd = ['\\', '"', ';', 'a', '\n', ' ', '\t', '#', '(', ')', '.', '=', 'é', '\\;', '\\"', '[', ']', '[;]']
    for k in (1, 2): yield [''.join(w) for w in itertools.product(odd, repeat=k)]
    while True: yield [''.join(rng.choice(odd) for _ in range(rng.randrange(1, 9))) for _ in range(150)]


def r_real(vals):
    """each value set as a variable, each printed by CMake"""
    with scratch() as d:
        o = io.StringIO()
        o.write('cmake_minimum_required(VERSION 3.5)\n')
        for i, v in enumerate(vals):
            C.SetVariable(o, 'x%d' % i, v)
            o.write('foreach(i IN LISTS x%d)\nfile(APPEND "%s/out" "${i}" "\x1f")\nendforeach()\nfile(APPEND "%s/out" "\x1e")\n' % (i, d, d))
        with open(d + '/t.cmake', 'w') as f: f.write(o.getvalue())
        p = subprocess.run(['cmake', '-P', d + '/t.cmake'], capture_output=True, text=True, cwd=d)
        if p.returncode: return 'cmake rejects the file: %s' % p.stderr[:300]
        with open(d + '/out') as f: got = [g.split('\x1f')[:-1] for g in f.read().split('\x1e')[:-1]]
    for v, g in zip(vals, got):
        if g != [v]: return 'cmake reads %r as %r' % (v, g)
    return None if len(got) == len(vals) else 'lost values'


# -- Xcode values
class Plist:
    """reader of old-style property lists with comments"""
    def __init__(self, t): self.t, self.i = t, 0

    def ws(self):
        while self.i < len(self.t):
            if self.t[self.i] in ' \t\n': self.i += 1
            elif self.t.startswith('/*', self.i): self.i = self.t.index('*/', self.i + 2) + 2
            elif self.t.startswith('//', self.i): self.i = (self.t + '\n').index('\n', self.i) + 1
            else: break

    def value(self):
        self.ws()
        c = self.t[self.i]
        if c == '(':
            self.i += 1
            out = []
            while True:
                self.ws()
                if self.t[self.i] == ')':
                    self.i += 1
                    return out
                out.append(self.value())
                self.ws()
                if self.t[self.i] == ',': self.i += 1
                elif self.t[self.i] != ')': raise ValueError('list')
        if c == '{':
            self.i += 1
            out = []
            while True:
                self.ws()
                if self.t[self.i] == '}':
                    self.i += 1
                    return ('dict', out)
                k = self.value()
                self.ws()
                if self.t[self.i] != '=': raise ValueError('dict')
                self.i += 1
                v = self.value()
                self.ws()
                if self.t[self.i] != ';': raise ValueError('dict')
                self.i += 1
                out.append((k, v))
        if c == '"':
            j = self.i + 1
            while self.t[j] != '"': j += 2 if self.t[j] == '\\' else 1
            s, self.i = self.t[self.i:j + 1], j + 1
            rs = [''.join(r) for r in run_reader(R.XcodeString(), s)]
            if len(rs) != 1: raise ValueError('string %r' % s)
            return rs[0]
        m = re.compile(r'[A-Za-z0-9$./_:-]+').match(self.t, self.i)
        if not m: raise ValueError('character %r' % c)
        self.i = m.end()
        return m.group()


def tree(rng, d=0):
    k = rng.random()
    s = lambda: ''.join(rng.choice(ODD[:rng.choice([5, 12, 30])]) for _ in range(rng.randrange(6)))
    if d > 2 or k < .6: return s()
    if k < .7: return rng.randrange(-5, 100)
    if k < .85: return [tree(rng, d + 1) for _ in range(rng.randrange(4))]
    return {s(): tree(rng, d + 1) for _ in range(rng.randrange(4))}


def c_tree(tier, rng):
    while True: yield (rng.choice(sorted(CLS)), tree(rng), rng.random() < .3)


def expect(v, fl):
    if isinstance(v, int): return str(v)
    if isinstance(v, list):
        if fl and len(v) <= 1 and all(isinstance(x, str) for x in v): return v[0] if v else ''
        return [expect(x, fl) for x in v]
    if isinstance(v, dict): return ('dict', [(k, expect(v[k], fl)) for k in sorted(v)])
    return v


def r_tree(x):
    k, v, fl = x
    if fl and '[[' in repr(v).replace(' ', '') or fl and re.search(r'\[(\{|-?\d+\])', repr(v)): return None      # only lists of strings are flattened
    t = getattr(X, k)()._XCPrintableValue(0, v, fl)
    p = Plist(t)
    try:
        got = p.value()
        p.ws()
    except (ValueError, IndexError) as ex: return 'Xcode cannot read %r: %s' % (t, ex)
    return diff('the value read from %r' % t, got, expect(v, fl)) or (None if p.i == len(t) else 'text is left over in %r' % t)


def r_comment(s):
    t = X.XCObject()._EncodeComment(s)
    if not t.startswith('/*') or t.find('*/', 2) != len(t) - 2: return 'the comment %r ends early' % t
    return None if '*/' in s or t == '/* %s */' % s else 'the comment %r does not say %r' % (t, s)


def bounded():
    b = 'every text of up to 3 of 14 awkward characters, then random texts'
    return [Bounded('cmake-text', c_text, r_cmake, b, budget=(4, 60)), Bounded('xcode-text', c_xcode, r_xcode, b, budget=(7, 90)),
            Bounded('cmake-commands', c_lists, r_lists, 'random commands with up to 4 values', budget=(6, 60)),
            Bounded('real-cmake', c_real, r_real, 'values set by SetVariable and printed by cmake', budget=(7, 60), per=60),
            Bounded('xcode-values', c_tree, r_tree, 'random nested values, read by a reader of old-style property lists', budget=(7, 60)),
            Bounded('xcode-comment', c_text, r_comment, b, budget=(3, 20))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source; z3/cvc5 and an exact decision procedure for string transducers)',
            note='CMakeStringEscape and _EncodeString (with both encoding tables of the Xcode classes) are proved to be read back by readers of CMake quoted arguments and of property list strings, for every string without NUL (CMake) and without '
                 'carriage return (Xcode, which writes it as a newline). The commands and values built from them are run on bounded inputs and read back, CMake ones also by cmake.',
            assumptions=['CMake and Xcode read strings as the readers in /verif/vlib/readers.py do (CMake: compared with cmake on bounded inputs)'])
