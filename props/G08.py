"""G08 Windows command line quoting survives argument parsing."""
import contextlib
import io
import itertools
import os
import re
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.strops import RE, ReadsBack, pred
from pyvc.strtrans import WEND, run_reader, words
from vlib import models as M
from vlib import readers as R
from vlib.strprop import *
import gyp.msvs_emulation as E
import gyp.generator.msvs as V8
import gyp.generator.ninja as N

V = T.V
PLAIN = lambda t: z3.And(*[z3.Not(z3.Contains(t, T.sv(c))) for c in '\0\n\r'])
ARGV = R.Argv()


def normed(e):
    """the argument, or what os.path.normpath makes of it on the paths where the function uses that"""
    n = M.PATHS[os.path.normpath].f(e['arg'])
    return n if mentions_term(z3.simplify(e.r), n) else e['arg']


RSP = Contract('QuoteForRspFile', E.QuoteForRspFile, {'arg': StrT, 'quote_cmd': BoolT}, ret=StrT, requires=lambda e: [e['quote_cmd']],
               ensures=lambda e: {'one-argument': ReadsBack(e, [R.DoublePercent(), ARGV], normed(e), [PLAIN(normed(e))], suffix=[WEND], replay='rsp'),
                                  'ends-there': ReadsBack(e, [R.DoublePercent(), Mid(ARGV)], normed(e), [PLAIN(normed(e))], suffix=[WEND], post=' ', replay='rsp')})
RSPN = Contract('QuoteForRspFile[unquoted]', E.QuoteForRspFile, {'arg': StrT, 'quote_cmd': BoolT}, ret=StrT, requires=lambda e: [z3.Not(e['quote_cmd'])],
                ensures=lambda e: {'text': ReadsBack(e, R.DoublePercent(), normed(e), [], replay='rsp')})
ENVX = Contract('_EscapeEnvironmentVariableExpansion', V8._EscapeEnvironmentVariableExpansion, {'s': StrT}, ret=StrT,
                ensures=lambda e: {'text': ReadsBack(e, R.DoublePercent(), e['s'], [], replay='percent')})
MSVS = Contract('_EscapeCommandLineArgumentForMSVS', V8._EscapeCommandLineArgumentForMSVS, {'s': StrT}, ret=StrT,
                ensures=lambda e: {'one-argument': ReadsBack(e, ARGV, e['s'], [PLAIN(e['s'])], suffix=[WEND], replay='msvs'),
                                   'ends-there': ReadsBack(e, Mid(ARGV), e['s'], [PLAIN(e['s'])], suffix=[WEND], post=' ', replay='msvs')})
MSB = Contract('_EscapeMSBuildSpecialCharacters', V8._EscapeMSBuildSpecialCharacters, {'s': StrT}, ret=StrT,
               ensures=lambda e: {'text': ReadsBack(e, R.MsbuildEscapes(), e['s'], [], replay='msbuild')})


def contracts():
    mk = lambda *cs: (lambda: Verifier({inspect.unwrap(c.fn): c for c in cs}, models={**M.PATHS, **RE}))
    return [(c, mk()) for c in (RSP, RSPN, ENVX, MSVS, MSB)]


# ------------------------------------------------------------------ bounded contract runs
ODD = ['"', '\\', 'a', ' ', '%', '/', ';', ',', '#', '\t', "'", '$', '@', '?', '*', '&', '^', '-', '=', '(', ')', 'é', '.', ':', '']


def c_text(tier, rng):
    for k in range(5): yield from map(''.join, itertools.product(ODD[:7 if k > 3 else 12], repeat=k))
    while True: yield ''.join(rng.choice(ODD[:rng.choice([3, 5, 9, 25])]) for _ in range(rng.randrange(1, 16)))


def chain(text, *rs):
    out = [text]
    for i, r in enumerate(rs):
        out = [o for t in out for o in (run_reader(r, t) if isinstance(r, R.Reader) else r(t))]
        if i < len(rs) - 1: out = [o if isinstance(o, str) else ''.join(o) for o in out]
    return out


def said(how, text, got, want): return None if got == want else '%s reads %r as %r, not %r' % (how, text, got, want)


def norm(s): return os.path.normpath(s) if s.find('/') > 0 or s.count('/') > 1 else s


def r_rsp(s):
    t = E.QuoteForRspFile(s)
    m = said('the program', t, [words(r) for r in chain(t, R.DoublePercent(), ARGV)], [[norm(s)]])
    u = E.QuoteForRspFile(s, False)
    return m or said('the batch file', u, [''.join(r) for r in chain(u, R.DoublePercent())], [norm(s)]) or (None if t == E.QuoteForRspFile(s, True) else 'quoting is not the default')


def r_percent(s):
    t = V8._EscapeEnvironmentVariableExpansion(s)
    return said('the tool', t, [''.join(r) for r in chain(t, R.DoublePercent())], [s])


def r_msvs(s):
    t = V8._EscapeCommandLineArgumentForMSVS(s)
    return said('the program', t, [words(r) for r in chain(t, ARGV)], [[s]])


def r_msbuild(s):
    t = V8._EscapeMSBuildSpecialCharacters(s)
    return said('MSBuild', t, [''.join(r) for r in chain(t, R.MsbuildEscapes())], [s])


def vcproj_items(t):
    """the items of a VCProj list: cut at commas and semicolons outside quotes (backslashes mean nothing here)"""
    out, cur, q = [], '', False
    for c in t:
        if c == '"': q = not q
        if c in ',;' and not q:
            out.append(cur)
            cur = ''
        else: cur += c
    return out + [cur], q


def r_vcproj(s):
    if s.count('"') % 2: return None                       # documented: cannot be written so that both readers agree
    t = V8._EscapeVCProjCommandLineArgListItem(V8._EscapeCommandLineArgumentForMSVS(s))
    items, open_ = vcproj_items(t)
    if len(items) != 1 or open_: return 'VCProj reads %r as the items %r' % (t, items)
    return said('the program', t, [words(r) for r in chain(t, ARGV)], [[s]])


def c_list(tier, rng):
    words_ = lambda: ''.join(rng.choice(ODD[:rng.choice([4, 5, 25])]) for _ in range(rng.randrange(7)))
    yield []
    while True:
        p = rng.choice(['prog', 'a/b/../c', 'call ../x.bat', 'call x y/../z', 'echo', 'a//b', './p', 'C:/x/y'])
        yield ([p] + [words_() for _ in range(rng.randrange(5))], rng.random() < .8)


def r_list(x):
    if not x: return None if E.EncodeRspFileList([], True) == '' and E.EncodeRspFileList([], False) == '' else 'no arguments'
    args, q = x
    a0 = list(args)
    t = E.EncodeRspFileList(args, q)
    if args != a0: return 'the arguments were changed'
    p = args[0]
    p = 'call ' + os.path.normpath(p[5:]) if p.startswith('call ') else os.path.normpath(p)
    if not t.startswith(p + ' '): return 'the program %r does not begin %r' % (p, t)
    rest = t[len(p) + 1:]
    if q: return said('the program', rest, [words(r) for r in chain(rest, R.DoublePercent(), ARGV)], [[norm(a) for a in args[1:]]])
    return said('the batch file', rest, [''.join(r) for r in chain(rest, R.DoublePercent())], [' '.join(norm(a) for a in args[1:])])


def hash_back(t): return [t.replace('\\043', '#')]


def r_define(s):
    """a define, on its way through each of the generators, to the compiler"""
    if '\\043' in s or re.search(r'\\#', s): return None
    want = s
    if not s.count('"') % 2 and not re.search(r'\\[,;]', s):
        with contextlib.redirect_stderr(io.StringIO()): t = V8._EscapeCppDefineForMSVS(s)
        if '#' in t: return 'a hash is left in %r' % t
        items, open_ = vcproj_items(t)
        got = [words(r) for t2 in hash_back(t) for r in chain(t2, R.DoublePercent(), ARGV)]
        if len(items) != 1 or got != [[want]]: return 'MSVS reads the define %r as %r, %r' % (t, items, got)
    t = V8._EscapeCppDefineForMSBuild(s)
    if '#' in t: return 'a hash is left in %r' % t
    if not re.search(r'\\"', s):
        m = said('MSBuild', t, [r for t2 in hash_back(t) for r in map(''.join, chain(t2, R.MsbuildEscapes(), R.DoublePercent()))], [want])
        if m: return m
    else:
        # backslashes before a quote: the quote must stay a literal one (an odd number stands before it)
        u = V8._EscapeCommandLineArgumentForMSBuild(s)
        if re.sub(r'\\+"', '"', u) != re.sub(r'\\+"', '"', s) or any(len(b) % 2 == 0 for b in re.findall(r'(\\+)"', u)): return 'the quotes of %r are not literal in %r' % (s, u)
    if norm('-D' + s) == '-D' + s and '"' not in s:
        t = N.Define(s, 'win')
        got = [words(r) for t2 in hash_back(t) for r in chain(t2, R.NinjaValue(), R.DoublePercent(), ARGV)]
        return said('ninja', t, got, [['-D' + want]])


def bounded():
    b = 'every text of up to 3 of 12 and 4 of 7 awkward characters, then random texts'
    return [Bounded('rsp', c_text, r_rsp, b, budget=(6, 90)), Bounded('percent', c_text, r_percent, b, budget=(3, 30)),
            Bounded('msvs', c_text, r_msvs, b, budget=(5, 90)), Bounded('msbuild', c_text, r_msbuild, b, budget=(4, 30)),
            Bounded('vcproj', c_text, r_vcproj, b, budget=(6, 90)), Bounded('rsp-list', c_list, r_list, 'random lists of up to 5 items', budget=(6, 60)),
            Bounded('define', c_text, r_define, b, budget=(7, 90))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source; z3/cvc5 and an exact decision procedure for string transducers)',
            note='QuoteForRspFile, _EscapeCommandLineArgumentForMSVS, _EscapeEnvironmentVariableExpansion and _EscapeMSBuildSpecialCharacters are proved to be read back by readers of Windows arguments, doubled percent signs and MSBuild escapes for every '
                 'string without NUL and line ends. _EscapeVCProjCommandLineArgListItem, EncodeRspFileList and the define encoders are run on bounded inputs and read back.',
            assumptions=['programs split their command line as CommandLineToArgvW does (reader vlib/readers.py Argv)', 'os.path.normpath is what QuoteForRspFile documents for arguments that look like paths'])
