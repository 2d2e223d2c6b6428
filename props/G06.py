"""G06 Shell quoting for make and ninja survives a POSIX shell."""
import itertools
import subprocess
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.strops import RE, ReadsBack, pred
from pyvc.strtrans import WEND, run_reader, words
from vlib import models as M
from vlib import readers as R
import gyp.common as C
import gyp.generator.make as MK
import gyp.generator.ninja as N

V = T.V
NUL = T.sv('\0')


def no_nul(t): return z3.Not(z3.Contains(t, NUL))


def word(reader, replay, dom=no_nul, image=None):
    """the text is one word equal to the argument, alone and in front of another word"""
    def ens(e):
        s = e['argument'] if 'argument' in e.params else e[list(e.params)[0]]
        ds = [dom(s)] if dom else []
        return {'one-word': ReadsBack(e, reader, s, ds, suffix=[WEND], replay=replay, image=image(s) if image else None),
                'ends-there': ReadsBack(e, Mid(reader), s, ds, suffix=[WEND], post=' ', replay=replay, image=image(s) if image else None)}
    return ens


class Mid(R.Reader):
    """the same reader, accepting only between two words"""
    def __init__(self, r): self.r, self.start, self.special = r, r.start, r.special
    def step(self, q, c): return self.r.step(q, c)
    def final(self, q): return [] if q == 'gap' else None


SH, SHD = R.PosixShell(), R.PosixShell(dollar=True)
POSIX = Contract('EncodePOSIXShellArgument', C.EncodePOSIXShellArgument, {'argument': StrT}, ret=StrT, ensures=word(SHD, 'posix-argument'))
MAKE = Contract('make.EscapeShellArgument', MK.EscapeShellArgument, {'s': StrT}, ret=StrT, ensures=word(SH, 'make-argument'))


def ens_ninja(e):
    s = e['arg']
    return word(SH, 'ninja-argument')(e)


NINJA = Contract('ninja.QuoteShellArgument[posix]', N.QuoteShellArgument, {'arg': StrT, 'flavor': StrT}, ret=StrT, requires=lambda e: [e['flavor'] != T.sv('win')], ensures=ens_ninja)

enc = z3.Function('EncodePOSIXShellArgument', V, V)
encmap = T.Fold('encoded', lambda: T.empty(), lambda acc, x, p: T.concat(acc, T.unit(enc(x))), T.SeqV)
ENC = Contract('EncodePOSIXShellArgument (as a function)', C.EncodePOSIXShellArgument, {'argument': StrT}, ret=StrT, trusted=True,
               ensures=lambda e: {'f': V.StrV(e.r) == enc(e.val('argument'))}, assumed=['EncodePOSIXShellArgument is a function of its argument (it reads no other state)'])


def cands_list(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    for n, t, loc in lv.kinds('list'): out['map:' + n] = T.acc('items', t) == encmap(lv.done)
    return out


from pyvc.call import JOIN
PLIST = Contract('EncodePOSIXShellList', C.EncodePOSIXShellList, {'list': TList(StrT)}, ret=StrT, cands=cands_list,
                 ensures=lambda e: {'joined': e.r == JOIN(T.sv(' '), encmap(e['list'])), 'as-many': z3.BoolVal(True)})


def lem_count():
    q, x = z3.Const('q', T.SeqV), z3.Const('x', V)
    return [('base', [], T.length(encmap(T.empty())) == 0),
            ('step', [T.length(encmap(q)) == z3.Length(q)], T.length(encmap(T.concat(q, T.unit(x)))) == z3.Length(q) + 1)]


def contracts():
    mk = lambda *cs: (lambda: Verifier({inspect.unwrap(c.fn): c for c in cs}, models={**M.PATHS, **RE}))
    return [(POSIX, mk()), (MAKE, mk()), (NINJA, mk()), (PLIST, mk(ENC)), (Lemma('as-many-words-as-items', lem_count), mk())]


# ------------------------------------------------------------------ bounded contract runs
ODD = ['', 'a', ' ', '\t', '\n', '"', "'", '\\', '`', '$', '#', '&', '(', ')', '*', ';', '<', '>', '?', '[', ']', '{', '}', '|', '~', '!', '=', '%', '^', ',', ':', '/', '.', '-', '@', '+', '_', 'é', '\r', '\x0b', '0']


def c_words(tier, rng):
    for k in range(4 if tier == 'quick' else 5):
        for t in itertools.product(ODD[1:26] if k == 3 else ODD[1:], repeat=k):
            if k < 3 or rng.random() < (.12 if tier == 'quick' else .5): yield ''.join(t)
    while True: yield ''.join(rng.choice(ODD) for _ in range(rng.randrange(12)))


def one(reader, text, s):
    rs = [words(r) for r in run_reader(reader, text)]
    return None if rs == [[s]] else 'the shell reads %r as %r' % (text, rs)


def r_posix(s): return one(SHD, C.EncodePOSIXShellArgument(s), s)
def r_make(s): return one(SH, MK.EscapeShellArgument(s), s)
def r_ninja(s): return one(SH, N.QuoteShellArgument(s, 'linux'), s)


def r_list(l):
    t = C.EncodePOSIXShellList(l)
    rs = [words(r) for r in run_reader(SHD, t)]
    return None if rs == [list(map(str, l))] else 'the shell reads %r as %r' % (t, rs)


def c_list(tier, rng):
    yield []
    while True: yield [rng.choice([''.join(rng.choice(ODD) for _ in range(rng.randrange(5))), rng.choice(ODD), rng.randrange(-3, 99)]) for _ in range(rng.randrange(6))]


def sh(script, which):
    p = subprocess.run([which, '-c', 'printf "%s\\0" ' + script], capture_output=True, env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'}, cwd='/')
    return p.stdout.split(b'\0')[:-1] if p.returncode == 0 else 'failed: %r' % p.stderr


def c_real(tier, rng):
    # no dollar and no backquote: nothing is expanded or executed should the quoting be wrong
    safe = [c for c in ODD if c not in '$`&;|<>()'] + ['\\\\', "'\\''", '"\'']
    fs = ['posix', 'make', 'ninja', 'list']
    for f in fs:
        yield (f, safe[1:])
    while True:
        yield (rng.choice(fs), [''.join(rng.choice(safe) for _ in range(rng.randrange(1, 8))) for _ in range(12)])


def r_real(x):
    f, l = x
    if f == 'list': t = C.EncodePOSIXShellList(l)
    else: t = ' '.join({'posix': C.EncodePOSIXShellArgument, 'make': MK.EscapeShellArgument, 'ninja': lambda s: N.QuoteShellArgument(s, 'linux')}[f](s) for s in l)
    for which in ('/bin/sh', '/bin/bash'):
        if os.path.exists(which):
            got = sh(t, which)
            if got != [s.encode() for s in l]: return '%s reads %r as %r' % (which, t, got)


def bounded():
    b = 'every word of up to 2 of %d awkward characters, a part of those of 3, then random words' % len(ODD)
    return [Bounded('posix-argument', c_words, r_posix, b, budget=(6, 90)),
            Bounded('make-argument', c_words, r_make, b, budget=(5, 60)),
            Bounded('ninja-argument', c_words, r_ninja, b, budget=(6, 90)),
            Bounded('posix-list', c_list, r_list, 'random lists of up to 5 items', budget=(5, 60)),
            Bounded('real-shells', c_real, r_real, 'words without expansions or operators, read by sh and bash', budget=(6, 60))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source; z3/cvc5 and an exact decision procedure for string transducers)',
            note='EncodePOSIXShellArgument, make.EscapeShellArgument and ninja.QuoteShellArgument are proved to be read back as one word by a reader of POSIX shell words for every string without NUL; '
                 'EncodePOSIXShellList is proved to join exactly the encodings of its items. The reader itself is compared with sh and bash on bounded inputs.',
            assumptions=['the shell reads words as the POSIX reader in /verif/vlib/readers.py does (compared with sh and bash on bounded inputs)', 'arguments contain no NUL'])
