"""G13 Generated files are replaced atomically and only when they differ."""
import builtins
import contextlib
import errno
import filecmp
import inspect
import os
import stat
import tempfile
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from pyvc.expr import bits
from vlib import models as M
from vlib import steps as D
import gyp.common as C

V = T.V


FREE = {'filename': StrT}
SELF = {'self': TObj('Writer')}
FULL = 0o666


def fid(e): return D.FID(e['filename'])
def tmp(e, final=False): return D.FID(D.get(e.st1 if final else e.st0, 'Writer', 'tmp_path', e['self']))
def whole(entry, st):
    """at any step: the target is what it was, or it is complete"""
    i = fid(entry)
    c = T.aselect(st.fields[('fld', 'File', 'content')], i)
    return z3.Or(c == D.at(entry, 'content', i), c == new(entry))


def new(e): return V.StrV(D.at(e, 'written', tmp(e)))
def kept(e, i): return [D.at(e, f, i, True) == D.at(e, f, i) for f in ('content', 'mode', 'touched')]
def nothing_else(e, *ids):
    """no other file was changed"""
    f = z3.Int('other_file')
    return z3.Implies(z3.And(*[f != i for i in ids]), z3.And(*kept(e, f)))


def clean(e, i): return z3.Or(D.at(e, 'content', i, True) == D.NO, D.proc(e, 'undo_failed', True))
def same_umask(e): return D.proc(e, 'umask', True) == D.proc(e, 'umask')


def valid(e, open_=True):
    i, t = fid(e), tmp(e)
    c = D.at(e, 'content', i)
    oid = D.get(e.st0, 'Writer', 'tmp_file', e['self'])
    m = D.proc(e, 'umask')
    d = D.at(e, 'content', t)
    return [i != t, z3.Or(c == D.NO, T.tester('StrV', c)), T.acc('oid', oid) == t, T.tester('ObjV', oid), m >= 0, m <= 0o777, z3.Not(D.proc(e, 'undo_failed')),
            # the temporary file is there while it is being written; when a write failed it is gone and the file object is closed
            z3.If(T.tester('StrV', d), D.at(e, 'open', t), z3.And(d == D.NO, z3.Not(D.at(e, 'open', t))))]


def perms(e): return bits('BitAnd', z3.IntVal(FULL), -D.proc(e, 'umask') - 1)


def close_ens(e):
    i, t = fid(e), tmp(e)
    old = D.at(e, 'content', i)
    return {'holds-what-was-written': D.at(e, 'content', i, True) == new(e), 'no-temporary-file': D.at(e, 'content', t, True) == D.NO, 'equal-is-untouched': z3.Implies(old == new(e), z3.And(*kept(e, i))),
            'permissions': z3.Implies(old != new(e), D.at(e, 'mode', i, True) == perms(e)), 'only-these-files': nothing_else(e, i, t), 'umask': same_umask(e)}


def close_fail(e): return z3.And(*kept(e, fid(e)), clean(e, tmp(e)), nothing_else(e, fid(e), tmp(e)), same_umask(e))


def write_ens(e):
    t = tmp(e)
    return {'appended': D.at(e, 'written', t, True) == z3.Concat(D.at(e, 'written', t), D.ENC(e['s'], T.sv('utf-8'))), 'target-untouched': z3.And(*kept(e, fid(e))), 'only-this-file': nothing_else(e, t), 'umask': same_umask(e),
            'still-there': z3.And(T.tester('StrV', D.at(e, 'content', t, True)), D.at(e, 'open', t, True))}


def write_fail(e):
    t = tmp(e)
    return z3.And(*kept(e, fid(e)), clean(e, t), nothing_else(e, t), same_umask(e), z3.Not(D.at(e, 'open', t, True)))


def init_ens(e):
    t = tmp(e, True)
    out = valid_after(e)
    out.update({'target-untouched': z3.And(*kept(e, fid(e))), 'only-this-file': nothing_else(e, t), 'umask': same_umask(e), 'nothing-written': D.at(e, 'written', t, True) == T.sv(''),
                'beside-the-target': D.DIR(D.get(e.st1, 'Writer', 'tmp_path', e['self'])) == M.fun('os.path.dirname', T.String, T.String)(e['filename'])})
    return out


def valid_after(e):
    t = tmp(e, True)
    return {'opened': z3.And(fid(e) != t, T.acc('oid', D.get(e.st1, 'Writer', 'tmp_file', e['self'])) == t, D.at(e, 'open', t, True), T.tester('StrV', D.at(e, 'content', t, True)))}


def made(e):
    """whatever file was made is gone again"""
    f = z3.Int('any_file')
    return z3.And(z3.Or(D.at(e, 'content', f, True) == D.at(e, 'content', f), D.proc(e, 'undo_failed', True)), *kept(e, fid(e)), same_umask(e))


def init_req(e):
    c = D.at(e, 'content', fid(e))
    return [z3.Or(c == D.NO, T.tester('StrV', c)), z3.Not(D.proc(e, 'undo_failed'))]


def nested(inner, params, **k):
    c = Nested('WriteOnDiff.%s' % inner, C.WriteOnDiff, inner, params, FREE, cls='Writer', ret=NoneT, **k)
    return c


CLOSE = nested('close', SELF, fields=D.KEYS, requires=valid, ensures=close_ens, raises={OSError: close_fail})
WRITE = nested('write', dict(SELF, s=StrT), fields=D.KEYS, requires=lambda e: valid(e) + [T.tester('StrV', D.at(e, 'content', tmp(e)))], ensures=write_ens, raises={OSError: write_fail, UnicodeEncodeError: write_fail})
INIT = nested('__init__', SELF, fields=D.KEYS + [('Writer', 'tmp_path'), ('Writer', 'tmp_file')], requires=init_req, ensures=init_ens, raises={OSError: made})
CLOSE.whole = whole
WRITE.whole = INIT.whole = lambda entry, st: T.aselect(st.fields[('fld', 'File', 'content')], fid(entry)) == D.at(entry, 'content', fid(entry))
CYGWIN = Contract('IsCygwin', C.IsCygwin, {}, ret=BoolT, trusted=True, ensures=lambda e: {'no': z3.Not(e.r)}, assumed=['the platform is not Cygwin'])


def contracts():
    mk = lambda: Verifier({inspect.unwrap(C.IsCygwin): CYGWIN}, models={**M.PATHS, **D.MODELS}, classes=D.CLASSES, class_objs=D.OBJS)
    return [(c, mk) for c in (INIT, WRITE, CLOSE)]


# ------------------------------------------------------------------ bounded: every write is followed step by step on a real file system in a scratch directory, and every step is made to fail
OPS = [(os, n) for n in ('rename', 'replace', 'unlink', 'remove', 'chmod', 'fchmod', 'link', 'symlink', 'fdopen', 'open', 'truncate', 'ftruncate', 'fsync', 'utime', 'umask', 'close', 'write', 'stat', 'access')]
OPS += [(filecmp, 'cmp'), (tempfile, 'mkstemp'), (tempfile, 'NamedTemporaryFile'), (tempfile, 'mktemp'), (os, 'sendfile'), (builtins, 'open')]
UNFAILING = ('umask', 'stat', 'access', 'mktemp')
UNDO = ('unlink', 'remove')


class Fault(OSError): pass


class Watch:
    """calls look() before and after every operation on files, and makes the n-th operation that can fail do so"""

    def __init__(self, look, fail): self.look, self.fail, self.n, self.depth, self.log, self.failed = look, fail, 0, 0, [], None

    def wrap(self, name, f):
        def op(*a, **k):
            if self.depth: return f(*a, **k)
            self.depth += 1
            try:
                self.look(name)
                if name not in UNFAILING:
                    self.n += 1
                    self.log.append(name)
                    if self.n == self.fail:
                        self.failed = name
                        if name == 'fdopen' or name == 'close':
                            with contextlib.suppress(OSError, TypeError): os_close(a[0])
                        raise Fault(errno.EIO, 'made to fail')
                if name in ('rename', 'replace', 'link') and len({os.path.realpath(os.path.dirname(p)) for p in a[:2]}) > 1: raise OSError(errno.EXDEV, 'different file systems')
                r = f(*a, **k)
                self.look(name)
                return File(self, r) if name in ('fdopen', 'open', 'NamedTemporaryFile') and hasattr(r, 'write') else r
            finally: self.depth -= 1
        return op


class File:
    """a file object whose operations are watched too"""

    def __init__(self, watch, f): self.__dict__.update(_w=watch, _f=f)

    def __getattr__(self, n):
        v = getattr(self._f, n)
        if n not in ('write', 'flush', 'close', 'writelines', 'truncate'): return v

        def op(*a):
            if n == 'close':
                try: return self._w.wrap('file.close', lambda *a: None)()
                finally: self._f.close()
            return self._w.wrap('file.' + n, v)(*a)
        return op

    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __iter__(self): return iter(self._f)


os_close = os.close


def r_write(x):
    name, old, chunks, mask, mode, fail, how = x
    with scratch() as d:
        os.chdir(d)
        os.makedirs('sub', exist_ok=True)
        real = builtins.open
        if old is not None:
            with real(name, 'wb') as f: f.write(old.encode('utf-8'))
            os.chmod(name, mode)
            os.utime(name, (1000000000, 1000000000))
        want = ''.join(chunks).encode('utf-8', 'replace') if how != 'bad' else None
        before = old.encode('utf-8') if old is not None else None
        st = os.stat
        s0 = st(name) if old is not None else None
        problems = []

        def now():
            try:
                with real(name, 'rb') as f: return f.read()
            except FileNotFoundError: return None

        def look(op):
            if how == 'coarse':          # time stamps that do not tell
                for n in os.listdir('.'): os.utime(n, (1000000000, 1000000000))
            c = now()
            if c != before and (want is None or c != want): problems.append('at %s the file holds %r' % (op, c))
        old_mask = os.umask(mask)
        w = Watch(look, fail)
        saved = [(m, n, getattr(m, n)) for m, n in OPS if hasattr(m, n)]
        try:
            for m, n, f in saved: setattr(m, n, w.wrap(n, f))

            def go():
                o = C.WriteOnDiff(name)
                for c in chunks: o.write(c)
                if how == 'with' and hasattr(type(o), '__exit__'): o.__exit__(None, None, None)
                else: o.close()
            o = outcome(go)
        finally:
            for m, n, f in saved: setattr(m, n, f)
            mask2 = os.umask(old_mask)
        if problems: return problems[0] + ', neither what was there (%r) nor what was written' % (before,)
        if mask2 != mask: return 'the umask is now %o' % mask2
        left = sorted(os.path.join(p, f)[2:] for p, _, fs in os.walk('.') for f in fs)
        extra = [f for f in left if f != os.path.normpath(name)]
        if extra and w.failed not in UNDO: return 'left behind: %r (%s failed)' % (extra, w.failed)
        c = now()
        if o[0] == 'raise':
            if c != before and w.failed not in UNDO: return 'failed (%s), and the file holds %r, not %r' % (w.failed, c, before)
            if fail is None and how != 'bad': return 'failed: %r' % (o[1:],)
            if how == 'bad' and w.failed is None and o[1] != 'UnicodeEncodeError': return 'failed with %r' % (o,)
            return None
        if how == 'bad': return 'text that cannot be encoded was accepted'
        if c != want: return 'the file holds %r, not %r' % (c, want)
        s1 = st(name)
        if before == want and before is not None:
            if (s0.st_ino, s0.st_mtime_ns, s0.st_mode) != (s1.st_ino, s1.st_mtime_ns, s1.st_mode): return 'an equal file was touched'
        elif stat.S_IMODE(s1.st_mode) != 0o666 & ~mask: return 'mode %o with umask %o' % (stat.S_IMODE(s1.st_mode), mask)


TEXTS = ['', 'a', 'b', 'ab', 'a\n', 'a\r\n', 'a\nb', '\u00e9', '\u20ac\n', 'x' * 5000, 'x' * 4999 + 'y', '\ufeffa', 'a\0b', 'y' * 9000 + 'z', 'y' * 9000 + 'w']


def c_write(tier, rng):
    """inputs: (file, its content or None, what is written, umask, mode, operation that fails, how)"""
    for old in [None] + TEXTS:
        for new in TEXTS: yield 'f', old, [new], 0o022, 0o644, None, ''
    for fail in range(1, 16):
        for old in (None, 'a', 'b', '', 'ab'):
            for name in ('f', 'sub/f.mk'): yield name, old, ['a'], 0o022, 0o644, fail, ''
    for old in TEXTS:
        for new in TEXTS:
            if len(old.encode()) == len(new.encode()): yield 'f', old, [new], 0o022, 0o644, None, 'coarse'
    for old in (None, 'a', 'b'):
        yield 'f', old, ['a', 'x\udc80'], 0o022, 0o644, None, 'bad'
        for mask in (0, 0o2, 0o22, 0o27, 0o77, 0o777, 0o111, 0o400):
            for mode in (0o644, 0o444, 0o755, 0o600): yield 'f', old, ['a'], mask, mode, None, ''
    while True:
        old = rng.choice([None] + TEXTS)
        new = rng.choice(TEXTS + [old or ''])
        i = rng.randrange(len(new) + 1)
        chunks = [new[:i], new[i:]] if rng.random() < .5 else [new]
        yield rng.choice(['f', 'sub/f', './f', 'sub/../f', 'f.tmp', 'a b', '\u00e9']), old, chunks, rng.choice([0, 0o22, 0o77, 0o27]), rng.choice([0o644, 0o600, 0o666]), rng.choice([None, None, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), rng.choice(['', '', 'with'])


def c_history(tier, rng):
    """inputs: what is written to one file, one after the other, with the operation that fails"""
    while True: yield [(rng.choice(['a', 'b', 'ab', '', 'a' * 9000]), rng.choice([None, None, None, 1, 2, 3, 4, 5, 6, 7])) for _ in range(rng.randrange(2, 6))]


def r_history(xs):
    """several files at once, interleaved, and one after the other"""
    with scratch() as d:
        os.chdir(d)
        have = None
        for text, fail in xs:
            w = Watch(lambda op: None, fail)
            saved = [(m, n, getattr(m, n)) for m, n in OPS if hasattr(m, n)]
            try:
                for m, n, f in saved: setattr(m, n, w.wrap(n, f))

                def go():
                    o, p = C.WriteOnDiff('f'), C.WriteOnDiff('g')
                    p.write(text + 'g')
                    o.write(text)
                    o.close()
                    p.close()
                o = outcome(go)
            finally:
                for m, n, f in saved: setattr(m, n, f)
            got = open('f').read() if os.path.exists('f') else None
            if o[0] == 'ok':
                have = text
                if got != text or open('g').read() != text + 'g': return 'after %r the files hold %r and %r' % (text, got, open('g').read())
                left = sorted(os.listdir('.'))
                if [n for n in left if n.startswith(('f', 'g')) and n not in ('f', 'g')] and not any(f for _, f in xs): return 'left behind: %r' % left
            elif got not in (have, text): return 'after a failure the file holds %r' % (got,)
            else: have = got


def bounded():
    return [Bounded('one write', c_write, r_write, 'every pair of 16 contents, every operation on files failing once, umasks and modes', budget=(8, 60)), Bounded('histories', c_history, r_history, 'sequences of up to 5 writes to two files', budget=(4, 20))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='Writer.__init__, write and close under contract over a ghost file system: for every content, every state of the target and every operation failing (a failure of the clean-up itself apart), the target holds what it held before or all that was written after every single step, equal files keep content, mode and mark, the mode comes from the umask, no temporary file is left, no other file is touched. The same statement is run on a real file system with every operation on files made to fail in turn.',
            assumptions=['rename is one step within a directory, nobody else changes the files meanwhile, data is on the disk once close succeeded', 'POSIX: not Windows (where the target is removed first), not Cygwin', 'a generator that stops between opening and closing a file leaves its temporary file (outside the two calls under contract)'])
