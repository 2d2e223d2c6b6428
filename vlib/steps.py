"""Ghost model of a file system for G13: every operation takes one step, may fail, and the target must be whole after each step.

disk.content[file]: text of the file, None: there is no such file (bytes are represented as text, a name stands for one file); disk.mode, disk.touched (set by whatever changes the file);
written[file]: what was given to the file object that writes it (it reaches the file when that is flushed or closed; until then the file holds anything)."""
import errno
import filecmp
import os
import tempfile
import z3
from pyvc import terms as T
from pyvc.types import *
from pyvc.core import *
from pyvc.contract import *
from pyvc.expr import is_str, is_int, is_bool, st_term
from pyvc.call import uf

V = T.V
FID = z3.Function('file_named', T.String, T.Int)
FD = z3.Function('path_of_descriptor', T.Int, T.String)
DIR = z3.Function('directory_asked_for', T.String, T.String)
NO = V.NoneV
ENC, OK = uf('encode', T.String, T.String, T.String), uf('encodable', T.String, T.String, z3.BoolSort())


class File:
    def write(self, data): pass
    def flush(self): pass
    def close(self): pass
    def fileno(self): pass


class Writer: pass


CLASSES = {'File': {'content': Any, 'mode': IntT, 'touched': BoolT, 'written': StrT, 'open': BoolT}, 'Process': {'umask': IntT, 'undo_failed': BoolT},
           'Writer': {'tmp_path': StrT, 'tmp_file': TObj('File')}}
OBJS = {'File': File, 'Writer': Writer}
DISK = [('File', 'content'), ('File', 'mode'), ('File', 'touched')]
KEYS = DISK + [('File', 'written'), ('File', 'open'), ('Process', 'umask'), ('Process', 'undo_failed')]
ZERO = z3.IntVal(0)
NOTE = "the operations on files do what vlib/steps.py says (rename and replace are one step within a directory, nobody else changes the files meanwhile, what was written is on the disk once the file was closed without an error, mkstemp makes a new file that is not the target)"


def plain(cls, f, t):
    n = {IntT: 'i', BoolT: 'b', StrT: 's'}.get(CLASSES[cls][f])
    return T.acc(n, t) if n else t


def get(st, cls, f, i): return plain(cls, f, T.aselect(st.fields[('fld', cls, f)], i))
def at(e, f, i, final=False): return get(e.st1 if final else e.st0, 'File', f, i)
def proc(e, f, final=False): return get(e.st1 if final else e.st0, 'Process', f, ZERO)


def put(st, cls, **kw):
    s = st.copy()
    i = kw.pop('at', ZERO)
    for f, v in kw.items():
        k = ('fld', cls, f)
        if not v.sort() == V: v = V.BoolV(v) if z3.is_bool(v) else V.IntV(v) if z3.is_int(v) else V.StrV(v)
        s.fields[k] = z3.Store(s.fields[k], i, v)
    return s


def error(n=None):
    """a file that is not there, or any other error"""
    if n == errno.ENOENT: x = Exc(FileNotFoundError)
    else:
        x = Exc(OSError)
        x.excluded = (FileNotFoundError,)
    x.errno = Sc(z3.IntVal(n) if n else T.fresh('errno', T.Int), IntT)
    return x


def failing(st, x=None):
    x = x or error()
    return st.assume(x.errno.t != errno.ENOENT), x


def step(eng, st, node, what):
    """after every step the target holds what it held before or what was written"""
    spec = getattr(eng.cur, 'whole', None)
    if spec is not None and eng.cur is not None: eng.oblige('%s:every-step' % eng.cur.name, st, spec(eng.entry, st), '%s in line %s' % (what, getattr(node, 'lineno', '?')))
    return st


def paths(n):
    def deco(f):
        def model(eng, st, args, kw, node):
            eng.assumed.add(NOTE)
            todo = [(st, [])]
            for a in args[:n]: todo = [(s2, vs + [v]) for s, vs in todo for s2, v in eng.force(s, a)]
            out = []
            for s, vs in todo:
                if not all(is_str(v) for v in vs): raise Unsupported("%s of %r" % (f.__name__, vs))
                for s2, r in f(eng, s, [st_term(v) for v in vs], args[n:], kw, node): out.append((step(eng, s2, node, f.__name__), r))
            return out
        return model
    return deco


def there(st, i): return T.tester('StrV', get(st, 'File', 'content', i))


def cases(eng, st, *conds):
    """(state, verdicts) for the feasible truth values"""
    todo = [(st, [])]
    for c in conds: todo = [(s2, vs + [g]) for s, vs in todo for s2, g in eng.branch(s, Sc(c, BoolT))]
    return todo


@paths(1)
def unlink(eng, st, ps, rest, kw, node):
    i = FID(ps[0])
    out = []
    for s, (here,) in cases(eng, st, there(st, i)):
        if not here: out.append((s, error(errno.ENOENT)))
        else:
            out.append((put(s, 'File', at=i, content=NO, touched=z3.BoolVal(True)), Py(None)))
            s2, x = failing(s)
            out.append((put(s2, 'Process', undo_failed=z3.BoolVal(True)), x))
    return out


@paths(2)
def rename(eng, st, ps, rest, kw, node):
    a, b = FID(ps[0]), FID(ps[1])
    out = []
    for s, (here,) in cases(eng, st, there(st, a)):
        if not here: out.append((s, error(errno.ENOENT)))
        else:
            out.append(failing(s))
            s2 = put(s, 'File', at=b, content=get(s, 'File', 'content', a), mode=get(s, 'File', 'mode', a), touched=z3.BoolVal(True))
            s2 = put(s2, 'File', at=a, content=z3.If(a == b, get(s2, 'File', 'content', a), NO))
            out.append((s2, Py(None)))
    return out


@paths(1)
def chmod(eng, st, ps, rest, kw, node):
    i = FID(ps[0])
    out = []
    for s, (here,) in cases(eng, st, there(st, i)):
        if not here: out.append((s, error(errno.ENOENT)))
        else:
            out.append(failing(s))
            for s2, m in eng.force(s, rest[0]): out.append((put(s2, 'File', at=i, mode=st_term(m), touched=z3.BoolVal(True)), Py(None)))
    return out


@paths(2)
def cmp(eng, st, ps, rest, kw, node):
    a, b = FID(ps[0]), FID(ps[1])
    shallow = kw['shallow'] if 'shallow' in kw else rest[0] if rest else Py(True)
    if not isinstance(shallow, Py): raise Unsupported("filecmp.cmp")
    out = []
    for s, (ha, hb) in cases(eng, st, there(st, a), there(st, b)):
        out.append(failing(s))
        if not (ha and hb): out.append((s, error(errno.ENOENT)))
        else:
            same = get(s, 'File', 'content', a) == get(s, 'File', 'content', b)
            r = same if not shallow.o else T.fresh('same_signature_or_content', T.Bool)
            s2 = s if not shallow.o else s.assume(z3.Implies(same, r))
            out.append((s2, Sc(r, BoolT)))
    return out


@paths(1)
def exists(eng, st, ps, rest, kw, node):
    return [(st, Sc(there(st, FID(ps[0])), BoolT))]


def umask(eng, st, args, kw, node):
    eng.assumed.add(NOTE)
    old = get(st, 'Process', 'umask', ZERO)
    out = []
    for s, m in eng.force(st, args[0]): out.append((put(s, 'Process', umask=st_term(m)), Sc(old, IntT)))
    return out


def mkstemp(eng, st, args, kw, node):
    """a new empty file in the directory asked for, readable by the owner only"""
    eng.assumed.add(NOTE)
    if args or set(kw) - {'suffix', 'prefix', 'dir'} or 'dir' not in kw: raise Unsupported("tempfile.mkstemp")
    out = [failing(st)]
    for s, d in eng.force(st, kw['dir']):
        if not is_str(d): raise Unsupported("tempfile.mkstemp")
        p, fd = T.fresh('tmp_name', T.String), T.fresh('fd', T.Int)
        i = FID(p)
        target = FID(eng.entry['filename'])
        s = s.assume(FD(fd) == p, DIR(p) == st_term(d), get(s, 'File', 'content', i) == NO, i != target)
        s = put(s, 'File', at=i, content=V.StrV(T.sv('')), mode=z3.IntVal(0o600), touched=z3.BoolVal(True), written=T.sv(''), open=z3.BoolVal(False))
        out.append((step(eng, s, node, 'mkstemp'), Tup([Sc(fd, IntT), Sc(p, StrT)])))
    return out


def fdopen(eng, st, args, kw, node):
    mode = args[1].o if len(args) > 1 else kw['mode'].o if 'mode' in kw else 'r'
    if mode != 'wb' or len(args) > 2 or set(kw) - {'mode'}: raise Unsupported("os.fdopen with mode %r" % mode)
    out = [failing(st)]
    for s, fd in eng.force(st, args[0]):
        i = FID(FD(st_term(fd)))
        out.append((put(s, 'File', at=i, written=T.sv(''), open=z3.BoolVal(True)), Sc(i, TObj('File'))))
    return out


def anything(st, i):
    x = T.fresh('part', T.String)
    return put(st, 'File', at=i, content=z3.If(there(st, i), V.StrV(x), NO), touched=z3.BoolVal(True))


def fm(name):
    def deco(f):
        def model(eng, st, args, kw, node):
            eng.assumed.add(NOTE)
            return [(step(eng, s, node, name), r) for s, r in f(eng, st, args[0].t, args[1:], kw)]
        MODELS[getattr(File, name)] = model
        return f
    return deco


def bad(st):
    return st, Exc(ValueError)


MODELS = {os.unlink: unlink, os.remove: unlink, os.rename: rename, os.replace: rename, os.chmod: chmod, filecmp.cmp: cmp, os.path.exists: exists, os.umask: umask, tempfile.mkstemp: mkstemp, os.fdopen: fdopen}


@fm('write')
def _(eng, st, i, args, kw):
    out = []
    for s0, d in eng.force(st, args[0]):
        for s, (is_open,) in cases(eng, s0, get(s0, 'File', 'open', i)):
            if not is_open:
                out.append(bad(s))
                continue
            out.append((put(anything(s, i), 'File', at=i, written=z3.Concat(get(s, 'File', 'written', i), st_term(d))), Sc(z3.Length(st_term(d)), IntT)))
            out.append(failing(anything(s, i)))
    return out


def flushed(st, i): return put(st, 'File', at=i, content=z3.If(there(st, i), V.StrV(get(st, 'File', 'written', i)), NO), touched=z3.BoolVal(True))


@fm('flush')
def _(eng, st, i, args, kw):
    out = []
    for s, (is_open,) in cases(eng, st, get(st, 'File', 'open', i)):
        if not is_open: out.append(bad(s))
        else:
            out.append((flushed(s, i), Py(None)))
            out.append(failing(anything(s, i)))
    return out


@fm('close')
def _(eng, st, i, args, kw):
    out = []
    for s, (is_open,) in cases(eng, st, get(st, 'File', 'open', i)):
        if not is_open: out.append((s, Py(None)))
        else:
            out.append((put(flushed(s, i), 'File', at=i, open=z3.BoolVal(False)), Py(None)))
            out.append(failing(put(anything(s, i), 'File', at=i, open=z3.BoolVal(False))))
    return out


@fm('fileno')
def _(eng, st, i, args, kw):
    fd = T.fresh('fd', T.Int)
    return [(st.assume(FID(FD(fd)) == i), Sc(fd, IntT))]


def fsync(eng, st, args, kw, node): return [(st, Py(None)), failing(st)]


MODELS[os.fsync] = fsync
