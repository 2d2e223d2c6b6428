"""Ghost model of files for contracts: open() and the methods of the file object, by assumed contract.

A path has a content (absent: None; bytes are represented as text) and a mark that is set when the path was opened for writing
(which is what changes its modification time)."""
import builtins
import z3
from pyvc import terms as T
from pyvc.types import *
from pyvc.core import *
from pyvc.contract import *
from pyvc.expr import is_str, st_term
from pyvc.call import uf

V = T.V
FID = z3.Function('file_of', T.String, T.Int)


class File:
    releases_only = True
    def read(self): pass
    def write(self, data): pass


CLASSES = {'File': {'content': Any, 'touched': BoolT}}
OBJS = {'File': File}
KEYS = [('File', 'content'), ('File', 'touched')]


def at(fields, name, oid): return T.aselect(fields[('fld', 'File', name)], oid)


def content(e, path, final=False): return T.aselect(e.fld('File', 'content', final), FID(path))


def touched(e, path, final=False): return T.aselect(e.fld('File', 'touched', final), FID(path))


def put(st, name, oid, v):
    s = st.copy()
    k = ('fld', 'File', name)
    s.fields[k] = z3.Store(s.fields[k], oid, v)
    return s


def open_(eng, st, args, kw, node):
    """open for reading: the file is there, or OSError; for writing: truncated and marked as touched, or OSError with nothing changed"""
    mode = args[1].o if len(args) > 1 else kw['mode'].o if 'mode' in kw else 'r'
    eng.assumed.add("open, read and write do what vlib/disk.py says: a file that exists can be read, opening to write truncates it, nobody else writes to it meanwhile")
    out = []
    for s, p in eng.force(st, args[0]):
        if not is_str(p): raise Unsupported("open of %r" % (p,))
        oid = FID(st_term(p))
        c = at(s.fields, 'content', oid)
        f = Sc(oid, TObj('File'))
        if mode in ('r', 'rb'):
            out.append((s.assume(T.tester('StrV', c)), f))
            out.append((s.assume(z3.Not(T.tester('StrV', c))), Exc(OSError)))
        elif mode in ('w', 'wb'):
            out.append((s, Exc(OSError)))
            out.append((put(put(s, 'content', oid, V.StrV(T.sv(''))), 'touched', oid, V.BoolV(z3.BoolVal(True))), f))
        else: raise Unsupported("open mode %r" % mode)
    return out


READ = Contract('file.read', File.read, {'self': TObj('File')}, ret=StrT, trusted=True, requires=lambda e: [T.tester('StrV', T.aselect(e.fld('File', 'content'), e['self']))],
                ensures=lambda e: {'all': e.r == T.acc('s', T.aselect(e.fld('File', 'content'), e['self']))})
WRITE = Contract('file.write', File.write, {'self': TObj('File'), 'data': StrT}, ret=Any, trusted=True, fields=[('File', 'content')],
                 requires=lambda e: [T.tester('StrV', T.aselect(e.fld('File', 'content'), e['self']))],
                 ensures=lambda e: {'appended': e.fld('File', 'content', True) == z3.Store(e.fld('File', 'content'), e['self'],
                                                                                          V.StrV(z3.Concat(T.acc('s', T.aselect(e.fld('File', 'content'), e['self'])), e['data'])))})
MODELS = {builtins.open: open_}
CONTRACTS = {File.read: READ, File.write: WRITE}
