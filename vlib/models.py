"""Assumed contracts on library functions (recorded as assumptions in the evidence)."""
import os
import posixpath
import z3
from pyvc import terms as T
from pyvc.types import *
from pyvc.core import *
from pyvc.expr import is_str, st_term, mk_str, mk_bool

_fns = {}


def fun(name, *sorts):
    k = (name,) + tuple(s.sexpr() for s in sorts)
    if k not in _fns: _fns[k] = z3.Function(name, *sorts)
    return _fns[k]


def pure(name, nargs, ret=StrT, fact=None, note=None):
    """an uninterpreted pure function on strings"""
    rs = {StrT: T.String, BoolT: T.Bool, IntT: T.Int}[ret]
    f = fun(name, *([T.String] * nargs + [rs]))

    def model(eng, st, args, kw, node):
        outs = [(st, [])]
        for a in args:
            nxt = []
            for s, vs in outs:
                for s2, v in eng.force(s, a): nxt.append((s2, vs + [v]))
            outs = nxt
        res = []
        for s, vs in outs:
            if kw or len(vs) != nargs: raise Unsupported("%s with %d arguments" % (name, len(vs)))
            if not all(is_str(v) for v in vs):
                res.append((s, Exc(TypeError)))
                continue
            eng.assumed.add(note or "%s is a pure function of its arguments" % name)
            t = f(*[st_term(v) for v in vs])
            if fact: s = s.assume(*fact(*([st_term(v) for v in vs] + [t])))
            res.append((s, Sc(t, ret)))
        return res
    model.f = f
    return model


def join_model():
    j = fun('os.path.join', T.String, T.String, T.String)

    def model(eng, st, args, kw, node):
        outs = [(st, [])]
        if any(isinstance(a, Star) for a in args):
            if len(args) != 1: raise Unsupported("os.path.join of a list and more")
            q = eng.items(st, args[0].loc)
            eng.assumed.add("os.path.join of a list is a pure function of its items")
            return [(s, Sc(JOINED(q), StrT) if some else Exc(TypeError)) for s, some in eng.branch(st, mk_bool(z3.Length(q) > 0))]
        for a in args:
            outs = [(s2, vs + [v]) for s, vs in outs for s2, v in eng.force(s, a)]
        res = []
        for s, vs in outs:
            if not all(is_str(v) for v in vs):
                res.append((s, Exc(TypeError)))
                continue
            eng.assumed.add("os.path.join is a pure function, associative over its arguments as nested joins")
            t = st_term(vs[0])
            for v in vs[1:]: t = j(t, st_term(v))
            res.append((s, Sc(t, StrT)))
        return res
    model.f = j
    model.takes_star = True
    return model


JOINED = fun('join_all', T.SeqV, T.String)


def splitext(eng, st, args, kw, node):
    out = []
    for s, v in eng.force(st, args[0]):
        if not is_str(v):
            out.append((s, Exc(TypeError)))
            continue
        eng.assumed.add("os.path.splitext is a pure function that cuts its argument in two, the second part empty or starting with a dot")
        t = st_term(v)
        a, b = SPLITEXT[0](t), SPLITEXT[1](t)
        out.append((s.assume(z3.Concat(a, b) == t, z3.Or(b == T.sv(''), z3.PrefixOf(T.sv('.'), b))), Tup([Sc(a, StrT), Sc(b, StrT)])))
    return out


SPLITEXT = fun('splitext_root', T.String, T.String), fun('splitext_ext', T.String, T.String)
normpath = pure('os.path.normpath', 1)
dirname = pure('os.path.dirname', 1)
basename = pure('os.path.basename', 1)
isabs = pure('os.path.isabs', 1, BoolT)
realpath = pure('os.path.realpath', 1, note='os.path.realpath is a pure function (the file system does not change during the call)')
abspath = pure('os.path.abspath', 1, note='os.path.abspath is a pure function (the working directory does not change during the call)')
join = join_model()
def split(eng, st, args, kw, node):
    return [(s2, d if isinstance(d, Exc) else b if isinstance(b, Exc) else Tup([d, b])) for s, d in dirname(eng, st, args, kw, node) for s2, b in basename(eng, s, args, kw, node)]


PATHS = {os.path.split: split, os.path.normpath: normpath, os.path.dirname: dirname, os.path.basename: basename, os.path.isabs: isabs, os.path.realpath: realpath,
         os.path.abspath: abspath, os.path.join: join, os.path.splitext: splitext}
