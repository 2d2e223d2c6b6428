"""Contracts on JavaScript: the modules as extracted text, the stubs of what they import, and the meaning of the helpers of pyvc/jsrt.py for the verifier."""
import os, random, time
import z3
from pyvc import terms as T
from pyvc import js, jsrt
from pyvc.types import *
from pyvc.core import *
from pyvc.contract import *
from pyvc.expr import is_str, is_int, st_term, mk_bool, mk_str
from pyvc.call import uf
from vlib import models as M

V = T.V
REPO = os.environ.get('VERIF_REPO', '/repo')
FIRST = uf('first_index', T.SeqV, V, z3.IntSort())
STRINGOF = uf('string_of', V, T.String)
_mods = {}


class Stub:
    """stands for an imported module; its functions are Python functions with a model or a contract"""

    js_module = True

    def __init__(self, **k): self.__dict__.update(k)


def module(path, **k):
    if path not in _mods: _mods[path] = js.Module(REPO, path, k.pop('stubs', {}), **k)
    return _mods[path]


def first_def(l, x):
    """what FIRST is"""
    i = FIRST(l, x)
    return z3.Or(z3.And(i == -1, z3.Not(T.member(l, x))), z3.And(i >= 0, i < T.length(l), l[i] == x, z3.Not(T.member(T.take(l, i), x))))


def first_is(l, a, x):
    """l is a, then x, then something, and x is not in a: the first x is behind a"""
    n = T.length(a)
    return z3.Implies(z3.And(n < T.length(l), l[n] == x, z3.Not(T.member(a, x)), T.take(l, n) == a), FIRST(l, x) == n)


def forced(eng, st, args):
    outs = [(st, [])]
    for a in args: outs = [(s2, vs + [v]) for s, vs in outs for s2, v in eng.force(s, a)]
    return outs


def at_model(eng, st, args, kw, node):
    if len(args) == 2 and isinstance(args[0], Tup) and isinstance(args[1], Py) and isinstance(args[1].o, int): return [(st, args[0].xs[args[1].o] if 0 <= args[1].o < len(args[0].xs) else Py(None))]
    out = []
    for s, (l, i) in forced(eng, st, args):
        if not (isinstance(l, Loc) and eng.kindof(s, l) == 'list') or not is_int(i): raise Unsupported("element of %r" % (l,))
        n = T.length(eng.items(s, l))
        for s2, there in eng.branch(s, mk_bool(z3.And(st_term(i) >= 0, st_term(i) < n))):
            out += eng.getitem(s2, l, i) if there else [(s2, Py(None))]
    return out


def text_model(eng, st, args, kw, node):
    out = []
    for s, [v] in forced(eng, st, args):
        if is_str(v): out.append((s, v))
        elif isinstance(v, Py): out.append((s, Py(jsrt.text(v.o))))
        elif isinstance(v, Loc): out.append((s, mk_str(STRINGOF(eng.box(s, v)))))
        elif isinstance(v, Sc) and sort_of(v.ty) is V: out.append((s, mk_str(T.ite(T.tester('StrV', v.t), T.acc('s', v.t), STRINGOF(v.t)))))
        elif isinstance(v, Sc) and isinstance(v.ty, TObj): out.append((s, mk_str(STRINGOF(eng.box(s, v)))))
        elif is_int(v): out.append((s, mk_str(STRINGOF(V.IntV(st_term(v))))))
        else: out.append((s, mk_str(T.fresh('text', T.String))))
    return out


def index_model(eng, st, args, kw, node):
    out = []
    for s, (l, x) in forced(eng, st, args):
        if is_str(l) and is_str(x): out.append((s, Sc(z3.IndexOf(st_term(l), st_term(x), 0), IntT)))
        elif isinstance(l, Loc) and eng.kindof(s, l) == 'list':
            q, b = eng.items(s, l), eng.box(s, x)
            i = FIRST(q, b)
            n = T.length(q)
            cut, cur = None, z3.IntVal(0)
            for p in T.parts(q):              # where the first one is, if that is known
                if not T.int_eq(cur, z3.IntVal(0)) and not eng.feasible(s, i != cur): cut = cur
                cur = cur + T.length(p)
            if cut is not None:
                out.append((s, Sc(cut, IntT)))
                continue
            s = s.assume(z3.Or(z3.And(i == -1, z3.Not(T.member(q, b))), z3.And(i >= 0, i < n, q[i] == b, z3.Not(T.member(T.take(q, i), b)))))
            out.append((s, Sc(i, IntT)))
        else: raise Unsupported("indexOf of %r" % (l,))
    return out


SUB = M.pure('substring', 2)


def substring_model(eng, st, args, kw, node):
    out = []
    for s, (l, x) in forced(eng, st, args):
        if not (is_str(l) and is_int(x)): raise Unsupported("substring")
        t, i = st_term(l), st_term(x)
        out.append((s, mk_str(z3.SubString(t, i, z3.Length(t) - i))))
    return out


def any_str(name, n):
    """a function of its arguments; only text is known about the result"""
    f = uf('js.' + name, *([V] * n + [T.String]))

    def model(eng, st, args, kw, node):
        eng.assumed.add("%s is a function of its arguments" % name)
        return [(st, mk_str(f(*[eng.box(st, a) for a in args])))]
    model.f = f
    return model


def any_bool(name, n):
    f = uf('js.' + name, *([V] * n + [z3.BoolSort()]))

    def model(eng, st, args, kw, node):
        eng.assumed.add("%s is a function of its arguments" % name)
        return [(st, mk_bool(f(*[eng.box(st, a) for a in args])))]
    model.f = f
    return model


def any_value(name, n, ty=Any, fact=None):
    f = uf('js.' + name, *([V] * n + [V]))

    def model(eng, st, args, kw, node):
        eng.assumed.add("%s is a function of its arguments" % name)
        t = f(*[eng.box(st, a) for a in args])
        if fact is not None: st = st.assume(*fact(t))
        st, loc = eng.new_root(st, 'v', t, ty)
        return [eng.wrap(st, t, ty, loc)]
    model.f = f
    return model


NUM = any_value('parseInt', 1, TUnion(IntT, NoneT))


def is_nan_model(eng, st, args, kw, node):
    return [(s, mk_bool(z3.BoolVal(v.o is None)) if isinstance(v, Py) else mk_bool(T.tester('NoneV', eng.box(s, v)))) for s, [v] in forced(eng, st, args)]


def is_array_model(eng, st, args, kw, node):
    return [(s, mk_bool(T.tester('ListV', eng.box(s, v)))) for s, [v] in forced(eng, st, args)]


SPLITON = uf('split_on', T.String, T.String, T.SeqV)
_ps = {}


def pure_str(name):
    """a function of its arguments, however many"""
    def f(n):
        if (name, n) not in _ps: _ps[name, n] = uf('js.%s%d' % (name, n), *([V] * n + [T.String]))
        return _ps[name, n]

    def model(eng, st, args, kw, node):
        eng.assumed.add("%s is a function of its arguments" % name)
        return [(s, mk_str(f(len(vs))(*[eng.box(s, v) for v in vs]))) for s, vs in forced(eng, st, args)]
    model.f = f
    return model


EXEC = any_value('RegExp.exec', 2, TUnion(NoneT, TList(Any)))
REPLACE = any_str('String.replace', 4)
MODELS = {jsrt.at: at_model, jsrt.text: text_model, jsrt.index_of: index_model, jsrt.substring: substring_model, jsrt.parse_int: NUM,
          jsrt.is_nan: is_nan_model, jsrt.is_array: is_array_model, jsrt.re_exec: EXEC, jsrt.re_test: any_bool('RegExp.test', 2), jsrt.re_replace: REPLACE,
          jsrt.str_replace: any_str('String.replace of a string', 3), jsrt.trim: any_str('String.trim', 1), jsrt.re_split: any_value('String.split', 2, TList(StrT))}


def engine(contracts=(), classes=None, models=None, class_objs=None, merge=False):
    def mk():
        e = Verifier({c.fn: c for c in contracts}, classes=classes or {}, models=dict(MODELS, **{}) | (models or {}), class_objs=class_objs or {})
        e.js, e.merge = True, merge
        return e
    return mk


class Faithful:
    """The text extracted from JavaScript, run by Python, against node, on inputs of a bounded check.  It decides nothing about the property: where
    the two differ, the contracts on the text say nothing about the program, and are not discharged."""
    no_obligations = True

    def __init__(self, name, cases, run, secs=6):
        self.name, self.cases, self.run, self.secs = name, cases, run, secs

    def verify(self, eng):
        t0, n = time.time(), 0
        for x in self.cases('quick', random.Random('faithful')):
            try: msg = self.run(x)
            except Exception as ex: msg = '%s: %s' % (type(ex).__name__, ex)
            if msg: raise Unsupported('the extracted text differs from node on %.200r: %.500s' % (x, msg))
            n += 1
            if time.time() - t0 > self.secs: break
        eng.assumed.add('%s: the text extracted from JavaScript means what node does (bounded: compared on %d inputs)' % (self.name, n // 100 * 100 or n))
