"""Symbolic executor / VC generator for a subset of Python.

Input: the abstract syntax of the functions that are in /repo right now (parsed
from the file the imported module came from).  Containers are *owned values*
(a tree has one owner, see DESIGN.md); objects of repository classes have
identity and fields.  Loops are cut by inferred invariants (Houdini over the
templates a contract offers); calls go to the callee's contract when it has
one and are inlined otherwise.
"""
import ast
import inspect
import sys
import time
import types as pytypes
import z3
from . import terms as T
from .types import *

V = T.V


import os
LOGQ = os.environ.get('PYVC_LOGQ')


def z3_hard(s):
    return 'str.' in s.sexpr()


class Unsupported(Exception):
    """The code left the subset; reported, never taken as a proof."""


# ------------------------------------------------------------------ values
class Py:
    """A concrete Python object (module, function, class, constant container...)."""
    __slots__ = ('o',)

    def __init__(self, o): self.o = o
    def __repr__(self): return "Py(%.60s)" % repr(self.o)


class Sc:
    """Scalar or yet undetermined value."""
    __slots__ = ('t', 'ty', 'loc')

    def __init__(self, t, ty, loc=None): self.t, self.ty, self.loc = t, ty, loc
    def __repr__(self): return "Sc(%s:%r)" % (self.t, self.ty)


class Loc:
    """Handle of a container: a root and a path into it."""
    __slots__ = ('rid', 'path', 'ty')

    def __init__(self, rid, path, ty): self.rid, self.path, self.ty = rid, path, ty
    def __repr__(self): return "Loc(%s%s)" % (self.rid, ''.join('[%s]' % p[1] for p in self.path))


class Tup:
    __slots__ = ('xs',)

    def __init__(self, xs): self.xs = list(xs)
    def __repr__(self): return "Tup%r" % (self.xs,)


class Clo:
    def __init__(self, node, fid, glob, name, defaults=None):
        self.node, self.fid, self.glob, self.name, self.defaults = node, fid, glob, name, defaults or {}


class Bound:
    def __init__(self, obj, name): self.obj, self.name = obj, name
    def __repr__(self): return "Bound(%r.%s)" % (self.obj, self.name)


class View:
    """Lazy iterable: kind in items/keys/values/enumerate/range/reversed/seq/zip"""
    def __init__(self, kind, base, extra=None): self.kind, self.base, self.extra = kind, base, extra


class Exc:
    def __init__(self, cls, msg=None, args=None): self.cls, self.msg, self.args = cls, msg, args
    def __repr__(self): return "Exc(%s)" % self.cls.__name__


class Star:
    """All the items of a list of unknown length, as arguments (only library models take them)."""

    def __init__(self, loc): self.loc = loc


class Undef:
    """Variable without a usable value at this point."""


class Root:
    __slots__ = ('kind', 't', 'ty')

    def __init__(self, kind, t, ty): self.kind, self.t, self.ty = kind, t, ty


class State:
    def __init__(self):
        self.pc = []
        self.frames = {}
        self.fmeta = {}
        self.roots = {}
        self.fields = {}
        self.moved = {}
        self.shared = []
        self.ghost = {}
        self.nobj = 0
        self.events = []
        self.frozen = {}

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.fmeta = self.fmeta
        s.roots = dict(self.roots)
        s.fields = dict(self.fields)
        s.moved = dict(self.moved)
        s.shared = list(self.shared)
        s.ghost = dict(self.ghost)
        s.nobj = self.nobj
        s.events = list(self.events)
        s.frozen = dict(self.frozen)
        return s

    def assume(self, *fs):
        s = self.copy()
        for f in fs:
            if not z3.is_true(f):
                s.pc.append(f)
        return s


class Obligation:
    def __init__(self, name, pc, goal, where):
        self.name, self.pc, self.goal, self.where = name, pc, goal, where
        self.status = None
        self.model = None
        self.backend = None
        self.secs = 0.0
        self.detail = ''


class Stats:
    def __init__(self):
        self.queries = 0
        self.secs = 0.0
        self.feas = 0


def sort_of(ty):
    if isinstance(ty, TInt): return T.Int
    if isinstance(ty, TStr): return T.String
    if isinstance(ty, TBool): return T.Bool
    if isinstance(ty, TObj): return T.Int
    return V


def type_pred(ty, t, depth=2):
    """Formula: the boxed value t has type ty (top level and, for containers, the known keys)."""
    if isinstance(ty, TInt): return T.tester('IntV', t)
    if isinstance(ty, TStr): return T.tester('StrV', t)
    if isinstance(ty, TBool): return T.tester('BoolV', t)
    if isinstance(ty, TNone): return T.tester('NoneV', t)
    if isinstance(ty, (TList, TOSet)): return T.tester('ListV', t)
    if isinstance(ty, TTup): return z3.And(T.tester('TupV', t), z3.Length(T.acc('titems', t)) == len(ty.es))
    if isinstance(ty, TObj): return T.tester('ObjV', t)
    if isinstance(ty, TDict):
        fs = [T.tester('DictV', t)]
        for k, (kt, req) in ty.rec.items():
            if req:
                fs.append(T.dhas(t, T.sv(k)))
        return z3.And(*fs) if len(fs) > 1 else fs[0]
    if isinstance(ty, TUnion):
        return z3.Or(*[type_pred(x, t, depth) for x in ty.ts])
    return z3.BoolVal(True)


def deep_pred(ty, t):
    """Formula: the boxed value t has type ty, at every depth; None where t is not known far enough"""
    t = z3.simplify(t)
    if ty is None or isinstance(ty, TAny): return z3.BoolVal(True)
    if isinstance(ty, (TInt, TStr, TBool, TNone)): return type_pred(ty, t)
    if isinstance(ty, TUnion):
        fs = [type_pred(x, t) if isinstance(x, (TInt, TStr, TBool, TNone)) else deep_pred(x, t) for x in ty.ts]
        fs = [f for f in fs if f is not None]
        return z3.Or(*fs) if fs else None
    if isinstance(ty, TList) and T.is_app(t, 'ListV'):
        sp = T.spine(t.arg(0))
        fs = None if sp is None else [deep_pred(ty.e, x) for x in sp]
    elif isinstance(ty, TDict) and not isinstance(ty.v, TAny): return None
    elif isinstance(ty, TDict) and T.is_app(t, 'DictV') and T.spine(t.arg(0)) is not None:
        fs = []
        for k, (kt, req) in ty.rec.items():
            has = z3.simplify(T.dhas(t, T.sv(k)))
            if z3.is_false(has) and not req: continue
            if not z3.is_true(has): return None
            fs.append(deep_pred(kt, T.dget(t, T.sv(k))))
    else: return None
    if fs is None or any(f is None for f in fs): return None
    return z3.And(*fs) if fs else z3.BoolVal(True)


def same_ty(a, b):
    return repr_ty(a) == repr_ty(b)


def repr_ty(t):
    if t is None: return '?'
    if isinstance(t, (TList, TOSet, TSet, TSeq)): return '%s(%s)' % (type(t).__name__, repr_ty(t.e))
    if isinstance(t, TDict): return 'TDict(%s,%s)' % (repr_ty(t.v), {k: repr_ty(v[0]) for k, v in t.rec.items()})
    if isinstance(t, TTup): return 'TTup(%s)' % ','.join(map(repr_ty, t.es))
    if isinstance(t, TUnion): return 'TUnion(%s)' % ','.join(map(repr_ty, t.ts))
    if isinstance(t, TObj): return 'TObj(%s)' % t.cls
    if isinstance(t, TXDict): return 'TXDict(%s,%s)' % (repr_ty(t.k), repr_ty(t.v))
    return type(t).__name__


def join_ty(a, b):
    if a is None: return b
    if b is None: return a
    if same_ty(a, b): return a
    if isinstance(a, TList) and isinstance(b, TList):
        return TList(join_ty(a.e, b.e))
    if isinstance(a, TDict) and isinstance(b, TDict) and not a.rec and not b.rec:
        return TDict(join_ty(a.v, b.v))
    sc = (TInt, TStr, TBool, TNone)
    la = a.ts if isinstance(a, TUnion) else (a,)
    lb = b.ts if isinstance(b, TUnion) else (b,)
    out = list(la)
    for x in lb:
        if not any(same_ty(x, y) for y in out):
            out.append(x)
    if any(isinstance(x, TAny) for x in out):
        return Any
    return TUnion(*out)


class Engine:
    def __init__(self, contracts=None, classes=None, feas_ms=250, models=None, repo='/repo'):
        self.contracts = contracts or {}
        self.classes = classes or {}      # class name -> {field: Ty}
        self.feas_ms = feas_ms
        self.obls = []
        self.dry = 0
        self.stats = Stats()
        self.models = models or {}
        self.repo = repo
        self.rid = 0
        self.fid = 0
        self.cur = None                  # contract under verification
        self.inlined = set()
        self.called = set()
        self.assumed = set()
        self.loopstack = []
        self.depth = 0
        self.srccache = {}
        self.facts = T.elems_axioms()
        self.globs = {}
        self.sorts = []
        self.trace = []
        self.max_paths = 4000
        self.detached = set()

    # -------------------------------------------------------------- solver
    def solver(self, ms):
        s = z3.Solver()
        s.set('timeout', int(ms))
        return s

    def feasible(self, st, *extra):
        fs = [f for f in extra]
        for f in fs:
            if z3.is_false(f):
                return False
        s = self.solver(self.feas_ms)
        self.stats.feas += 1
        t0 = time.time()
        s.add(*self.facts)
        s.add(*st.pc)
        s.add(*fs)
        r = s.check()
        self.stats.secs += time.time() - t0
        return r != z3.unsat

    def decide(self, st, c):
        """True / False when the path condition settles c (quick check), else None"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if not self.feasible(st, z3.Not(c)): return True
        if not self.feasible(st, c): return False
        return None

    def valid(self, st, goal, ms=3000):
        """True / False(refuted or unknown)."""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        s = self.solver(ms)
        s.add(*self.facts)
        s.add(*st.pc)
        s.add(z3.Not(goal))
        t0 = time.time()
        r = s.check()
        how = 'z3'
        if r == z3.unknown and z3_hard(s):
            # a query on strings that one run of z3 does not settle is often settled by another solver or another seed
            from .contract import cvc5_unsat
            if cvc5_unsat(s, 2 * ms): r, how = z3.unsat, 'cvc5'
            else:
                for seed in (7, 23):
                    s2 = self.solver(ms)
                    s2.set('random_seed', seed)
                    s2.add(*s.assertions())
                    r = s2.check()
                    how = 'seed %d' % seed
                    if r != z3.unknown: break
        self.stats.queries += 1
        self.stats.secs += time.time() - t0
        if LOGQ and time.time() - t0 > .3: print('Q', ms, r, how, round(time.time() - t0, 2), str(goal)[:150].replace(chr(10), ' '), flush=True)
        return r == z3.unsat

    def oblige(self, name, st, goal, where=''):
        if self.dry:
            return
        self.obls.append(Obligation(name, list(self.facts) + list(st.pc), goal, where))

    # -------------------------------------------------------------- boxing
    def box(self, st, v):
        """Engine value -> V term (containers: their current value)."""
        if isinstance(v, Sc):
            if isinstance(v.ty, TInt): return v.t.arg(0) if T.is_app(v.t, 'i') else V.IntV(v.t)
            if isinstance(v.ty, TStr): return T.mkstr(v.t)
            if isinstance(v.ty, TBool): return V.BoolV(v.t)
            if isinstance(v.ty, TObj): return v.t.arg(0) if T.is_app(v.t, 'oid') else V.ObjV(v.t)
            return v.t
        if isinstance(v, Py):
            o = v.o
            if o is None: return V.NoneV
            if isinstance(o, bool): return V.BoolV(z3.BoolVal(o))
            if isinstance(o, int): return V.IntV(z3.IntVal(o))
            if isinstance(o, str): return V.StrV(T.sv(o))
            if isinstance(o, tuple):
                return V.TupV(T.seq_of([self.box(st, Py(x)) for x in o]))
            if isinstance(o, list):
                return V.ListV(T.seq_of([self.box(st, Py(x)) for x in o]))
            if isinstance(o, dict) and all(isinstance(k, str) for k in o):
                d = T.EMPTY_DICT
                for k, x in o.items():
                    d = T.dset(d, T.sv(k), self.box(st, Py(x)))
                return d
            return V.OtherV(z3.IntVal(self.tag(o)))
        if isinstance(v, Tup):
            return V.TupV(T.seq_of([self.box(st, x) for x in v.xs]))
        if isinstance(v, Loc):
            return self.read(st, v)
        if isinstance(v, Clo):
            return V.OtherV(z3.IntVal(self.tag(v)))
        raise Unsupported("boxing %r" % (v,))

    _tags = {}

    def tag(self, o):
        k = id(o)
        self._tags.setdefault(k, (len(self._tags) + 1, o))
        return self._tags[k][0]

    def wrap(self, st, t, ty, loc=None, assume=True):
        """V term of contract type ty -> (st, engine value)."""
        if isinstance(ty, TUnion) and len(ty.ts) == 1:
            ty = ty.ts[0]
        if isinstance(ty, TSet) and t.sort() == T.SetV:      # a set held in a field
            if loc is None: return self.new_root(st, 'set', t, ty)
            return st, Loc(loc.rid, loc.path, ty)
        if assume and not isinstance(ty, TAny) and ty is not None:
            p = z3.simplify(type_pred(ty, t))
            if not z3.is_true(p):
                st = st.assume(p)
        if isinstance(ty, TInt): return st, Sc(T.acc('i', t), IntT)
        if isinstance(ty, TStr):
            u = T.acc('s', t)
            return st, (Py(u.as_string()) if False else Sc(u, StrT))
        if isinstance(ty, TBool): return st, Sc(T.acc('b', t), BoolT)
        if isinstance(ty, TNone): return st, Py(None)
        if isinstance(ty, TObj): return st, Sc(T.acc('oid', t), ty)
        if isinstance(ty, TTup):
            items = T.acc('titems', t)
            xs = []
            for i, e in enumerate(ty.es):
                st, x = self.wrap(st, T.nth(items, z3.IntVal(i)), e, None)
                xs.append(x)
            return st, Tup(xs)
        if isinstance(ty, (TList, TDict)):
            if loc is not None:
                return st, Loc(loc.rid, loc.path, ty)
            return self.new_root(st, 'v', t, ty)
        return st, Sc(t, ty if ty is not None else Any, loc)

    def unsc(self, t, ty):
        """scalar term -> engine value, folding constants"""
        return Sc(t, ty)

    def new_root(self, st, kind, t, ty):
        st = st.copy()
        self.rid += 1
        st.roots[self.rid] = Root(kind, t, ty)
        return st, Loc(self.rid, (), ty)

    def resolve(self, st, loc):
        rid, path = loc.rid, loc.path
        while rid in st.moved:
            tgt = st.moved[rid]
            if tgt is None:
                raise Unsupported("use of a moved container")
            rid, path = tgt.rid, tgt.path + path
        return rid, path

    def read(self, st, loc):
        rid, path = self.resolve(st, loc)
        if isinstance(rid, tuple):               # field root
            arr = st.fields[rid]
            t = T.aselect(arr, path[0][1])
            path = path[1:]
        else:
            t = st.roots[rid].t
        for k, x in path:
            t = T.dget(t, x) if k == 'k' else T.nth(T.acc('items', t), x)
        return t

    def write(self, st, loc, nt, child=None, shift=False):
        """Replace the value of the container at loc.  child: the one key whose value is replaced;
        shift: positions of elements may change."""
        rid, path = self.resolve(st, loc)
        if rid in st.frozen:
            raise Unsupported("change through a stale handle")
        st = st.copy()
        self.note_write(st, rid, path, child, shift)
        if isinstance(rid, tuple):
            self.check_shared(st, rid, path)
            arr = st.fields[rid]
            o = path[0][1]
            st.fields[rid] = z3.Store(arr, o, self._upd(T.aselect(arr, o), path[1:], nt))
        else:
            r = st.roots[rid]
            self.check_shared(st, rid, path)
            st.roots[rid] = Root(r.kind, self._upd(r.t, path, nt), r.ty)
        return st

    def may_hold(self, ty):
        """a value of this type may be a container"""
        if isinstance(ty, TUnion): return any(self.may_hold(t) for t in ty.ts)
        return not isinstance(ty, (TStr, TInt, TBool, TObj, TNone))

    def share_elems(self, st, src, dst):
        """the elements of src are elements of dst as well from now on"""
        while hasattr(src, 'kind') and hasattr(src, 'base'): src = src.base
        if not isinstance(src, Loc): return st
        ty = self.cur_ty(st, src)
        e = getattr(ty, 'e', None) if isinstance(ty, TList) else ty.v if isinstance(ty, TDict) else None
        if e is None or not self.may_hold(e) and not (isinstance(ty, TDict) and any(self.may_hold(t) for t, _ in ty.rec.values())): return st
        st = st.copy()
        for l in (src, dst):
            rid, path = self.resolve(st, l)
            st.shared.append((rid, tuple(path), len(path) + 1))
        return st

    def check_shared(self, st, rid, path):
        """No container that is reachable in two places is changed.  st.shared: (root, path of it or None, depth at or below which containers are shared)"""
        for srid, spath, depth in st.shared:
            try: r2, pre = self.resolve(st, Loc(srid, (), None))
            except Unsupported: continue
            if r2 != rid or len(path) < len(pre) + depth: continue
            if spath is not None and self.cmp_path(st, (tuple(pre) + tuple(spath))[:len(path)], path[:len(pre) + len(spath)]) == 'diff': continue
            raise Unsupported("in-place change of a container that is shared")

    # -- handles that a write makes stale
    def cmp_path(self, st, p, q):
        """relation of two paths of one root: 'eq' 'ext' (p extends q) 'pre' (p is a proper prefix of q) 'diff' 'may'"""
        n = min(len(p), len(q))
        may = False
        for a, b in zip(p[:n], q[:n]):
            if a[0] != b[0]: return 'diff'
            if a[1].eq(b[1]): continue
            e = z3.simplify(a[1] == b[1])
            if z3.is_true(e): continue
            if z3.is_false(e): return 'diff'
            if not self.feasible(st, e): return 'diff'
            if self.valid(st, e, 300): continue
            may = True
        if may: return 'may'
        return 'eq' if len(p) == len(q) else 'ext' if len(p) > len(q) else 'pre'

    def note_write(self, st, rid, W, child, shift):
        snaps = {}
        for f, env in st.frames.items():
            for name, v in list(env.items()):
                h = v if isinstance(v, Loc) else v.loc if isinstance(v, Sc) else None
                if h is None: continue
                try: r2, P = self.resolve(st, h)
                except Unsupported: continue
                if r2 in st.frozen:
                    org = st.frozen[r2]
                    if org is None or org[0] != rid: continue
                    rel = 'any' if org[1] is None else self.cmp_path(st, W, org[1])
                    if rel in ('any', 'eq', 'ext', 'may'): env[name] = Undef
                    continue
                if r2 != rid or len(P) <= len(W): continue
                rel = self.cmp_path(st, P, W)
                if rel == 'diff': continue
                must = rel == 'ext'
                frozen = None
                if child is not None:
                    rel2 = self.cmp_path(st, P, W + (child,))
                    if rel2 == 'diff': continue
                    must = must and rel2 in ('eq', 'ext')
                    if not must: frozen = (rid, P)
                elif shift: frozen = (rid, None)
                else: continue
                key = tuple((k, x.get_id()) for k, x in P)
                if key not in snaps:
                    self.rid += 1
                    t = self.read(st, h)
                    st.roots[self.rid] = Root('v', t, getattr(v, 'ty', None))
                    if frozen is not None: st.frozen[self.rid] = frozen
                    else: self.detached.add(self.rid)
                    snaps[key] = self.rid
                l = Loc(snaps[key], (), h.ty)
                env[name] = l if isinstance(v, Loc) else Sc(v.t, v.ty, l)

    def _upd(self, t, path, nt):
        if not path:
            return nt
        k, x = path[0]
        if k == 'k':
            return T.dput(t, x, self._upd(T.dget(t, x), path[1:], nt))     # a path only goes through keys that are there
        items = T.acc('items', t)
        new = self._upd(T.nth(items, x), path[1:], nt)
        return V.ListV(T.concat(T.take(items, x), T.unit(new), T.drop(items, x + 1)))

    def kindof(self, st, loc):
        """'list' 'dict' 'set' 'oset' 'xdict'"""
        ty = loc.ty
        if isinstance(ty, TList): return 'list'
        if isinstance(ty, TDict): return 'dict'
        if isinstance(ty, TSet): return 'set'
        if isinstance(ty, TOSet): return 'oset'
        if isinstance(ty, TXDict): return 'xdict'
        raise Unsupported("kind of %r" % (ty,))

    def cur_ty(self, st, loc):
        """Element typing follows the root (local containers are typed by what is stored)."""
        rid, path = self.resolve(st, loc)
        if isinstance(rid, tuple) and len(path) == 1 and isinstance(loc.ty, TList) and isinstance(self.classes.get(rid[1], {}).get(rid[2]), TList): return self.classes[rid[1]][rid[2]]
        if isinstance(rid, tuple) or path:
            return loc.ty
        ty = st.roots[rid].ty
        if isinstance(ty, (TAny, TUnion)): return loc.ty if isinstance(loc.ty, (TList, TDict, TSet)) else {'list': TList(Any), 'dict': TDict(Any)}.get(self.kindof(st, loc), ty)
        return ty

    def items(self, st, loc):
        t = self.read(st, loc)
        k = self.kindof(st, loc)
        if k == 'list': return T.acc('items', t)
        if k == 'oset': return t
        raise Unsupported("items of %s" % k)

    def value_ty(self, st, v):
        if isinstance(v, Sc): return v.ty
        if isinstance(v, Py):
            o = v.o
            if o is None: return NoneT
            if isinstance(o, bool): return BoolT
            if isinstance(o, int): return IntT
            if isinstance(o, str): return StrT
            return Any
        if isinstance(v, Loc): return self.cur_ty(st, v)
        if isinstance(v, Tup): return TTup(*[self.value_ty(st, x) for x in v.xs])
        return Any

    def note_store(self, st, dst, ty):
        """Record the element type of a value stored into the container dst."""
        rid, path = self.resolve(st, dst)
        if isinstance(rid, tuple) or path:
            want = dst.ty
        else:
            want = st.roots[rid].ty
        if isinstance(want, (TAny, TUnion)): return st
        if isinstance(want, (TDict, TXDict)):
            cur = want.v
        else:
            cur = want.e
        if isinstance(rid, tuple) or path:
            return st
        j = join_ty(cur, ty) if not isinstance(cur, TAny) else cur
        if j is cur or (cur is not None and same_ty(j, cur)):
            return st
        if isinstance(want, TDict) and want.rec:
            return st
        st = st.copy()
        r = st.roots[rid]
        nt = type(want)(j) if not isinstance(want, TXDict) else TXDict(want.k, j)
        st.roots[rid] = Root(r.kind, r.t, nt)
        return st

    def take_value(self, st, v, dst):
        """Value about to be stored in a container: (st, V term).  Containers move or are recorded as shared."""
        if isinstance(v, Sc) and v.loc is not None and not isinstance(v.ty, (TInt, TStr, TBool)):
            st = st.copy()
            st.events.append(('maybe_share', v.loc.rid, dst.rid, v.t))
            for l, more in ((v.loc, 0), (dst, 0 if isinstance(dst.rid, tuple) and len(dst.path) == 1 else 1)):
                try: rid, path = self.resolve(st, l)
                except Unsupported: continue
                st.shared.append((rid, tuple(path), len(path) + more))
            return st, v.t
        if isinstance(v, Loc):
            t = self.read(st, v)
            if not v.path and v.rid not in st.moved and not isinstance(v.rid, tuple) and v.rid not in self.param_roots(st) and v.rid != dst.rid:
                st = st.copy()
                st.ghost['pending_move'] = v.rid
                return st, t
            st = st.copy()
            rid, path = self.resolve(st, v)
            drid, dpath = self.resolve(st, dst)
            st.events.append(('share', rid, dst.rid, t))
            st.shared.append((rid, tuple(path), len(path)))
            st.shared.append((drid, tuple(dpath), len(dpath) + (0 if isinstance(drid, tuple) and len(dpath) == 1 else 1)))
            return st, t
        if isinstance(v, Tup):
            ts = []
            for x in v.xs:
                st, t = self.take_value(st, x, dst)
                ts.append(t)
            return st, V.TupV(T.seq_of(ts))
        return st, self.box(st, v)

    def param_roots(self, st):
        return st.ghost.get('param_roots', ())

    def finish_move(self, st, where):
        rid = st.ghost.pop('pending_move', None)
        if rid is not None:
            st.moved[rid] = where
        return st

    # -------------------------------------------------------------- truth, equality
    js = False        # JavaScript extracted by js.py: every array and object is true

    def truth(self, st, v):
        if self.js and (isinstance(v, (Loc, Tup)) or isinstance(v, Py) and isinstance(v.o, (list, dict, tuple))): return z3.BoolVal(True)
        if isinstance(v, Py):
            return z3.BoolVal(bool(v.o))
        if isinstance(v, Sc):
            if isinstance(v.ty, TBool): return v.t
            if isinstance(v.ty, TInt): return z3.simplify(v.t != 0)
            if isinstance(v.ty, TStr): return z3.simplify(v.t != T.sv(''))
            if isinstance(v.ty, TObj): return z3.BoolVal(True)
            t = v.t
            if self.js:
                return z3.simplify(z3.And(z3.Not(T.tester('NoneV', t)), z3.Implies(T.tester('BoolV', t), T.acc('b', t)), z3.Implies(T.tester('IntV', t), T.acc('i', t) != 0),
                                          z3.Implies(T.tester('StrV', t), T.acc('s', t) != T.sv(''))))
            return z3.simplify(z3.And(z3.Not(T.tester('NoneV', t)),
                          z3.Implies(T.tester('BoolV', t), T.acc('b', t)),
                          z3.Implies(T.tester('IntV', t), T.acc('i', t) != 0),
                          z3.Implies(T.tester('StrV', t), T.acc('s', t) != T.sv('')),
                          z3.Implies(T.tester('ListV', t), z3.Length(T.acc('items', t)) != 0),
                          z3.Implies(T.tester('TupV', t), z3.Length(T.acc('titems', t)) != 0),
                          z3.Implies(T.tester('DictV', t), z3.Length(T.acc('keys', t)) != 0)))
        if isinstance(v, Loc):
            k = self.kindof(st, v)
            if k in ('list', 'oset'):
                return self.nonempty(self.items(st, v))
            if k == 'dict':
                return self.nonempty(T.acc('keys', self.read(st, v)))
            if k == 'set':
                t = self.read(st, v)
                return z3.simplify(t != z3.K(t.sort().domain(), z3.BoolVal(False)))
            if k == 'xdict':
                raise Unsupported("truth of xdict")
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.xs))
        if isinstance(v, (Clo, Bound, View)):
            if isinstance(v, View):
                raise Unsupported("truth of view")
            return z3.BoolVal(True)
        raise Unsupported("truth of %r" % (v,))

    def nonempty(self, seq):
        ps = T.parts(seq)
        if not ps: return z3.BoolVal(False)
        if any(T.is_unit(p) for p in ps): return z3.BoolVal(True)
        return z3.simplify(T.length(seq) != 0) if not z3.is_string(seq) else seq != T.sv('')

    def eq(self, st, a, b):
        if isinstance(a, Py) and isinstance(b, Py):
            try:
                return z3.BoolVal(bool(a.o == b.o))
            except Exception:
                raise Unsupported("comparison")
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.xs) != len(b.xs): return z3.BoolVal(False)
            return z3.And(*[self.eq(st, x, y) for x, y in zip(a.xs, b.xs)]) if a.xs else z3.BoolVal(True)
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Loc) and self.kindof(st, p) in ('set', 'oset', 'xdict'):
                if isinstance(q, Loc) and self.kindof(st, q) == self.kindof(st, p) == 'set':
                    return self.read(st, p) == self.read(st, q)
                raise Unsupported("equality of sets")
        ta, tb = self.box(st, a), self.box(st, b)
        return z3.simplify(ta == tb) if True else ta == tb

    def identical(self, st, a, b):
        if isinstance(b, Py) and (b.o is None or isinstance(b.o, bool)):
            if isinstance(a, (Loc, Tup, Clo, Bound, View)): return z3.BoolVal(False)
            return self.eq(st, a, b)
        if isinstance(a, Py) and isinstance(b, Py):
            return z3.BoolVal(a.o is b.o)
        if isinstance(a, Sc) and isinstance(b, Sc) and isinstance(a.ty, TObj) and isinstance(b.ty, TObj):
            return a.t == b.t
        raise Unsupported("identity test")

    # -------------------------------------------------------------- forcing unknown types
    TAGS = [(TNone, 'NoneV'), (TBool, 'BoolV'), (TInt, 'IntV'), (TStr, 'StrV'), (TList, 'ListV'), (TDict, 'DictV'), (TTup, 'TupV'), (TObj, 'ObjV')]

    def force(self, st, v):
        """Split a value of union / unknown type into its possible concrete kinds."""
        if not isinstance(v, Sc) or sort_of(v.ty) is not V:
            return [(st, v)]
        t = v.t
        d = t.decl().name() if z3.is_app(t) else None
        if isinstance(v.ty, TUnion):
            opts = list(v.ty.ts)
        else:
            opts = [NoneT, BoolT, IntT, StrT, TList(Any), TDict(Any)]
            if d == 'OtherV' and z3.is_int_value(t.arg(0)):
                tg = t.arg(0).as_long()
                for k, (n, o) in self._tags.items():
                    if n == tg:
                        return [(st, o if isinstance(o, Clo) else Py(o))]
        out = []
        left = []
        for ty in opts:
            if isinstance(ty, TUnion):
                raise Unsupported("nested union")
            p = z3.simplify(type_pred(ty, t))
            if z3.is_false(p):
                continue
            if not z3.is_true(p) and not self.feasible(st, p):
                continue
            s2 = st if z3.is_true(p) else st.assume(p)
            out.append(self.wrap(s2, t, ty, v.loc, assume=False))
            if z3.is_true(p):
                return out
        if isinstance(v.ty, TAny):
            # any other type of object: only allowed where the tag does not matter
            p = z3.Not(z3.Or(*[type_pred(ty, t) for ty in opts]))
            if self.feasible(st, p):
                out.append((st.assume(p), Sc(t, TOther(), v.loc)))
        return out

    # -------------------------------------------------------------- names and source
    def source(self, fn):
        fn = inspect.unwrap(fn)
        code = fn.__code__
        path = code.co_filename
        if path.startswith('js:'):
            from . import js
            self.srccache[path] = js.TEXTS[path]
        if path not in self.srccache:
            with open(path, encoding='utf-8') as f:
                self.srccache[path] = ast.parse(f.read())
        cand = [n for n in ast.walk(self.srccache[path])
                if isinstance(n, (ast.FunctionDef, ast.Lambda))
                and (min([n.lineno] + [d.lineno for d in getattr(n, 'decorator_list', ())]) <= code.co_firstlineno <= getattr(n, 'body')[0].lineno if isinstance(n, ast.FunctionDef) else n.lineno == code.co_firstlineno)
                and (isinstance(n, ast.Lambda) or n.name == code.co_name)]
        if isinstance(cand and cand[0], ast.Lambda) and len(cand) != 1:
            raise Unsupported("several lambdas on one line")
        if code.co_name != '<lambda>':
            cand = [n for n in cand if isinstance(n, ast.FunctionDef)]
        if not cand:
            raise Unsupported("no source for %s" % fn)
        return cand[0]

    def lookup(self, st, fid, name):
        f = fid
        while f is not None:
            if name in st.frames[f]:
                v = st.frames[f][name]
                if v is Undef:
                    raise Unsupported("variable %s has no known value here" % name)
                return v
            meta = st.fmeta[f]
            if name in meta['locals']:
                return Exc(UnboundLocalError)
            f = meta['parent']
        g = st.fmeta[fid]['globals']
        if (id(g), name) in self.globs: return self.globs[id(g), name]
        if name in g:
            return self.pyval(g[name])
        import builtins
        if hasattr(builtins, name):
            return Py(getattr(builtins, name))
        return Exc(NameError)

    def pyval(self, o):
        return Py(o)

    def new_frame(self, st, parent, glob, locs):
        self.fid += 1
        st.frames[self.fid] = {}
        st.fmeta = dict(st.fmeta)
        st.fmeta[self.fid] = {'parent': parent, 'globals': glob, 'locals': locs}
        return self.fid

    def setvar(self, st, fid, name, v):
        f = fid
        meta = st.fmeta[f]
        if name in meta.get('nonlocal', ()):
            f = meta['parent']
            while f is not None and name not in st.frames[f]:
                f = st.fmeta[f]['parent']
        if name in meta.get('globaldecl', ()):
            raise Unsupported("assignment to a global")
        st = st.copy()
        st.frames[f][name] = v
        return st
