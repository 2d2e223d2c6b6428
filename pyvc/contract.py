"""Contracts, lemmas, and the driver that generates and discharges the obligations."""
import hashlib
import inspect
import os
import subprocess
import tempfile
import time
import traceback
import z3
from . import terms as T
from .types import *
from .core import *
from .core import deep_pred
from .expr import ExprMixin, is_str, is_int, is_bool, st_term, mk_bool
from .stmt import StmtMixin
from .call import CallMixin, uf

V = T.V


class Verifier(Engine, ExprMixin, StmtMixin, CallMixin):
    def __init__(self, *a, **k):
        self.class_objs = k.pop('class_objs', {})
        Engine.__init__(self, *a, **k)
        self.setorder = []
        self.taken = []
        self.inv_ms = 2000
        self.nit = 0
        self.inv_count = 0
        self.allow_rec = True


class Env:
    """What requires / ensures see."""

    def __init__(self, eng, st0, params, st1=None, res=None, exc=None):
        self.eng, self.st0, self.st1, self.params, self.res, self.exc = eng, st0, st1, params, res, exc

    def val(self, name, final=False):
        return self.eng.box(self.st1 if final else self.st0, self.params[name])

    def __getitem__(self, name):          # natural term of a parameter at entry
        return self.nat(self.st0, self.params[name])

    def nat(self, st, v):
        if isinstance(v, Loc):
            k = self.eng.kindof(st, v)
            if k in ('list', 'oset'): return self.eng.items(st, v)
            return self.eng.read(st, v)
        if isinstance(v, Sc): return v.t
        if isinstance(v, Py):
            if isinstance(v.o, (str, int, bool)): return st_term(v)
        return self.eng.box(st, v)

    def fin(self, name):
        return self.nat(self.st1, self.params[name])

    @property
    def r(self):
        return self.nat(self.st1, self.res)

    @property
    def rv(self):
        return self.eng.box(self.st1, self.res)

    def rs(self):
        """items of a list result"""
        v = self.res
        if isinstance(v, Py) and isinstance(v.o, list): return T.acc('items', self.eng.box(self.st1, v))
        if isinstance(v, Loc): return self.eng.items(self.st1, v)
        if isinstance(v, Sc): return T.acc('items', v.t)
        raise Unsupported("the result is not a list")

    def rt(self):
        """components of a tuple / known list result"""
        sp = self.eng.spine(self.st1, self.res)
        if sp is None: raise Unsupported("the result has no fixed shape")
        return sp

    def rb(self):
        return self.eng.truth(self.st1, self.res)

    def fld(self, cls, name, final=False):
        st = self.st1 if final else self.st0
        return st.fields[('fld', cls, name)]


class Contract:
    allow_shared = ()

    def __init__(self, name, fn, params, ret=Any, requires=None, ensures=None, raises=None, modifies=(), cands=None,
                 elem_facts=None, facts=None, folds=(), fields=(), assumed=(), trusted=False, effects=None, oset_union_facts=None, fresh_result=False, loop_facts=None, globs=None):
        self.name, self.fn, self.params, self.ret = name, fn, params, ret
        self.requires_, self.ensures_, self.raises = requires, ensures, raises or {}
        self.modifies = set(modifies)
        self.cands_, self.elem_facts_, self.facts_ = cands, elem_facts, facts
        self.folds = folds
        self.mod_fields = set(fields)
        self.assumes = list(assumed)
        self.trusted = trusted
        self.effects = effects
        self.ouf = oset_union_facts
        self.loop_facts_ = loop_facts
        self.globs = globs or {}      # module variables of the function's module: {name: type}, given any value the requirements allow
        self.fresh_result = fresh_result

    def cands(self, lv): return self.cands_(lv) if self.cands_ else {}
    def elem_facts(self, *a): return self.elem_facts_(*a) if self.elem_facts_ else []
    def loop_facts(self, lv): return list(self.loop_facts_(lv)) if self.loop_facts_ else []
    def oset_union_facts(self, *a): return self.ouf(*a) if self.ouf else []

    def requires(self, e): return list(self.requires_(e)) if self.requires_ else []
    def ensures(self, e): return dict(self.ensures_(e)) if self.ensures_ else {}
    def facts(self, e): return list(self.facts_(e)) if self.facts_ else []

    def argmap(self, fn):
        """real parameter name -> name in the contract (by name, else by position)"""
        real = list(inspect.signature(inspect.unwrap(fn)).parameters)
        mine = list(self.params)
        if all(m in real for m in mine): return {m: m for m in mine}
        return dict(zip(real, mine))

    # ------------------------------------------------------- at a call site
    def apply(self, eng, st, args, node):
        if args is None: return [(st, Exc(TypeError))]
        am = self.argmap(self.fn)
        args = {am[k]: v for k, v in args.items() if k in am}
        where = 'line %s' % getattr(node, 'lineno', '?')
        outs = []
        todo = [(st, {})]
        for n, ty in self.params.items():
            nxt = []
            for s, env in todo:
                for s2, v in self.coerce(eng, s, args[n], ty, n, where):
                    e2 = dict(env)
                    e2[n] = v
                    nxt.append((s2, e2))
            todo = nxt
        for s, env in todo:
            outs += self.apply1(eng, s, env, where)
        return outs

    def coerce(self, eng, st, v, ty, n, where):
        if isinstance(ty, (TAny, TFun)):
            if isinstance(v, Loc) or isinstance(ty, TFun): return [(st, v)]
            return [(st, Sc(eng.box(st, v), Any, getattr(v, 'loc', None)))]
        vt = eng.value_ty(st, v)
        if subtype(vt, ty): return [(st, v)]
        if isinstance(v, Sc) and sort_of(v.ty) is V and not isinstance(ty, TUnion):
            p = type_pred(ty, v.t)
            if deep_type(ty) and not isinstance(v.ty, TUnion) and not eng.cur_assume_elems:
                raise Unsupported("argument %s of %s: element types unknown" % (n, self.name))
            eng.oblige('call:%s:type:%s' % (self.name, n), st, p, where)
            return [eng.wrap(st.assume(p), v.t, ty, v.loc)]
        if isinstance(v, Loc):
            sp = eng.spine(st, v)
            if sp is not None and isinstance(ty, TList) and eng.kindof(st, v) == 'list':
                if all(subtype(eng.value_ty(st, x), ty.e) for x in sp):
                    return [(st, Loc(v.rid, v.path, ty))]
            try: p = deep_pred(ty, eng.box(st, v))
            except Unsupported: p = None
            if p is not None:
                eng.oblige('call:%s:type:%s' % (self.name, n), st, p, where)
                return [(st.assume(p), Loc(v.rid, v.path, ty))]
        if isinstance(v, Py) and isinstance(v.o, list) and isinstance(ty, TList): return [(st, v)]
        raise Unsupported("argument %s of %s has type %s, wanted %s" % (n, self.name, repr_ty(vt), repr_ty(ty)))

    def apply1(self, eng, st, env, where):
        g = id(getattr(inspect.unwrap(self.fn), '__globals__', None))
        env = dict({n: eng.globs[g, n] for n in self.globs if (g, n) in eng.globs}, **env)
        e0 = Env(eng, st, env)
        for i, f in enumerate(self.requires(e0)):
            eng.oblige('call:%s:requires%d' % (self.name, i), st, f, where)
            st = st.assume(f)
        outs = []
        # normal return
        s = st.copy()
        for n in self.modifies:
            if n in self.globs:
                v = eng.globs.get((id(inspect.unwrap(self.fn).__globals__), n))
            else: v = env[n]
            if isinstance(v, Loc):
                k = eng.kindof(s, v)
                if k == 'list': s = eng.write(s, v, V.ListV(T.fresh('mod_' + n, T.SeqV)), shift=True)
                elif k == 'dict': s = eng.write(s, v, V.DictV(T.fresh('modk_' + n, T.SeqS), T.fresh('modv_' + n, z3.ArraySort(T.String, V))), shift=True)
                elif k == 'set': s = eng.write(s, v, T.fresh('mod_' + n, T.SetV))
                elif k == 'oset': s = eng.write(s, v, T.fresh('mod_' + n, T.SeqV))
                elif k == 'xdict': s = eng.write(s, v, (T.fresh('mk_' + n, T.SeqV), T.fresh('mv_' + n, z3.ArraySort(V, V))))
        for f in self.mod_fields:
            key = ('fld',) + f
            s.fields[key] = T.fresh('mod_%s' % f[1], s.fields[key].sort())
        s, r = eng.fresh_value(s, self.ret, 'res_' + self.name)
        e1 = Env(eng, st, env, s, r)
        s = s.assume(*[f for f in self.ensures(e1).values() if not hasattr(f, 'decide')])
        s = s.assume(*self.facts(e1))
        if self.effects: s, r = self.effects(eng, st, s, env, r)
        outs.append((s, r))
        for cls, cond in self.raises.items():
            c = cond(e0) if cond else z3.BoolVal(True)
            if eng.feasible(st, c):
                s = st.assume(c)
                if self.modifies or self.mod_fields:
                    s = s.copy()
                    s.ghost['partial'] = True
                outs.append((s, Exc(cls)))
        return outs

    # ------------------------------------------------------- verification
    def start(self, eng, st, params):
        """the outcomes of the body"""
        base = inspect.unwrap(self.fn)
        node = eng.source(base)
        self.lines = (node.lineno, node.end_lineno)
        args, kw = [], {}
        ps = inspect.signature(base).parameters
        amap = self.argmap(base)
        for p in ps.values():
            if p.name in amap:
                v = params[amap[p.name]]
                if p.kind == p.KEYWORD_ONLY: kw[p.name] = v
                elif p.kind == p.VAR_POSITIONAL: args += v.xs
                else: args.append(v)
            elif p.default is p.empty and p.kind != p.VAR_POSITIONAL:
                raise Unsupported("parameter %s of %s is not in the contract" % (p.name, self.name))
            else: break
        d = {}
        pl = node.args.args
        for pn, val in zip([p.arg for p in pl][len(pl) - len(base.__defaults__ or ()):], base.__defaults__ or ()):
            d[pn] = Py(val)
        for k, val in (base.__kwdefaults__ or {}).items(): d[k] = Py(val)
        parent = None
        clo = Clo(node, parent, base.__globals__, base.__qualname__, d)
        return eng.inline(st, clo, args, kw, node)

    def verify(self, eng):
        """Generate the obligations of the real function against this contract."""
        eng.cur = self
        st = State()
        for cls, fields in eng.classes.items():
            for f, ty in fields.items():
                rng = sort_of_field(ty)
                st.fields[('fld', cls, f)] = T.fresh('fld_' + f, z3.ArraySort(T.Int, rng))
            st.fields[('alive', cls)] = T.fresh('alive_' + cls, z3.ArraySort(T.Int, z3.BoolSort()))
        params = {}
        roots = []
        for n, ty in self.params.items():
            st, v = eng.fresh_value(st, ty, n)
            params[n] = v
            if isinstance(v, Loc): roots.append(v.rid)
        eng.globs = {}
        for n, ty in self.globs.items():
            st, v = eng.fresh_value(st, ty, n)
            params[n] = v
            eng.globs[id(inspect.unwrap(self.fn).__globals__), n] = v
            if isinstance(v, Loc): roots.append(v.rid)
        st.ghost['param_roots'] = tuple(roots)
        st0 = st
        e0 = eng.entry = Env(eng, st0, params)       # for the invariants
        reqs = self.requires(e0)
        st = st.assume(*reqs)
        eng.oblige('vacuity:%s:requires' % self.name, st, z3.BoolVal(False), 'must fail')
        outs = self.start(eng, st, params)
        self.paths = len(outs)
        normal = 0
        for i, (s, r) in enumerate(outs):
            if isinstance(r, Exc):
                cond = False
                for cls, c in self.raises.items():
                    if issubclass(r.cls, cls):
                        cond = c(Env(eng, st0, params, s, None, r)) if c else z3.BoolVal(True)
                        break
                nm = 'raises:%s' % r.cls.__name__
                eng.oblige('%s:%s' % (self.name, nm), s, z3.BoolVal(False) if cond is False else cond, 'path %d' % i)
                continue
            normal += 1
            e1 = Env(eng, st0, params, s, r)
            s2 = s.assume(*self.facts(e1))
            for k, f in self.ensures(e1).items():
                if isinstance(f, list):      # conjunction proved piecewise
                    for j, g in enumerate(f): eng.oblige('%s:%s.%d' % (self.name, k, j), s2, g, 'path %d' % i)
                else: eng.oblige('%s:%s' % (self.name, k), s2, f, 'path %d' % i)
            for n, v in params.items():
                if n in self.modifies: continue
                if isinstance(v, Loc):
                    a, b = eng.read(st0, v), eng.read(s, v)
                    if isinstance(a, tuple): g = z3.And(*[x == y for x, y in zip(a, b)])
                    else: g = z3.BoolVal(True) if a.eq(b) else a == b
                    eng.oblige('%s:frame:%s' % (self.name, n), s2, g, 'path %d' % i)
            for key, arr in st0.fields.items():
                if key[0] == 'fld' and key[1:] not in self.mod_fields and not s.fields[key].eq(arr):
                    eng.oblige('%s:frame:%s' % (self.name, key[2]), s2, s.fields[key] == arr, 'path %d' % i)
            if self.fresh_result:
                shared = [ev for ev in s.events if ev[0] in ('share', 'maybe_share', 'share_elems', 'shallow_copy')]
                bad = []
                for ev in shared:
                    if ev[0] == 'maybe_share':
                        t = ev[3]
                        g = z3.Not(z3.Or(T.tester('ListV', t), T.tester('DictV', t), T.tester('ObjV', t), T.tester('OtherV', t)))
                        eng.oblige('%s:unshared' % self.name, s2, g, 'path %d' % i)
                    else:
                        eng.oblige('%s:unshared' % self.name, s2, z3.BoolVal(False), 'path %d' % i)
                if isinstance(r, Loc):
                    rid, path = eng.resolve(s, r)
                    eng.oblige('%s:result-is-new' % self.name, s2, z3.BoolVal(rid not in roots and not path), 'path %d' % i)
                elif isinstance(r, Sc) and r.loc is not None:
                    g = z3.Not(z3.Or(T.tester('ListV', r.t), T.tester('DictV', r.t), T.tester('ObjV', r.t), T.tester('OtherV', r.t)))
                    eng.oblige('%s:result-is-new' % self.name, s2, g, 'path %d' % i)
                else:
                    eng.oblige('%s:result-is-new' % self.name, s2, z3.BoolVal(True), 'path %d' % i)
        if normal:
            # at least one path returning normally must be reachable
            self.live = any(eng.feasible(s) for s, r in outs if not isinstance(r, Exc))
        else: self.live = not self.ensures_
        eng.cur = None
        return eng


class Nested(Contract):
    """A contract on a function defined inside another one: params are its own parameters followed by the variables of the enclosing function it uses."""

    def __init__(self, name, outer, inner, params, free, **k):
        self.cls = k.pop('cls', None)
        Contract.__init__(self, name, outer, dict(params, **free), **k)
        self.inner, self.own, self.free = inner, list(params), list(free)

    def body(self, eng):
        """where the function is defined: the outer function, or a class inside it"""
        import ast
        top = eng.source(inspect.unwrap(self.fn))
        if self.cls is None: return top
        ds = [n for n in ast.walk(top) if isinstance(n, ast.ClassDef) and n.name == self.cls]
        if len(ds) != 1 or ds[0].bases or ds[0].decorator_list: raise Unsupported("%s has no plain class %s" % (self.fn.__name__, self.cls))
        return ds[0]

    def find(self, eng):
        import ast
        ds = [n for n in ast.walk(self.body(eng)) if isinstance(n, ast.FunctionDef) and n.name == self.inner]
        if len(ds) != 1: raise Unsupported("%s has no function %s of its own" % (self.fn.__name__, self.inner))
        return ds[0]

    def start(self, eng, st, params):
        node = self.find(eng)
        self.lines = (node.lineno, node.end_lineno)
        names = [a.arg for a in node.args.args]
        if len(names) != len(self.own) or node.args.defaults or node.args.vararg or node.args.kwonlyargs or node.args.kwarg: raise Unsupported("the parameters of %s have changed" % self.inner)
        st = st.copy()
        base = inspect.unwrap(self.fn)
        f = eng.new_frame(st, None, base.__globals__, set(self.free) | {self.inner})
        clo = Clo(node, f, base.__globals__, self.inner, {})
        st.frames[f] = dict({n: params[n] for n in self.free}, **{self.inner: clo})
        if self.cls:
            import ast
            del st.frames[f][self.inner]
            plain = [m for m in self.body(eng).body if isinstance(m, ast.FunctionDef) and not m.decorator_list and not m.args.defaults and not m.args.kwonlyargs]
            eng.methods_of = {self.cls: {m.name: Clo(m, f, base.__globals__, m.name, {}) for m in plain}}
        return eng.inline(st, clo, [params[n] for n in self.own], {}, node)

    def applies(self, eng, clo):
        return getattr(clo.node, 'name', None) == self.inner and clo.node is self.find(eng)

    def call(self, eng, st, clo, args, kw, node):
        names = [a.arg for a in clo.node.args.args]
        if kw or len(args) != len(names): raise Unsupported("call of %s" % self.inner)
        env = dict(zip(self.own, args))
        for n in self.free:
            v = eng.lookup(st, clo.fid, n)
            if isinstance(v, Exc): raise Unsupported("%s is not known here" % n)
            env[n] = v
        where = 'line %s' % getattr(node, 'lineno', '?')
        todo = [(st, {})]
        for n, ty in self.params.items():
            todo = [(s2, dict(e, **{n: v})) for s, e in todo for s2, v in self.coerce(eng, s, env[n], ty, n, where)]
        return [o for s, e in todo for o in self.apply1(eng, s, e, where)]


def sort_of_field(ty):
    if isinstance(ty, (TSet,)): return T.SetV
    return V


def deep_type(ty):
    return isinstance(ty, (TList, TDict)) and not isinstance(getattr(ty, 'e', None) or getattr(ty, 'v', None), TAny)


def subtype(a, b):
    if b is None or isinstance(b, TAny): return True
    if a is None: return True
    if same_ty(a, b): return True
    if isinstance(b, TUnion):
        if isinstance(a, TUnion): return all(subtype(x, b) for x in a.ts)
        return any(subtype(a, x) for x in b.ts)
    if isinstance(a, TUnion): return all(subtype(x, b) for x in a.ts)
    if isinstance(a, TList) and isinstance(b, TList): return subtype(a.e, b.e)
    if isinstance(a, TDict) and isinstance(b, TDict):
        if not b.rec: return subtype(a.v, b.v) and all(subtype(x[0], b.v) for x in a.rec.values())
        return all(k in a.rec and subtype(a.rec[k][0], t[0]) and (not t[1] or a.rec[k][1]) for k, t in b.rec.items()) and subtype(a.v, b.v)
    if isinstance(a, TSet) and isinstance(b, TSet): return subtype(a.e, b.e)
    if isinstance(a, TOSet) and isinstance(b, TOSet): return subtype(a.e, b.e)
    if isinstance(a, TTup) and isinstance(b, TTup): return len(a.es) == len(b.es) and all(map(subtype, a.es, b.es))
    if isinstance(a, TXDict) and isinstance(b, TXDict): return subtype(a.k, b.k) and subtype(a.v, b.v)
    return False


def fresh_value(self, st, ty, n):
    if isinstance(ty, TFun): return st, Sc(z3.IntVal(0), ty)
    if isinstance(ty, (TInt, TStr, TBool, TObj)): return st, Sc(T.fresh(n, sort_of(ty)), ty)
    if isinstance(ty, TNone): return st, Py(None)
    if isinstance(ty, TList): return self.new_root(st, 'v', V.ListV(T.fresh(n, T.SeqV)), ty)
    if isinstance(ty, TDict):
        t = V.DictV(T.fresh(n + '_keys', T.SeqS), T.fresh(n + '_vals', z3.ArraySort(T.String, V)))
        st, l = self.new_root(st, 'v', t, ty)
        for k, (kt, req) in ty.rec.items():
            if req: st = st.assume(T.dhas(t, T.sv(k)))
        return st, l
    if isinstance(ty, TSet): return self.new_root(st, 'set', T.fresh(n, T.SetV), ty)
    if isinstance(ty, TOSet): return self.new_root(st, 'oset', T.fresh(n, T.SeqV), ty)
    if isinstance(ty, TXDict): return self.new_root(st, 'xdict', (T.fresh(n + '_keys', T.SeqV), T.fresh(n + '_vals', z3.ArraySort(V, V))), ty)
    if isinstance(ty, TTup):
        xs = []
        for i, e in enumerate(ty.es):
            st, x = self.fresh_value(st, e, '%s_%d' % (n, i))
            xs.append(x)
        return st, Tup(xs)
    if isinstance(ty, TUnion):
        c = T.fresh(n, V)
        st = st.assume(type_pred(ty, c))
        st, loc = self.new_root(st, 'v', c, ty)
        return st, Sc(c, ty, loc)
    c = T.fresh(n, V)
    st, loc = self.new_root(st, 'v', c, ty)
    return st, Sc(c, ty, loc)


Verifier.fresh_value = fresh_value
Verifier.cur_assume_elems = False


class Lemma:
    """A fact about spec functions with its own obligations (usually base and step of an induction)."""

    def __init__(self, name, obligations):
        self.name, self.obligations = name, obligations

    def verify(self, eng):
        for nm, hyps, goal in self.obligations():
            st = State()
            st.pc = list(hyps)
            eng.oblige('lemma:%s:%s' % (self.name, nm), st, goal, 'lemma')


# ------------------------------------------------------------------ discharge
def discharge(ob, ms=10000, use_cvc5=True):
    t0 = time.time()
    if hasattr(ob.goal, 'decide'): return discharge_strings(ob, t0)
    g = z3.simplify(ob.goal)
    if z3.is_true(g):
        ob.status, ob.backend = 'proved', 'simplifier'
        return ob
    s = z3.Solver()
    s.add(*ob.pc)
    s.add(z3.Not(ob.goal))
    # z3 briefly, then cvc5 (much better on strings), then z3 for the rest of the time
    for who, lim in (('z3', min(ms, 1500)), ('cvc5', ms if use_cvc5 else 0), ('z3', ms)):
        if not lim: continue
        if who == 'cvc5':
            if cvc5_unsat(s, lim):
                ob.status, ob.backend = 'proved', 'cvc5'
                break
            continue
        s.set('timeout', int(lim))
        r = s.check()
        if r == z3.unsat:
            ob.status, ob.backend = 'proved', 'z3'
            break
        if r == z3.sat:
            ob.status, ob.backend = 'refuted', 'z3'
            ob.model = s.model()
            break
        ob.status, ob.backend, ob.detail = 'unknown', 'z3', s.reason_unknown()
    ob.secs = time.time() - t0
    return ob


def discharge_strings(ob, t0):
    from .strtrans import Undecidable
    try:
        a, alpha = ob.goal.decide()
        ob.backend = 'transducer (%s)' % ob.goal.stats if False else 'transducer'
        ob.status = 'proved' if a.ok else 'refuted'
        ob.detail = a.why
        if not a.ok:
            ob.detail += ': ' + ', '.join(repr(alpha.text(w)) for w in a.words)
            ob.witness = (ob.goal.replay, [repr(ob.goal.wrap(alpha.text(w))) for w in a.words])
    except (Undecidable, Unsupported) as ex:
        ob.status, ob.backend, ob.detail = 'unknown', 'transducer', str(ex)
    ob.secs = time.time() - t0
    return ob


def cvc5_unsat(solver, ms):
    try:
        txt = solver.to_smt2()
        txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
            p = f.name
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--strings-exp', '--dt-nested-rec', p], capture_output=True, text=True, timeout=ms / 1000 + 5)
            return r.stdout.strip().startswith('unsat')
        finally:
            os.unlink(p)
    except Exception:
        return False


def model_value(m, t, depth=0):
    """Python value of a V term in a model (best effort)."""
    v = m.eval(t, model_completion=True)
    return term_value(v)


def term_value(v):
    from .expr import py_string
    if z3.is_string_value(v): return py_string(v)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    n = v.decl().name() if z3.is_app(v) else None
    if n in ('StrV', 'IntV', 'BoolV'): return term_value(v.arg(0))
    if n == 'NoneV': return None
    if n == 'ListV': return term_value(v.arg(0))
    if n == 'TupV': return tuple(term_value(v.arg(0)))
    if n == 'DictV':
        ks = term_value(v.arg(0))
        return {k: term_value(z3.simplify(z3.Select(v.arg(1), T.sv(k)))) for k in ks}
    if z3.is_seq(v):
        sp = T.spine(v)
        if sp is not None: return [term_value(x) for x in sp]
    raise ValueError("no value for %s" % v)


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.error = None
        self.secs = 0
        self.paths = 0
        self.live = True
        self.inlined = set()
        self.called = set()
        self.assumed = set()
        self.invs = 0
        self.trace = []
        self.witnesses = []
        self.lines = None
        self.params = None


def run_contract(c, make_engine, ms=10000):
    """Verify one contract (or lemma): returns a Result whose obligations are all discharged or not."""
    r = Result(c.name)
    t0 = time.time()
    T.reset_fresh()
    eng = make_engine()
    try:
        c.verify(eng)
    except Unsupported as ex:
        r.error = 'outside the subset: %s' % ex
    except (z3.Z3Exception, RecursionError) as ex:
        if os.environ.get('PYVC_DEBUG'): raise
        r.error = 'generator: %s: %s' % (type(ex).__name__, str(ex)[:300])
    except Exception as ex:
        if os.environ.get('PYVC_DEBUG'): raise
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        r.error = 'generator: %s: %s (%s:%d)' % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno)
    for ob in eng.obls:
        if ob.name.startswith('vacuity:'):
            discharge(ob, 3000, use_cvc5=False)
            if ob.status == 'proved':
                r.error = 'precondition is contradictory'
            continue
        discharge(ob, ms)
        r.obls.append((ob.name, ob.status, ob.backend, round(ob.secs, 3), ob.where, str(ob.goal)[:600] if ob.status != 'proved' else '', ob.detail))
        if getattr(ob, 'witness', None) and ob.witness[0]: r.witnesses.append(ob.witness)
        if ob.status == 'refuted' and ob.model is not None:
            r.obls[-1] = r.obls[-1][:6] + (str(ob.model)[:1500],)
    if not r.obls and not r.error and not getattr(c, 'no_obligations', False): r.error = 'no obligation was generated'
    r.secs = time.time() - t0
    r.paths = getattr(c, 'paths', 0)
    if isinstance(c, Contract) and not r.error and not getattr(c, 'live', True) and not getattr(c, 'never', False):        # never: it is to raise always
        r.error = 'no path returns normally'
    r.inlined, r.called, r.assumed = set(eng.inlined), set(eng.called), set(eng.assumed) | set(getattr(c, 'assumes', ()))
    r.invs = eng.inv_count
    r.trace = eng.trace
    r.lines = getattr(c, 'lines', None)
    r.stats = (eng.stats.feas, eng.stats.queries)
    return r
