"""Statements and loops (mixin of Engine)."""
import ast
import os
import z3
from . import terms as T
from .types import *
from .core import *
from .expr import is_str, is_int, is_bool, st_term, mk_str, mk_int, mk_bool, TDict2

V = T.V
DEBUG = bool(os.environ.get('PYVC_INV'))


def assigned(nodes):
    """Names bound in these statements (not inside nested functions)."""
    out, nl, gl = set(), set(), set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr): out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        if isinstance(n, ast.Nonlocal): nl.update(n.names)
        if isinstance(n, ast.Global): gl.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n): walk(c)
    for n in nodes: walk(n)
    return out - nl - gl, nl, gl


class LoopView:
    """What a contract's invariant templates may look at."""

    def __init__(self, eng, st, entry, done, seq, idx, outer, node, n=None):
        self.eng, self.st, self.entry, self.done, self.seq, self.idx, self.outer, self.node, self.n = eng, st, entry, done, seq, idx, outer, node, n

    def vars(self, st=None):
        """(name, value) of all variables of all live frames"""
        st = st or self.st
        for f in sorted(st.frames):
            for n, v in st.frames[f].items():
                if v is not Undef:
                    yield "%s@%d" % (n, f), v

    def lists(self):
        """(name, seq term) of the lists held in variables, with unknown spine allowed"""
        for n, v in self.vars():
            if isinstance(v, Loc):
                try:
                    if self.eng.kindof(self.st, v) == 'list':
                        yield n, self.eng.items(self.st, v)
                except Unsupported:
                    pass

    def kinds(self, kind):
        for n, v in self.vars():
            if isinstance(v, Loc):
                try:
                    if self.eng.kindof(self.st, v) == kind:
                        yield n, self.eng.read(self.st, v), v
                except Unsupported:
                    pass

    def osets(self):
        for n, v in self.vars():
            if isinstance(v, Loc) and isinstance(v.ty, TOSet):
                yield n, self.eng.items(self.st, v)

    def scalars(self, ty):
        for n, v in self.vars():
            if isinstance(v, Sc) and isinstance(v.ty, ty): yield n, v.t
            elif isinstance(v, Py):
                o = v.o
                if ty is TBool and isinstance(o, bool): yield n, z3.BoolVal(o)
                if ty is TInt and isinstance(o, int) and not isinstance(o, bool): yield n, z3.IntVal(o)
                if ty is TStr and isinstance(o, str): yield n, T.sv(o)

    def boxed(self):
        for n, v in self.vars():
            if isinstance(v, (Sc, Py, Tup)):
                try:
                    yield n, self.eng.box(self.st, v)
                except Unsupported:
                    pass

    def value(self, name, st=None):
        st = st or self.st
        n, f = name.rsplit('@', 1)
        return st.frames[int(f)].get(n)

    def entry_list(self, name):
        v = self.value(name, self.entry)
        return self.eng.items(self.entry, v) if isinstance(v, Loc) else None


def base_loc(v):
    while isinstance(v, View): v = v.base
    return v if isinstance(v, Loc) else None


def same_value(x, y):
    if isinstance(x, Loc) and isinstance(y, Loc): return x.rid == y.rid and x.ty is y.ty and len(x.path) == len(y.path) and all(p[0] == q[0] and (p[1] is q[1] or z3.is_expr(p[1]) and z3.is_expr(q[1]) and p[1].eq(q[1])) for p, q in zip(x.path, y.path))
    if isinstance(x, Sc) and isinstance(y, Sc): return x.t.eq(y.t) and type(x.ty) is type(y.ty)
    return isinstance(x, Py) and isinstance(y, Py) and (x.o is y.o or type(x.o) is type(y.o) and isinstance(x.o, (str, int, bool)) and x.o == y.o)


class StmtMixin:
    # outcomes: ('next',) ('ret', v) ('raise', Exc) ('break',) ('cont',)
    def block(self, stmts, st, fid):
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for o, y in self.stmt(s, x, fid):
                    if o[0] == 'next': nxt.append(y)
                    else: done.append((o, y))
            live = nxt
            if len(live) + len(done) > self.max_paths:
                raise Unsupported("too many paths")
            if not live: break
        return [(('next',), x) for x in live] + done

    def stmt(self, n, st, fid):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(n).__name__, n.lineno))
        return m(n, st, fid)

    def st_Pass(self, n, st, fid): return [(('next',), st)]
    def st_Break(self, n, st, fid): return [(('break',), st)]
    def st_Continue(self, n, st, fid): return [(('cont',), st)]
    def st_Nonlocal(self, n, st, fid): return [(('next',), st)]

    def st_Expr(self, n, st, fid):
        if isinstance(n.value, ast.Constant):
            return [(('next',), st)]
        return [((('raise', v) if isinstance(v, Exc) else ('next',)), s) for s, v in self.ev(n.value, st, fid)]

    def st_Return(self, n, st, fid):
        if n.value is None: return [(('ret', Py(None)), st)]
        return [((('raise', v) if isinstance(v, Exc) else ('ret', v)), s) for s, v in self.ev(n.value, st, fid)]

    def st_Import(self, n, st, fid):
        import importlib
        for a in n.names:
            m = importlib.import_module(a.name)
            top = importlib.import_module(a.name.split('.')[0])
            st = self.setvar(st, fid, a.asname or a.name.split('.')[0], Py(m if a.asname else top))
        return [(('next',), st)]

    def st_Assert(self, n, st, fid):
        out = []
        for s, v in self.ev(n.test, st, fid):
            if isinstance(v, Exc):
                out.append((('raise', v), s))
                continue
            for s2, ok in self.branch(s, v):
                out.append(((('next',) if ok else ('raise', Exc(AssertionError))), s2))
        return out

    def st_If(self, n, st, fid):
        out, ends = [], []
        for s, v in self.ev(n.test, st, fid):
            if isinstance(v, Exc):
                out.append((('raise', v), s))
                continue
            arms = [(br, s2, self.block(n.body if br else n.orelse, s2, fid)) for s2, br in self.branch(s, v)]
            single = all(len(os) == 1 and os[0][0] == ('next',) for _, _, os in arms)
            if self.merge and len(arms) == 2 and single:
                m = self.merged(s, self.truth(s, v), *[[os[0][1] for b, _, os in arms if b is br][0] for br in (True, False)])
                if m is not None:
                    ends.append((s, m))
                    continue
            if self.merge and len(arms) == 1 and single:
                ends.append((s, arms[0][2][0][1]))
                continue
            for _, _, os in arms: out += os
        n0 = len(st.pc)
        while len(ends) > 1:           # the outcomes of the test are joined as well
            (s, a), (s2, b) = ends[:2]
            c = z3.simplify(z3.And(*s.pc[n0:]))
            m = self.merged(st, c, a, b) if all(p is q for p, q in zip(st.pc, s.pc)) and not self.feasible(s2, c) else None
            if m is None:
                out.append((('next',), a))
                ends = ends[1:]
            else: ends = [(st.assume(z3.Or(c, z3.And(*s2.pc[n0:]))), m)] + ends[2:]
        return out + [(('next',), m) for _, m in ends]

    merge = False          # the two ways through an if are joined where that is possible

    def merged(self, s, c, a, b):
        """the state a when c holds and b when not, both reached from s; None if that is no single state"""
        n = len(s.pc)
        if any(len(x.pc) < n or any(p is not q for p, q in zip(s.pc, x.pc)) for x in (a, b)): return None
        same = lambda x, y: x is y or type(x) is type(y) and x == y
        if a.shared != b.shared or a.events != b.events or a.frozen != b.frozen or set(a.frames) != set(b.frames) or set(a.fields) != set(b.fields): return None
        if set(a.ghost) != set(b.ghost) or any(not same(a.ghost[k], b.ghost[k]) for k in a.ghost): return None
        out = a.copy()
        out.pc = s.pc + [z3.Implies(c, z3.And(*a.pc[n:])), z3.Implies(z3.Not(c), z3.And(*b.pc[n:]))]
        out.nobj = max(a.nobj, b.nobj)
        for f in a.frames:
            if set(a.frames[f]) != set(b.frames[f]): return None
            for k, x in a.frames[f].items():
                y = b.frames[f][k]
                if x is y or same_value(x, y): continue
                v = self.merge_values(c, x, y)
                if v is None: return None
                out.frames[f][k] = v
        for r, y in b.roots.items():
            x = a.roots.get(r)
            if x is None: out.roots[r] = y
            elif x is not y:
                if x.kind != y.kind or x.ty is not y.ty or x.t.sort() != y.t.sort(): return None
                out.roots[r] = Root(x.kind, T.merge(c, x.t, y.t), x.ty)
        for r in set(a.moved) | set(b.moved):
            if r in a.moved and r in b.moved:
                if not same(a.moved[r], b.moved[r]): return None
            elif r in s.roots: return None
            else: out.moved[r] = a.moved.get(r, b.moved.get(r))
        for k in a.fields: out.fields[k] = T.merge(c, a.fields[k], b.fields[k])
        return out

    def merge_values(self, c, x, y):
        for v in (x, y):
            if not (isinstance(v, Sc) and sort_of(v.ty) in (V, T.String, T.Int, T.Bool) and not isinstance(v.ty, TObj) or isinstance(v, Py) and (v.o is None or isinstance(v.o, (bool, int, str)))): return None
        tx, ty = [v.ty if isinstance(v, Sc) else NoneT if v.o is None else BoolT if isinstance(v.o, bool) else IntT if isinstance(v.o, int) else StrT for v in (x, y)]
        if type(tx) is type(ty) and sort_of(tx) is not V: return Sc(T.ite(c, *[v.t if isinstance(v, Sc) else z3.StringVal(v.o) if isinstance(v.o, str) else z3.BoolVal(v.o) if isinstance(v.o, bool) else z3.IntVal(v.o) for v in (x, y)]), tx)
        ts = []
        for t in (tx, ty):
            for u in (t.ts if isinstance(t, TUnion) else [t]):
                if not isinstance(u, (TNone, TStr, TInt, TBool)): return None
                if not any(type(u) is type(w) for w in ts): ts.append(u)
        return Sc(T.ite(c, self.box(None, x), self.box(None, y)), TUnion(*ts))

    def st_Assign(self, n, st, fid):
        out = []
        for s, v in self.ev(n.value, st, fid):
            if isinstance(v, Exc):
                out.append((('raise', v), s))
                continue
            cur = [(('next',), s)]
            for t in n.targets:
                nxt = []
                for o, s2 in cur:
                    nxt += self.assign(t, v, s2, fid) if o[0] == 'next' else [(o, s2)]
                cur = nxt
            out += cur
        return out

    def st_AnnAssign(self, n, st, fid):
        if n.value is None: return [(('next',), st)]
        return self.st_Assign(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n), st, fid)

    def st_AugAssign(self, n, st, fid):
        # list += list is in place
        load = ast.copy_location({ast.Name: lambda t: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda t: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda t: ast.Subscript(t.value, t.slice, ast.Load())}[type(n.target)](n.target), n)
        ast.fix_missing_locations(load)
        out = []
        for s, vs in self.evs([load, n.value], st, fid):
            if isinstance(vs, Exc):
                out.append((('raise', vs), s))
                continue
            for s1, a in self.force(s, vs[0]):
                if isinstance(a, Loc) and self.kindof(s1, a) == 'list' and isinstance(n.op, ast.Add):
                    lb = self.as_listseq(s1, vs[1])
                    if lb is None:
                        sp = self.spine(s1, vs[1])
                        if sp is None: raise Unsupported("list += unknown iterable")
                        for x in sp: s1 = self.list_append(s1, a, x)
                        out.append((('next',), s1))
                        continue
                    s2 = self.note_store(s1, a, lb[1]) if lb[1] is not None else s1
                    s2 = self.share_elems(self.write(s2, a, V.ListV(T.concat(self.items(s2, a), lb[0]))), vs[1], a)
                    out.append((('next',), s2))
                    continue
                for s2, r in self.binop(s1, type(n.op).__name__, a, vs[1]):
                    if isinstance(r, Exc): out.append((('raise', r), s2))
                    else: out += self.assign(n.target, r, s2, fid)
        return out

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            return [(('next',), self.setvar(st, fid, t.id, v))]
        if isinstance(t, (ast.Tuple, ast.List)):
            sp = self.spine(st, v)
            if sp is None:
                if isinstance(v, Sc) and sort_of(v.ty) is V or isinstance(v, Loc) and self.kindof(st, v) == 'list':
                    out = []
                    for s, x in self.force(st, v):
                        if isinstance(x, Loc) and self.kindof(s, x) == 'list' or isinstance(x, Tup):
                            seq = self.items(s, x)
                            ok = T.length(seq) == len(t.elts)
                            for s2, good in self.branch(s, mk_bool(ok)):
                                if not good:
                                    out.append((('raise', Exc(ValueError)), s2))
                                    continue
                                cur = [(('next',), s2)]
                                for i, tt in enumerate(t.elts):
                                    nxt = []
                                    for o, s3 in cur:
                                        if o[0] != 'next': nxt.append((o, s3)); continue
                                        s4, w = self.elem(s3, x, T.nth(seq, z3.IntVal(i)), z3.IntVal(i))
                                        nxt += self.assign(tt, w, s4, fid)
                                    cur = nxt
                                out += cur
                        elif isinstance(x, Py) and x.o is None or is_int(x):
                            out.append((('raise', Exc(TypeError)), s))
                        else:
                            raise Unsupported("unpacking %r" % (x,))
                    return out
                raise Unsupported("unpacking a value of unknown length")
            if len(sp) != len(t.elts):
                return [(('raise', Exc(ValueError)), st)]
            cur = [(('next',), st)]
            for tt, x in zip(t.elts, sp):
                nxt = []
                for o, s in cur:
                    nxt += self.assign(tt, x, s, fid) if o[0] == 'next' else [(o, s)]
                cur = nxt
            return cur
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.evs([t.value, t.slice], st, fid):
                if isinstance(vs, Exc):
                    out.append((('raise', vs), s))
                    continue
                for s2, base in self.force(s, vs[0]):
                    for s3, k in self.force(s2, vs[1]):
                        out += self.setitem(s3, base, k, v)
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fid):
                if isinstance(o, Exc):
                    out.append((('raise', o), s))
                elif isinstance(o, Sc) and isinstance(o.ty, TObj):
                    key = ('fld', o.ty.cls, t.attr)
                    if key not in s.fields: raise Unsupported("field %s" % t.attr)
                    s2, b = self.take_value(s, v, Loc(key, (('o', o.t),), None))
                    s2 = s2.copy()
                    s2.fields[key] = z3.Store(s2.fields[key], o.t, b)
                    s2 = self.finish_move(s2, Loc(key, (('o', o.t),), self.classes[o.ty.cls][t.attr]))
                    out.append((('next',), s2))
                else:
                    raise Unsupported("attribute assignment")
            return out
        raise Unsupported("assignment target")

    def setitem(self, st, base, k, v):
        if isinstance(base, Loc):
            kd = self.kindof(st, base)
            if kd in ('dict', 'xdict'):
                return [(('next',), self.dict_set(st, base, k, v))]
            if kd == 'list':
                seq = self.items(st, base)
                out = []
                for s, j in self.list_index(st, T.length(seq), k):
                    if isinstance(j, Exc):
                        out.append((('raise', j), s))
                        continue
                    s, t = self.take_value(s, v, base)
                    s = self.note_store(s, base, self.value_ty(s, v))
                    s = self.write(s, base, V.ListV(T.concat(T.take(seq, j), T.unit(t), T.drop(seq, j + 1))), child=('i', j))
                    out.append((('next',), self.finish_move(s, Loc(base.rid, base.path + (('i', j),), None))))
                return out
        if isinstance(base, Py) and base.o is None or is_str(base) or is_int(base):
            return [(('raise', Exc(TypeError)), st)]
        raise Unsupported("item assignment on %r" % (base,))

    def st_Delete(self, n, st, fid):
        cur = [(('next',), st)]
        for t in n.targets:
            nxt = []
            for o, s in cur:
                if o[0] != 'next': nxt.append((o, s)); continue
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s.frames[fid].pop(t.id, None)
                    nxt.append((o, s))
                    continue
                if not isinstance(t, ast.Subscript): raise Unsupported("del")
                if isinstance(t.slice, ast.Slice):
                    if t.slice.lower is not None or t.slice.step is not None: raise Unsupported("del of this slice")
                    for s2, vs in self.evs([t.value] + [x for x in (t.slice.upper,) if x is not None], s, fid):
                        if isinstance(vs, Exc):
                            nxt.append((('raise', vs), s2))
                            continue
                        for s3, base in self.force(s2, vs[0]):
                            if not (isinstance(base, Loc) and self.kindof(s3, base) == 'list'): raise Unsupported("del of a slice of %r" % (base,))
                            seq = self.items(s3, base)
                            for s4, b in self.norm_bound(s3, vs[1] if len(vs) > 1 else None, T.length(seq), T.length(seq)):
                                nxt.append((('next',), self.write(s4, base, V.ListV(T.drop(seq, b)), shift=True)))
                    continue
                for s2, vs in self.evs([t.value, t.slice], s, fid):
                    if isinstance(vs, Exc):
                        nxt.append((('raise', vs), s2))
                        continue
                    for s3, base in self.force(s2, vs[0]):
                        nxt += self.delitem(s3, base, vs[1])
            cur = nxt
        return cur

    def delitem(self, st, base, k):
        if isinstance(base, Loc):
            kd = self.kindof(st, base)
            if kd == 'dict':
                out = []
                for s, kk in self.force(st, k):
                    kt = st_term(kk)
                    d = self.read(s, base)
                    for s2, good in self.branch(s, mk_bool(T.dhas(d, kt))):
                        if good: out.append((('next',), self.write(s2, base, T.ddel(d, kt), child=('k', kt))))
                        else: out.append((('raise', Exc(KeyError)), s2))
                return out
            if kd == 'list':
                seq = self.items(st, base)
                out = []
                for s, j in self.list_index(st, T.length(seq), k):
                    if isinstance(j, Exc): out.append((('raise', j), s))
                    else: out.append((('next',), self.write(s, base, V.ListV(T.concat(T.take(seq, j), T.drop(seq, j + 1))), shift=True)))
                return out
        raise Unsupported("del item of %r" % (base,))

    def st_FunctionDef(self, n, st, fid):
        if n.decorator_list: raise Unsupported("decorated nested function")
        defaults = {}
        args = n.args
        cur = [(st, [])]
        ds = list(args.defaults)
        for s, vs in self.evs(ds, st, fid):
            if isinstance(vs, Exc): return [(('raise', vs), s)]
            names = [a.arg for a in args.args][len(args.args) - len(ds):]
            clo = Clo(n, fid, st.fmeta[fid]['globals'], n.name, dict(zip(names, vs)))
            return [(('next',), self.setvar(s, fid, n.name, clo))]

    def st_Raise(self, n, st, fid):
        if n.exc is None:
            return [(('raise', st.ghost.get('current_exc', Exc(Exception))), st)]
        out = []
        e = n.exc
        if isinstance(e, ast.Call):
            # the message does not decide anything, but evaluating it may itself fail
            for s, vs in self.evs([e.func] + list(e.args), st, fid):
                if isinstance(vs, Exc):
                    out.append((('raise', vs), s))
                    continue
                c = vs[0]
                if isinstance(c, Py) and isinstance(c.o, type) and issubclass(c.o, BaseException):
                    out.append((('raise', Exc(c.o, None, vs[1:])), s))
                else: raise Unsupported("raise of %r" % (c,))
            return out
        for s, v in self.ev(e, st, fid):
            if isinstance(v, Exc): out.append((('raise', v), s))
            elif isinstance(v, Py) and isinstance(v.o, type) and issubclass(v.o, BaseException): out.append((('raise', Exc(v.o)), s))
            elif isinstance(v, Py) and isinstance(v.o, Exc): out.append((('raise', v.o), s))
            else: raise Unsupported("raise of %r" % (v,))
        return out

    def st_With(self, n, st, fid):
        """context managers whose exit does nothing but release (files): the body runs, nothing is suppressed"""
        todo, out = [st], []
        for it in n.items:
            nxt = []
            for s0 in todo:
                for s, v in self.ev(it.context_expr, s0, fid):
                    if isinstance(v, Exc):
                        out.append((('raise', v), s))
                        continue
                    if not (isinstance(v, Sc) and isinstance(v.ty, TObj) and getattr(self.class_objs.get(v.ty.cls), 'releases_only', False)):
                        raise Unsupported("with %r" % (v,))
                    if it.optional_vars is None: nxt.append(s)
                    else:
                        for o, s2 in self.assign(it.optional_vars, v, s, fid):
                            if o[0] == 'next': nxt.append(s2)
                            else: out.append((o, s2))
            todo = nxt
        for s in todo: out += self.block(n.body, s, fid)
        return out

    def st_Try(self, n, st, fid):
        out = []
        for o, s in self.block(n.body, st, fid):
            if o[0] == 'raise':
                out += self.handlers(n, o[1], s, fid)
            elif o[0] == 'next':
                out += self.block(n.orelse, s, fid) if n.orelse else [(o, s)]
            else:
                out.append((o, s))
        if n.finalbody:
            res = []
            for o, s in out:
                for o2, s2 in self.block(n.finalbody, s, fid):
                    res.append((o if o2[0] == 'next' else o2, s2))
            out = res
        return out

    def handlers(self, n, ex, st, fid):
        for h in n.handlers:
            if h.type is None:
                match = True
            else:
                r = self.ev(h.type, st, fid)
                if len(r) != 1: raise Unsupported("except type")
                c = r[0][1]
                cls = [x.o for x in c.xs] if isinstance(c, Tup) else list(c.o) if isinstance(c.o, tuple) else [c.o]
                match = any(issubclass(ex.cls, k) for k in cls)
                if not match and any(issubclass(k, ex.cls) and k not in getattr(ex, 'excluded', ()) for k in cls):
                    raise Unsupported("exception of unknown subclass")
            if match:
                s = st.copy()
                s.ghost['current_exc'] = ex
                if h.name: s.frames[fid][h.name] = Py(ex)
                before = st.ghost.get('current_exc')
                out = []
                for o, s2 in self.block(h.body, s, fid):
                    s2 = s2.copy()
                    if before is None: s2.ghost.pop('current_exc', None)
                    else: s2.ghost['current_exc'] = before
                    out.append((o, s2))
                return out
        return [(('raise', ex), st)]

    # ------------------------------------------------------------------ loops
    def iter_info(self, st, v, get=None):
        """(seq term, mk(st, elem term, idx term) -> (st, value), guard(st)) for iterables of unknown length."""
        get = get or (lambda s: base_loc(v))
        if isinstance(v, Sc) and isinstance(v.ty, TStr):
            f = z3.Function('chars_', T.String, T.SeqV)
            t = f(v.t)
            def mk(s, x, i):
                c = T.acc('s', x)
                return s.assume(T.tester('StrV', x), z3.Length(c) == 1), Sc(c, StrT)
            return t, mk, None
        if isinstance(v, Loc):
            kd = self.kindof(st, v)
            if kd in ('list', 'oset'):
                t = self.items(st, v)
                e = getattr(self.cur_ty(st, v), 'e', None)
                def mk(s, x, i, e=e):
                    v = get(s)
                    return self.wrap(s, x, e if e is not None else Any, Loc(v.rid, v.path + (('i', i),), e))
                def guard(s, t=t):
                    v = get(s)
                    return self.items(s, v).eq(t) or self.items(s, v) == t
                return t, mk, guard
            if kd == 'dict':
                return self.iter_info(st, View('keys', v), get)
            if kd == 'xdict':
                ks, _ = self.read(st, v)
                def mk(s, x, i): return self.wrap(s, x, self.cur_ty(s, get(s)).k)
                return ks, mk, None
            if kd == 'set':
                f = z3.Function('set_order_', T.SetV, T.SeqV)
                t = f(self.read(st, v))
                e = getattr(self.cur_ty(st, v), 'e', None)
                self.setorder.append((t, self.read(st, v)))
                def mk(s, x, i, e=e, v=v):
                    s = s.assume(T.aselect(self.read(st, v), x))
                    return self.wrap(s, x, e or Any)
                return t, mk, None
        if isinstance(v, View):
            if v.kind in ('keys', 'items', 'values') and isinstance(v.base, Loc) and self.kindof(st, v.base) == 'dict':
                b = v.base
                t = T.acc('keys', self.read(st, b))
                def mk(s, x, i, kind=v.kind):
                    b = get(s)
                    s = s.assume(T.dhas(self.read(s, b), x))
                    if kind == 'keys': return s, Sc(x, StrT)
                    s, val = self.dict_get(s, b, x)
                    return s, (Tup([Sc(x, StrT), val]) if kind == 'items' else val)
                def guard(s, t=t):
                    b = get(s)
                    u = T.acc('keys', self.read(s, b))
                    return u.eq(t) or u == t
                return t, mk, guard
            if v.kind in ('keys', 'items', 'values') and isinstance(v.base, Loc) and self.kindof(st, v.base) == 'xdict':
                b = v.base
                ks, vs = self.read(st, b)
                ty = self.cur_ty(st, b)
                def mk(s, x, i, kind=v.kind, ty=ty):
                    b = get(s)
                    s, kv = self.wrap(s, x, ty.k or Any)
                    if kind == 'keys': return s, kv
                    ks, vs = self.read(s, b)
                    s, val = self.wrap(s, T.aselect(vs, x), ty.v or Any)
                    return s, (Tup([kv, val]) if kind == 'items' else val)
                return ks, mk, None
            if v.kind == 'enumerate':
                r = self.iter_info(st, v.base, get)
                if r is None: return None
                t, mk0, g = r
                off = v.extra or 0
                def mk(s, x, i):
                    s, w = mk0(s, x, i)
                    return s, Tup([mk_int(i + off), w])
                return t, mk, g
            if v.kind == 'reversed':
                r = self.iter_info(st, v.base, get)
                if r is None: return None
                t, mk0, g = r
                rt = T.reversed_(t)
                def mk(s, x, i):
                    return mk0(s, x, T.length(rt) - 1 - i)
                return rt, mk, g
            if v.kind == 'seq':
                e = v.extra
                def mk(s, x, i): return self.wrap(s, x, e or Any)
                return v.base, mk, None
            if v.kind == 'zip' and len(v.base) == 2 and all(isinstance(b, Loc) and self.kindof(st, b) == 'list' for b in v.base):
                # two lists; they are required to be equally long, so that either of them gives the number of rounds
                (t, mk0, g0), (t1, mk1, g1) = [self.iter_info(st, b, lambda s, b=b: b) for b in v.base]
                if t.sort() == T.SeqV and t1.sort() == T.SeqV and self.valid(st, T.length(t) == T.length(t1)):
                    def mk(s, x, i):
                        s, a = mk0(s, x, i)
                        s, b = mk1(s, t1[i], i)
                        return s, Tup([a, b])
                    return t, mk, lambda s: z3.And(g0(s), g1(s))
            if v.kind == 'range':
                lo, hi, step = v.base
                if isinstance(lo, Py) and lo.o == 0 and isinstance(step, Py) and step.o == 1 and is_int(hi):
                    h = hi.t
                    if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
                        t = h.arg(0)
                        if t.sort() == T.SeqV:
                            def mk(s, x, i): return s, mk_int(i)
                            return t, mk, None
                    f = z3.Function('range_', T.Int, T.SeqV)
                    t = f(h)
                    def mk(s, x, i): return s.assume(i < h), mk_int(i)
                    return t, mk, None
        return None

    def st_For(self, n, st, fid):
        out = []
        for s, v in self.ev(n.iter, st, fid):
            if isinstance(v, Exc):
                out.append((('raise', v), s))
                continue
            for s2, w in self.force(s, v):
                if isinstance(w, Sc) and not isinstance(w.ty, TStr) or isinstance(w, Py) and not hasattr(w.o, '__iter__'):
                    if isinstance(w, Sc) and isinstance(w.ty, (TOther,)): raise Unsupported("iteration over unknown object")
                    out.append((('raise', Exc(TypeError)), s2))
                    continue
                sp = self.spine(s2, w)
                if sp is not None:
                    out += self.unroll(n, s2, fid, sp, w)
                    continue
                self.nit += 1
                it = '%%it%d' % self.nit
                bl = base_loc(w)
                if bl is not None:
                    s2 = s2.copy()
                    s2.frames[fid][it] = bl
                def get(z, it=it):
                    v = z.frames[fid].get(it)
                    if v is None or v is Undef: raise Unsupported("container changed while iterated")
                    return v
                nso = len(self.setorder)
                info = self.iter_info(s2, w, get)
                for t, S in self.setorder[nso:]:         # the iteration visits the elements of the set, each of them once
                    k = z3.Const('k', V)
                    s2 = s2.assume(z3.ForAll([k], T.member(t, k) == T.aselect(S, k)))
                if info is None:
                    raise Unsupported("iteration over %r" % (w,))
                inplace = w.rid if isinstance(w, Loc) and not w.path and not isinstance(w.rid, tuple) and s2.roots.get(w.rid) and s2.roots[w.rid].kind == 'v' else None
                for o, y in self.cut_for(n, s2, fid, *info, inplace=inplace):
                    if bl is not None:
                        y = y.copy()
                        y.frames[fid].pop(it, None)
                    out.append((o, y))
        return out

    def unroll(self, n, st, fid, sp, src):
        live, out, brk = [st], [], []
        for x in sp:
            nxt = []
            for s in live:
                for o, s1 in self.assign(n.target, x, s, fid):
                    if o[0] != 'next':
                        out.append((o, s1))
                        continue
                    for o2, s2 in self.block(n.body, s1, fid):
                        if o2[0] in ('next', 'cont'): nxt.append(s2)
                        elif o2[0] == 'break': brk.append(s2)
                        else: out.append((o2, s2))
            live = nxt
            if len(live) > self.max_paths: raise Unsupported("too many paths")
        for s in live:
            out += self.block(n.orelse, s, fid) if n.orelse else [(('next',), s)]
        return out + [(('next',), s) for s in brk]

    # ---- havoc and comparison of states
    def changed(self, a, b):
        """Names of what differs between two states."""
        ch = set()
        for f in a.frames:
            for k in set(a.frames[f]) | set(b.frames.get(f, {})):
                x, y = a.frames[f].get(k), b.frames[f].get(k)
                if x is y: continue
                if isinstance(x, Sc) and isinstance(y, Sc) and x.t.eq(y.t) and same_ty(x.ty, y.ty): continue
                if isinstance(x, Py) and isinstance(y, Py) and type(x.o) == type(y.o) and (x.o is y.o or x.o == y.o): continue
                if isinstance(x, Loc) and isinstance(y, Loc) and x.rid == y.rid and len(x.path) == len(y.path) and all(p[1].eq(q[1]) for p, q in zip(x.path, y.path)): continue
                ch.add(('v', f, k))
        for r in a.roots:
            x, y = a.roots[r], b.roots[r]
            if x is y: continue
            if isinstance(x.t, tuple):
                if all(p.eq(q) for p, q in zip(x.t, y.t)) and same_ty(x.ty, y.ty): continue
            elif x.t.eq(y.t) and same_ty(x.ty, y.ty): continue
            ch.add(('r', r))
        for f in a.fields:
            if not a.fields[f].eq(b.fields[f]): ch.add(('f', f))
        for r in b.moved:
            if r in a.roots and r not in a.moved: ch.add(('m', r))
        return ch

    def havoc(self, st, mod, types, n_iter):
        """Arbitrary values for everything the loop may change."""
        s = st.copy()
        for m in sorted(mod, key=repr):
            if m[0] == 'v':
                _, f, k = m
                v = st.frames[f].get(k)
                ty = types.get(m)
                if v is None or v is Undef or ty is Undef:
                    s.frames[f][k] = Undef
                    continue
                if isinstance(v, Loc):
                    if ty == 'snap':
                        rid0, P0 = self.resolve(st, v)
                        k0 = 'list' if isinstance(v.ty, TList) else 'dict'
                        self.rid += 1
                        s.roots[self.rid] = Root('v', self.fresh_root('v', v.ty, k.strip('%')), v.ty)
                        s.frozen[self.rid] = (rid0, P0)
                        s.frames[f][k] = Loc(self.rid, (), v.ty)
                    elif not v.path and not isinstance(v.rid, tuple) and self.kindof(st, v) in ('list', 'oset', 'dict', 'set'):
                        r = st.roots[v.rid]
                        s2, loc = self.new_root(s, r.kind, self.fresh_root(r.kind, r.ty, k), types.get(('rt', m), r.ty))
                        s = s2
                        s.frames[f][k] = loc
                    else:
                        s.frames[f][k] = Undef
                    continue
                if isinstance(v, (Sc, Py)):
                    t = ty or self.value_ty(st, v)
                    if isinstance(t, (TAny, TUnion)):
                        c = T.fresh(k, V)
                        s = s.assume(type_pred(t, c)) if isinstance(t, TUnion) else s
                        s.frames[f][k] = Sc(c, t)
                    elif isinstance(t, TNone): s.frames[f][k] = v
                    elif isinstance(t, (TInt, TStr, TBool, TObj)): s.frames[f][k] = Sc(T.fresh(k, sort_of(t)), t)
                    else: s.frames[f][k] = Undef
                    continue
                s.frames[f][k] = Undef
            elif m[0] == 'r':
                r = st.roots[m[1]]
                ty = types.get(m, r.ty)
                s.roots[m[1]] = Root(r.kind, self.fresh_root(r.kind, ty, 'root%d' % m[1]), ty)
            elif m[0] == 'f':
                s.fields[m[1]] = T.fresh('fld_%s' % '_'.join(m[1][1:]), st.fields[m[1]].sort())
            elif m[0] == 'm':
                raise Unsupported("container moved inside a loop")
        return s

    def loc_havoc(self, st, s, c, a, b):
        """How to describe a handle that a loop moves: 'snap' (detached or where it was), 'root' (an own container), Undef"""
        if b.rid in self.detached and not b.path and isinstance(a.ty, (TList, TDict)): return 'snap'
        if b.rid in s.frozen and s.frozen[b.rid] is not None:
            try: ra, Pa = self.resolve(st, a)
            except Unsupported: return Undef
            o = s.frozen[b.rid]
            if o[0] == ra and o[1] is not None and len(o[1]) == len(Pa) and all(x[1].eq(y[1]) for x, y in zip(o[1], Pa)): return 'snap'
            return Undef
        if b.path or a.path: return Undef
        for f, env in s.frames.items():
            for k, v in env.items():
                if (f, k) != (c[1], c[2]) and isinstance(v, Loc) and v.rid == b.rid: return Undef
        if b.rid in s.moved or b.rid in st.roots: return Undef
        return 'root'

    def fresh_root(self, kind, ty, nm):
        if kind == 'v':
            if isinstance(ty, TDict): return V.DictV(T.fresh(nm + '_keys', T.SeqS), T.fresh(nm + '_vals', z3.ArraySort(T.String, V)))
            return V.ListV(T.fresh(nm, T.SeqV))
        if kind == 'oset': return T.fresh(nm, T.SeqV)
        if kind == 'set': return T.fresh(nm, T.SetV)
        if kind == 'xdict': return (T.fresh(nm + '_keys', T.SeqV), T.fresh(nm + '_vals', z3.ArraySort(V, V)))
        raise Unsupported("havoc of %s" % kind)

    def auto_cands(self, head, entry, mod):
        """x == x at entry, for everything the loop may change."""
        out = {}
        for m in mod:
            try:
                if m[0] == 'v':
                    a, b = head.frames[m[1]].get(m[2]), entry.frames[m[1]].get(m[2])
                    if isinstance(a, (Sc, Py)) and isinstance(b, (Sc, Py)):
                        out['same:%s@%d' % (m[2], m[1])] = self.eq(head, a, b)
                    elif isinstance(a, Loc) and isinstance(b, Loc):
                        ta, tb = self.read(head, a), self.read(entry, b)
                        if not isinstance(ta, tuple): out['same:%s@%d' % (m[2], m[1])] = ta == tb
                elif m[0] == 'r':
                    a, b = head.roots[m[1]].t, entry.roots[m[1]].t
                    if isinstance(a, tuple): out['same:r%d' % m[1]] = z3.And(*[x == y for x, y in zip(a, b)])
                    else:
                        if T.is_app(a, 'ListV') and T.is_app(b, 'ListV'):
                            out['same:r%d' % m[1]] = T.acc('items', a) == T.acc('items', b)
                        elif T.is_app(a, 'DictV') and T.is_app(b, 'DictV'):
                            out['same:r%d.keys' % m[1]] = T.acc('keys', a) == T.acc('keys', b)
                            out['same:r%d.vals' % m[1]] = T.acc('vals', a) == T.acc('vals', b)
                        else: out['same:r%d' % m[1]] = a == b
                elif m[0] == 'f':
                    out['same:%s' % '.'.join(m[1])] = head.fields[m[1]] == entry.fields[m[1]]
            except Unsupported:
                pass
        return out

    def all_cands(self, head, entry, mod, lvs):
        c = self.auto_cands(head, entry, mod)
        if self.cur is not None:
            for i, lv in enumerate(lvs):
                try:
                    more = self.cur.cands(lv) or {}
                except Unsupported:
                    more = {}
                for k, f in more.items():
                    c['%d:%s' % (i, k)] = f
        return c

    def cut_for(self, n, st, fid, seq, mk, guard, inplace=None):
        """inplace: the root of a list whose elements the body may change while it visits them.  The list is then D, as long as what was visited, and
        the elements of seq that are still to come; the guard finds that again after the body."""
        esort = seq.sort().basis()
        outer = self.loopstack[-1] if self.loopstack else None
        now = [None]

        def still(s):
            g = guard(s)
            if g is True or now[0] is None: return g
            ps = T.parts(T.acc('items', s.roots[inplace].t))
            rest, n_ = now[0]
            if not ps or not ps[-1].eq(rest): return g
            return T.length(T.from_parts(ps[:-1], seq.sort())) == n_ + 1

        def views(s, done):
            return [LoopView(self, s, st, done, seq, T.length(done), outer, n)]

        def body(head, done_):
            x = T.fresh('x', esort)
            rest = T.fresh('rest', seq.sort())
            s = head.assume(seq == T.concat(done_, T.unit(x), rest), T.member(seq, x), z3.Length(seq) > T.length(done_))
            if T.spine(seq) is None: s = s.assume(seq[T.length(done_)] == x)
            if esort == T.String: s = s.assume(z3.Not(T.member(done_, x)))       # the keys of a dict are distinct
            if esort == V: s = s.assume(*T.strset_facts(done_, T.acc('s', x)))
            if self.cur is not None:
                for f in (self.cur.elem_facts(self, s, seq, done_, x, rest) or []):
                    s = s.assume(f)
            nd = T.concat(done_, T.unit(x))
            at = T.length(done_)
            now[0] = None
            if inplace is not None and inplace not in s.moved and not s.roots[inplace].t.eq(st.roots[inplace].t) and T.is_app(s.roots[inplace].t, 'ListV'):
                D = T.fresh('visited', seq.sort())
                there = T.concat(D, T.unit(x), rest)
                s = s.assume(T.length(D) == T.length(done_), T.acc('items', s.roots[inplace].t) == there)
                r = s.roots[inplace]
                s = s.copy()
                s.roots[inplace] = Root(r.kind, V.ListV(there), r.ty)
                now[0] = (rest, T.length(done_))
                at = T.length(D)
            s, v = mk(s, x, at)
            res = []
            for o, s1 in self.assign(n.target, v, s, fid):
                if o[0] != 'next':
                    res.append((o, s1))
                    continue
                res += self.block(n.body, s1, fid)
            return nd, res

        mod0 = set()
        names, nl, gl = assigned([ast.Assign(targets=[n.target], value=ast.Constant(None))] + n.body)
        return self.cut(n, st, fid, views, body, lambda h: T.fresh('done', seq.sort()), T.empty(seq.sort()), seq, names, guard and still,
                        lambda s, d: [(s, True)], inplace)

    def st_While(self, n, st, fid):
        """while loop; index loops over an unmodified list get a ghost prefix."""
        outer = self.loopstack[-1] if self.loopstack else None
        entry = st
        # first test known?
        names, nl, gl = assigned(n.body)
        cnt = [0]

        def views(s, done):
            out = [LoopView(self, s, st, None, None, None, outer, n, n=done)]
            ints = []
            for nm, v in out[0].vars():
                if is_int(v) and nm.split('@')[0] in names: ints.append((nm, st_term(v)))
            for nm, q in out[0].lists():
                eq = out[0].entry_list(nm)
                if eq is None or not eq.eq(q): continue
                for inm, i in ints:
                    lv = LoopView(self, s, st, self.take_pref(q, i), q, i, outer, n, n=done)
                    lv.idxname = inm
                    out.append(lv)
            return out

        def body(head, done_):
            s = head.assume(done_ >= 0)
            res = []
            for s1, v in self.ev(n.test, s, fid):
                if isinstance(v, Exc):
                    res.append((('raise', v), s1))
                    continue
                for s2, br in self.branch(s1, v):
                    if br:
                        s2 = self.prefix_facts(s2, views(s2, done_))
                        res += self.block(n.body, s2, fid)
            return done_ + 1, res

        def exits(s, d):
            out = []
            for s1, v in self.ev(n.test, s, fid):
                if isinstance(v, Exc): continue
                for s2, br in self.branch(s1, v):
                    if not br: out.append((self.exit_facts(s2, views(s2, d)), True))
            return out

        return self.cut(n, st, fid, views, body, lambda h: T.fresh('n', T.Int), z3.IntVal(0), None, names, None, exits)

    def take_pref(self, q, i):
        i = z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() == 0: return T.empty(q.sort())
        return self.takef(q, i)

    def takef(self, q, i):
        """take(q, i) as a snoc when i = j + 1 and q[j] is known"""
        key = (q.get_id(), i.get_id())
        for (q0, i0, t) in self.taken:
            if q0.eq(q) and T.int_eq(i0, i): return t
        f = z3.Function('take_' + q.sort().basis().sexpr(), q.sort(), T.Int, q.sort())
        return f(q, i)

    def prefix_facts(self, s, lvs):
        """inside an index loop: take(q, i+1) = take(q, i) ++ [q[i]] while i < len q"""
        for lv in lvs:
            if lv.seq is None: continue
            q, i = lv.seq, lv.idx
            inb = z3.And(i >= 0, i < T.length(q))
            if not self.valid(s, inb, 1000): continue
            x = T.fresh('x', q.sort().basis())
            rest = T.fresh('rest', q.sort())
            d = lv.done
            s = s.assume(q == T.concat(d, T.unit(x), rest), T.length(d) == i, T.nth(q, i) == x, T.member(q, x))
            if self.cur is not None:
                for f in (self.cur.elem_facts(self, s, q, d, x, rest) or []):
                    s = s.assume(f)
            self.taken.append((q, z3.simplify(i + 1), T.concat(d, T.unit(x))))
        return s

    def exit_facts(self, s, lvs):
        for lv in lvs:
            if lv.seq is None: continue
            q, i = lv.seq, lv.idx
            if self.valid(s, i == T.length(q), 1000):
                s = s.assume(lv.done == q)
        return s

    def loop_shares(self, st, s):
        """what an iteration shares, as the next one finds it: (root, anywhere in it, depth)"""
        out = []
        for rid, path, depth in s.shared:
            if (rid, path, depth) in st.shared: continue
            try: r2, pre = self.resolve(s, Loc(rid, (), None))
            except Unsupported: continue
            e = (r2, None, min(len(pre) + depth, 4))
            if (r2 in st.roots or isinstance(r2, tuple)) and e not in st.shared and e not in out: out.append(e)
        return out

    def cut(self, n, st, fid, views, body, mkdone, done0, seq, names, guard, exits, inplace=None):
        mod = set(('v', fid, k) for k in names)
        types = {}
        # -- what does the loop change, and with which types (fixpoint)
        for rnd in range(12):
            self.dry += 1
            try:
                head = self.havoc(st, mod, types, rnd)
                d = mkdone(head)
                lv = views(head, d)
                self.loopstack.append(lv[-1])
                try:
                    nd, res = body(head, d)
                finally:
                    self.loopstack.pop()
            finally:
                self.dry -= 1
            grew = False
            for o, s in res:
                if o[0] not in ('next', 'cont', 'break'): continue
                ch = {c for c in self.changed(head, s) if c[0] != 'v' or c[1] in st.frames}
                ch = {c for c in ch if (c[0] != 'r' and c[0] != 'm') or c[1] in st.roots}
                if o[0] != 'break':
                    new_shares = self.loop_shares(st, s)
                    if new_shares:
                        st = st.copy()
                        st.shared += new_shares
                        grew = True
                    for c in ch:
                        if c[0] == 'v':
                            a = st.frames[c[1]].get(c[2])
                            b = s.frames[c[1]].get(c[2])
                            if a is None or a is Undef: continue
                            if isinstance(b, (Sc, Py)) and isinstance(a, (Sc, Py)) and b is not Undef:
                                j = join_ty(types.get(c) if types.get(c) is not Undef and types.get(c) is not None else self.value_ty(st, a), self.value_ty(s, b))
                                if types.get(c) is None or types.get(c) is not Undef and not same_ty(j, types[c]):
                                    types[c] = j; grew = True
                            elif isinstance(a, Loc) and isinstance(b, Loc):
                                w = self.loc_havoc(st, s, c, a, b)
                                if types.get(c) is not Undef and types.get(c) != w:
                                    types[c] = w; grew = True
                            elif types.get(c) is not Undef:
                                types[c] = Undef; grew = True
                        elif c[0] == 'r':
                            j = join_ty(types.get(c, st.roots[c[1]].ty), s.roots[c[1]].ty)
                            if c not in types or not same_ty(j, types[c]):
                                types[c] = j; grew = True
                new = ch - mod
                if new:
                    mod |= new
                    grew = True
            if not grew: break
        else:
            raise Unsupported("loop analysis does not converge")
        # -- candidates that hold on entry
        init_views = views(st, done0)
        if self.cur is not None:
            for lv in init_views: st = st.assume(*self.cur.loop_facts(lv))
        dropped = set()
        cands0 = self.all_cands(st, st, mod, init_views)
        keep = set()
        for k, f in cands0.items():
            if self.valid(st, f, 2000): keep.add(k)
            elif DEBUG: print('  not initially', k, f)
        # -- Houdini
        for rnd in range(30):
            self.dry += 1
            try:
                d = mkdone(None)
                head = self.mkhead(st, mod, types, views, d, keep)
                lv = views(head, d)
                self.loopstack.append(lv[-1])
                try:
                    nd, res = body(head, d)
                finally:
                    self.loopstack.pop()
                bad, stays = set(), True
                for o, s in res:
                    if o[0] not in ('next', 'cont'): continue
                    if guard is not None:
                        g = guard(s)
                        if g is not True and not self.valid(s, g): stays = False
                    cs = self.all_cands(s, st, mod, views(s, nd))
                    for k in keep - bad:
                        if k not in cs or not self.valid(s, cs[k], self.inv_ms):
                            bad.add(k)
                            if DEBUG: print('  drop', k, 'line', n.lineno, cs.get(k), '\n      pc', s.pc[len(st.pc):])
            finally:
                self.dry -= 1
            if 'same:r%s' % inplace in bad: bad = {'same:r%s' % inplace}        # the others are judged with what is known of a list that changes
            if not bad and not stays: raise Unsupported("container changed while iterated")
            if not bad: break
            keep -= bad
        else:
            raise Unsupported("invariant inference does not converge")
        self.trace.append((n.lineno, sorted(keep)))
        for k in sorted(keep):
            self.inv_count += 1
        # -- final pass: obligations of the body, outcomes that leave the loop
        d = mkdone(None)
        head = self.mkhead(st, mod, types, views, d, keep)
        lv = views(head, d)
        self.loopstack.append(lv[-1])
        try:
            nd, res = body(head, d)
        finally:
            self.loopstack.pop()
        out = []
        for o, s in res:
            if o[0] == 'break': out.append((('next',), s))
            elif o[0] in ('ret', 'raise'): out.append((o, s))
        # -- normal exit
        dexit = seq if seq is not None else mkdone(None)
        head = self.mkhead(st, mod, types, views, dexit, keep)
        for s, _ in exits(head, dexit):
            out += self.block(n.orelse, s, fid) if n.orelse else [(('next',), s)]
        return out

    def mkhead(self, st, mod, types, views, d, keep):
        head = self.havoc(st, mod, types, 0)
        cs = self.all_cands(head, st, mod, views(head, d))
        fs = [cs[k] for k in sorted(keep) if k in cs]
        # equations for havocked constants are substituted
        subs = []
        rest = []
        fresh_ids = self.havoc_consts(st, head, mod)
        for f in fs:
            done = False
            if z3.is_eq(f):
                for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.get_id() in fresh_ids and not any(a.eq(x) for x, _ in subs):
                        b2 = z3.substitute(b, *subs) if subs else b
                        if occurs(a, b2) : continue
                        subs = [(x, T.renorm(z3.substitute(y, (a, b2)))) for x, y in subs] + [(a, b2)]
                        done = True
                        break
            elif z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.get_id() in fresh_ids:
                subs.append((f, z3.BoolVal(True))); done = True
            elif z3.is_not(f) and z3.is_const(f.arg(0)) and f.arg(0).get_id() in fresh_ids:
                subs.append((f.arg(0), z3.BoolVal(False))); done = True
            if not done: rest.append(f)
        if self.cur is not None:
            for lv in views(head, d): rest += self.cur.loop_facts(lv)
        if subs:
            sub = lambda t: T.renorm(z3.substitute(t, *subs))
            s = head.copy()
            for m in mod:
                if m[0] == 'v':
                    v = s.frames[m[1]].get(m[2])
                    if isinstance(v, Sc):
                        t = sub(v.t)
                        s.frames[m[1]][m[2]] = Sc(t, v.ty, v.loc)
                        if z3.is_true(t) or z3.is_false(t): s.frames[m[1]][m[2]] = Py(z3.is_true(t))
                        elif z3.is_int_value(t): s.frames[m[1]][m[2]] = Py(t.as_long())
                    elif isinstance(v, Loc) and not v.path and v.rid in s.roots:
                        r = s.roots[v.rid]
                        s.roots[v.rid] = Root(r.kind, tuple(sub(x) for x in r.t) if isinstance(r.t, tuple) else sub(r.t), r.ty)
                elif m[0] == 'r':
                    r = s.roots[m[1]]
                    s.roots[m[1]] = Root(r.kind, tuple(sub(x) for x in r.t) if isinstance(r.t, tuple) else sub(r.t), r.ty)
                elif m[0] == 'f':
                    s.fields[m[1]] = sub(s.fields[m[1]])
            s.pc = s.pc[:len(st.pc)] + [sub(p) for p in s.pc[len(st.pc):]]
            for f in rest: s.pc.append(sub(f))
            return s
        return head.assume(*rest)

    def havoc_consts(self, st, head, mod):
        ids = set()

        def add(t):
            if isinstance(t, tuple):
                for x in t: add(x)
            elif z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: ids.add(t.get_id())
            elif T.is_app(t, 'ListV') or T.is_app(t, 'DictV'):
                for i in range(t.num_args()): add(t.arg(i))
        for m in mod:
            if m[0] == 'v':
                v = head.frames[m[1]].get(m[2])
                if isinstance(v, Sc): add(v.t)
                elif isinstance(v, Loc) and not v.path and v.rid in head.roots and v.rid not in st.roots: add(head.roots[v.rid].t)
            elif m[0] == 'r': add(head.roots[m[1]].t)
            elif m[0] == 'f': add(head.fields[m[1]])
        return ids


def occurs(c, t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(c): return True
        todo += x.children()
    return False
