"""Calls: built-ins, methods, repository functions (contract or inlining), external models."""
import ast
import builtins
import inspect
import os
import re
import types as pytypes
import z3
from . import terms as T
from .types import *
from .core import *
from .expr import is_str, is_int, is_bool, st_term, mk_str, mk_int, mk_bool, TDict2, py_string
from .stmt import assigned

V = T.V


def ascii_only(t): return z3.InRe(t, z3.Star(z3.Range(chr(0), chr(127))))


def uf(name, *sorts):
    return z3.Function(name, *sorts)


REPLACE_ALL = uf('replace_all', T.String, T.String, T.String, T.String)


class CallMixin:
    nested = ()       # contracts on functions defined inside others

    def ev_Call(self, e, st, fid):
        fn = e.func
        # any(genexpr), all(genexpr) keep their short circuit
        if isinstance(fn, ast.Name) and fn.id in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            v = self.lookup(st, fid, fn.id)
            if isinstance(v, Py) and v.o in (any, all):
                return self.any_all(e.args[0], st, fid, v.o is any)
        if isinstance(fn, ast.Attribute) and fn.attr == 'join' and isinstance(fn.value, ast.Constant) and fn.value.value == '' and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and len(e.args[0].generators) == 1 and isinstance(e.args[0].generators[0].target, ast.Name):
            outs = self.ev(e.args[0].generators[0].iter, st, fid)
            if len(outs) == 1 and is_str(outs[0][1]) and not isinstance(outs[0][1], Py):
                from .strops import char_join
                return [(outs[0][0], Sc(char_join(self, outs[0][0], fid, e.args[0], outs[0][1]), StrT))]
        if isinstance(fn, ast.Name) and fn.id == 'super':
            raise Unsupported("super")
        out = []
        for s, f in self.ev(fn, st, fid):
            if isinstance(f, Exc):
                out.append((s, f))
                continue
            kwn = [k.arg for k in e.keywords]
            if None in kwn: raise Unsupported("** arguments")
            for s2, vs in self.evs(list(e.args) + [k.value for k in e.keywords], s, fid, star=True):
                if isinstance(vs, Exc):
                    out.append((s2, vs))
                    continue
                n = len(vs) - len(kwn)
                if any(isinstance(v, Star) for v in vs) and not (isinstance(f, Py) and isinstance(f.o, pytypes.FunctionType) and getattr(self.models.get(f.o), 'takes_star', False)):
                    raise Unsupported("starred value of unknown length")
                out += self.call(s2, f, vs[:n], dict(zip(kwn, vs[n:])), e)
        return out

    # ------------------------------------------------------------------
    def call(self, st, f, args, kw, node):
        if isinstance(f, Clo):
            for c in self.nested:
                if c.applies(self, f):
                    self.called.add(c.name)
                    return c.call(self, st, f, args, kw, node)
            return self.inline(st, f, args, kw, node)
        if isinstance(f, Bound):
            return self.method(st, f.obj, f.name, args, kw, node)
        if isinstance(f, Sc) and isinstance(f.ty, TAny):
            out = []
            for s, g in self.force(st, f):
                if isinstance(g, (Py, Clo)): out += self.call(s, g, args, kw, node)
                else: raise Unsupported("call of an unknown value")
            return out
        if isinstance(f, Sc) and isinstance(f.ty, TFun):
            return f.ty.apply(self, st, f, args, kw)
        if not isinstance(f, Py):
            raise Unsupported("call of %r" % (f,))
        o = f.o
        try:
            m = self.models.get(o)
        except TypeError:
            m = None
        if m is not None:
            return m(self, st, args, kw, node)
        if isinstance(o, type):
            return self.call_type(st, o, args, kw, node)
        if isinstance(o, pytypes.BuiltinFunctionType) and hasattr(builtins, o.__name__) and getattr(builtins, o.__name__) is o:
            h = getattr(self, 'bi_' + o.__name__, None)
            if h is None: raise Unsupported("builtin %s" % o.__name__)
            return h(st, args, kw)
        if type(o).__name__ == 'memoize' and hasattr(o, 'func'):
            self.assumed.add("memoised function %s: arguments are immutable, the cache returns what the function returned" % o.func.__name__)
            return self.call_fn(st, o.func, args, kw, node)
        if isinstance(o, pytypes.FunctionType):
            return self.call_fn(st, o, args, kw, node)
        if isinstance(o, pytypes.MethodType):
            return self.call_fn(st, o.__func__, [Py(o.__self__)] + args, kw, node)
        if o is print:
            return [(st, Py(None))]
        # concrete call of a pure builtin
        raise Unsupported("call of %r" % (o,))

    def repo_fn(self, fn):
        fn = inspect.unwrap(fn)
        if fn.__code__.co_filename.startswith('js:'): return True
        p = os.path.realpath(fn.__code__.co_filename)
        return p.startswith(os.path.realpath(self.repo) + os.sep) or p.startswith('/verif/pyvc/selftest')

    def call_fn(self, st, fn, args, kw, node):
        base = inspect.unwrap(fn)
        c = self.contracts.get(base)
        if c is not None and (c is not self.cur or self.allow_rec):
            self.called.add(c.name)
            return c.apply(self, st, self.bind(fn, args, kw, st), node)
        if not self.repo_fn(base):
            raise Unsupported("call of %s.%s without a model" % (base.__module__, base.__name__))
        if self.cur is not None and base is inspect.unwrap(self.cur.fn):
            raise Unsupported("recursive call without a contract")
        self.inlined.add(base.__module__ + '.' + base.__qualname__)
        node_ = self.source(base)
        glob = base.__globals__
        d = {}
        ps = node_.args.args
        for name, val in zip([p.arg for p in ps][len(ps) - len(base.__defaults__ or ()):], base.__defaults__ or ()):
            d[name] = Py(val)
        for k, val in (base.__kwdefaults__ or {}).items(): d[k] = Py(val)
        clo = Clo(node_, None, glob, base.__qualname__, d)
        return self.inline(st, clo, args, kw, node)

    def bind(self, fn, args, kw, st):
        """name -> value"""
        base = inspect.unwrap(fn)
        sig = inspect.signature(base)
        try:
            b = sig.bind(*args, **kw)
        except TypeError:
            return None
        out = {}
        for p in sig.parameters.values():
            if p.name in b.arguments:
                v = b.arguments[p.name]
                if p.kind == p.VAR_POSITIONAL: v = Tup(list(v))
                out[p.name] = v
            elif p.default is not p.empty: out[p.name] = Py(p.default)
            elif p.kind == p.VAR_POSITIONAL: out[p.name] = Tup([])
        return out

    def inline(self, st, clo, args, kw, node):
        self.depth += 1
        if self.depth > 40:
            self.depth = 0
            raise Unsupported("inlining depth")
        try:
            return self.inline1(st, clo, args, kw, node)
        finally:
            self.depth -= 1

    def inline1(self, st, clo, args, kw, node):
        n = clo.node
        a = n.args
        if a.kwarg: raise Unsupported("** parameter")
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and not a.vararg: return [(st, Exc(TypeError))]
        for p, v in zip(names, args): env[p] = v
        if a.vararg: env[a.vararg.arg] = Tup(args[len(names):])
        for k, v in kw.items():
            if k in env or k not in names + [p.arg for p in a.kwonlyargs]: return [(st, Exc(TypeError))]
            env[k] = v
        for p in names + [p.arg for p in a.kwonlyargs]:
            if p not in env:
                if p in clo.defaults: env[p] = clo.defaults[p]
                else: return [(st, Exc(TypeError))]
        if isinstance(n, ast.Lambda):
            st = st.copy()
            f = self.new_frame(st, clo.fid, clo.glob, set(env))
            st.frames[f] = env
            st.fmeta[f]['nonlocal'] = ()
            res = []
            for s, v in self.ev(n.body, st, f): res.append((self.drop_frame(s, f, v), v))
            return res
        locs, nl, gl = assigned(n.body)
        st = st.copy()
        f = self.new_frame(st, clo.fid, clo.glob, locs | set(env))
        st.frames[f] = env
        st.fmeta[f]['nonlocal'] = nl
        st.fmeta[f]['globaldecl'] = gl
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.own_nodes(n)):
            return self.inline_gen(st, n, f)
        out = []
        for o, s in self.block(n.body, st, f):
            if o[0] == 'next': out.append((self.drop_frame(s, f, None), Py(None)))
            elif o[0] == 'ret': out.append((self.drop_frame(s, f, o[1]), o[1]))
            elif o[0] == 'raise': out.append((self.drop_frame(s, f, None), o[1]))
            else: raise Unsupported("break outside loop")
        return out

    def own_nodes(self, n):
        todo = list(n.body)
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.Lambda)): continue
            todo += list(ast.iter_child_nodes(x))

    def inline_gen(self, st, n, f):
        """A generator is run to completion into a list (its consumer does not interfere with it)."""
        st, loc = self.new_root(st, 'v', V.ListV(T.empty()), TList(None))
        st.frames[f]['__yield'] = loc
        out = []
        for o, s in self.block(n.body, st, f):
            if o[0] in ('next', 'ret'): out.append((s, loc))
            elif o[0] == 'raise': out.append((s, o[1]))
        return out

    def ev_Yield(self, e, st, fid):
        out = []
        f = fid
        for s, v in (self.ev(e.value, st, fid) if e.value else [(st, Py(None))]):
            if isinstance(v, Exc): out.append((s, v)); continue
            loc = s.frames[fid].get('__yield')
            if loc is None: raise Unsupported("yield")
            out.append((self.list_append(s, loc, v), Py(None)))
        return out

    def drop_frame(self, st, f, v):
        # closures may refer to the frame
        return st

    # ------------------------------------------------------------------ classes
    def call_type(self, st, o, args, kw, node):
        if issubclass(o, BaseException):
            return [(st, Py(Exc(o, None, args)))]
        h = getattr(self, 'ty_' + o.__name__, None)
        if h is not None and getattr(builtins, o.__name__, None) is o:
            return h(st, args, kw)
        if o.__name__ == 'OrderedSet':
            self.assumed.add("OrderedSet behaves as an insertion-ordered set (its own implementation is checked separately)")
            st, loc = self.new_root(st, 'oset', T.empty(), TOSet(None))
            if args:
                return [(s, loc) for s, _ in self.oset_update(st, loc, args[0])]
            return [(st, loc)]
        if o.__name__ in self.classes:
            return self.construct(st, o, args, kw, node)
        raise Unsupported("class %s" % o.__name__)

    def construct(self, st, cls, args, kw, node):
        st = st.copy()
        oid = T.fresh('new_' + cls.__name__, T.Int)
        key = ('alive', cls.__name__)
        alive = st.fields.get(key)
        if alive is None: raise Unsupported("no heap for %s" % cls.__name__)
        st.pc.append(z3.Not(z3.Select(alive, oid)))
        st.fields[key] = z3.Store(alive, oid, z3.BoolVal(True))
        obj = Sc(oid, TObj(cls.__name__))
        out = []
        for s, r in self.call_fn(st, cls.__init__, [obj] + args, kw, node):
            out.append((s, r if isinstance(r, Exc) else obj))
        return out

    # ------------------------------------------------------------------ builtins
    def bi_len(self, st, args, kw):
        out = []
        for s, v in self.force(st, args[0]):
            if isinstance(v, Py):
                try: out.append((s, Py(len(v.o))))
                except TypeError: out.append((s, Exc(TypeError)))
            elif isinstance(v, Tup): out.append((s, Py(len(v.xs))))
            elif is_str(v): out.append((s, mk_int(z3.Length(st_term(v)))))
            elif isinstance(v, Loc):
                k = self.kindof(s, v)
                if k in ('list', 'oset'): out.append((s, mk_int(T.length(self.items(s, v)))))
                elif k == 'dict': out.append((s, mk_int(T.length(T.acc('keys', self.read(s, v))))))
                elif k == 'xdict': out.append((s, mk_int(T.length(self.read(s, v)[0]))))
                else:
                    f = uf('card_', T.SetV, T.Int)
                    out.append((s, mk_int(f(self.read(s, v)))))
            elif is_int(v) or is_bool(v): out.append((s, Exc(TypeError)))
            else: raise Unsupported("len of %r" % (v,))
        return out

    class_tests = {}      # class -> (state, object id, class) -> formula of isinstance: objects of several classes behind one type

    def inst_formula(self, st, v, c):
        """formula isinstance(v, c) or None"""
        if isinstance(v, Py): return z3.BoolVal(isinstance(v.o, c))
        pt = self.pytype(st, v) if not (isinstance(v, Sc) and sort_of(v.ty) is V) else None
        if pt is not None and pt is not object: return z3.BoolVal(issubclass(pt, c))
        if isinstance(v, Sc) and isinstance(v.ty, TObj):
            if v.ty.cls in self.class_tests: return self.class_tests[v.ty.cls](st, v.t, c)
            co = self.class_objs.get(v.ty.cls)
            return z3.BoolVal(co is not None and issubclass(co, c))
        if isinstance(v, Sc):
            m = {str: 'StrV', list: 'ListV', dict: 'DictV', tuple: 'TupV', type(None): 'NoneV'}
            if c in m: return T.tester(m[c], v.t)
            if c is bool: return T.tester('BoolV', v.t)
            if c is int: return z3.Or(T.tester('IntV', v.t), T.tester('BoolV', v.t))
        raise Unsupported("isinstance of %r" % (c,))

    def bi_isinstance(self, st, args, kw):
        c = args[1]
        cs = [x.o for x in c.xs] if isinstance(c, Tup) else list(c.o) if isinstance(c.o, tuple) else [c.o]
        fs = [self.inst_formula(st, args[0], k) for k in cs]
        return [(st, mk_bool(z3.Or(*fs)))]

    TYPES = [(type(None), 'NoneV'), (bool, 'BoolV'), (int, 'IntV'), (str, 'StrV'), (list, 'ListV'), (dict, 'DictV'), (tuple, 'TupV')]

    def ty_type(self, st, args, kw):
        if len(args) != 1: raise Unsupported("type()")
        v = args[0]
        if isinstance(v, Py): return [(st, Py(type(v.o)))]
        if not (isinstance(v, Sc) and sort_of(v.ty) is V):
            pt = self.pytype(st, v)
            if pt is object: raise Unsupported("type of object")
            return [(st, Py(pt))]
        out = []
        rest = []
        for pt, ctor in self.TYPES:
            p = z3.simplify(T.tester(ctor, v.t))
            if z3.is_false(p): continue
            if self.feasible(st, p): out.append((st.assume(p), Py(pt)))
            rest.append(z3.Not(p))
        r = z3.And(*rest)
        if self.feasible(st, r): out.append((st.assume(r), Py(OtherType)))
        return out

    def ty_str(self, st, args, kw):
        if not args: return [(st, Py(''))]
        out = []
        for s, v in self.force(st, args[0]):
            if isinstance(v, Py) and isinstance(v.o, (int, str, bool, type(None))): out.append((s, Py(str(v.o))))
            else: out.append((s, mk_str(self.str_of(s, v))))
        return out

    bi_repr = lambda self, st, args, kw: [(st, Sc(T.fresh('repr', T.String), StrT))]

    def ty_int(self, st, args, kw):
        out = []
        for s, v in self.force(st, args[0]):
            if is_int(v): out.append((s, v))
            elif isinstance(v, Py):
                try: out.append((s, Py(int(v.o))))
                except (ValueError, TypeError) as ex: out.append((s, Exc(type(ex))))
            elif is_str(v):
                # int(s): every text Python accepts maps to a number, others raise ValueError
                ok = uf('int_parses', T.String, T.Bool)(v.t)
                val = uf('int_value', T.String, T.Int)(v.t)
                self.assumed.add("int(text) follows the axioms: a canonical decimal text parses to the number it denotes")
                for s2, good in self.branch(s, mk_bool(ok)):
                    out.append((s2, Sc(val, IntT) if good else Exc(ValueError)))
            elif isinstance(v, Loc) or isinstance(v, Tup): out.append((s, Exc(TypeError)))
            elif is_bool(v): out.append((s, mk_int(z3.If(v.t, 1, 0))))
            else: raise Unsupported("int()")
        return out

    def ty_bool(self, st, args, kw):
        return [(st, mk_bool(self.truth(st, args[0])) if args else Py(False))]

    def ty_list(self, st, args, kw):
        if not args:
            st, loc = self.new_root(st, 'v', V.ListV(T.empty()), TList(None))
            return [(st, loc)]
        return self.to_list(st, args[0])

    def to_list(self, st, v):
        out = []
        for s, x in self.force(st, v):
            sp = self.spine(s, x)
            if sp is not None:
                out.append(self.make_list(s, sp))
                continue
            r = self.as_seq(s, x)
            if r is None:
                info = self.iter_info(s, x)
                raise Unsupported("list() of %r" % (x,))
            s, seq, e = r
            s, new = self.new_root(s, 'v', V.ListV(seq), TList(e))
            out.append((self.share_elems(s, x, new), new))
        return out

    def as_seq(self, st, x):
        """iterable as a sequence of boxed values: (st, SeqV, elem type) or None"""
        if isinstance(x, Loc):
            k = self.kindof(st, x)
            if k in ('list', 'oset'): return st, self.items(st, x), getattr(self.cur_ty(st, x), 'e', None)
            if k == 'dict': return st, self.box_keys(T.acc('keys', self.read(st, x))), StrT
            if k == 'xdict': return st, self.read(st, x)[0], getattr(self.cur_ty(st, x), 'k', None)
            if k == 'set':
                f = uf('set_order_', T.SetV, T.SeqV)
                t = f(self.read(st, x))
                return st.assume(T.elems(t) == self.read(st, x)), t, getattr(self.cur_ty(st, x), 'e', None)
        if isinstance(x, View):
            if x.kind == 'keys': return self.as_seq(st, x.base)
            if x.kind == 'seq': return st, x.base, x.extra
            if x.kind == 'reversed':
                r = self.as_seq(st, x.base)
                if r is None: return None
                s, t, e = r
                return s, T.reversed_(t), e
            if x.kind == 'values' and isinstance(x.base, Loc):
                d = self.read(st, x.base)
                ty = self.cur_ty(st, x.base)
                if self.kindof(st, x.base) == 'dict':
                    f = uf('dict_values_', T.SeqS, z3.ArraySort(T.String, V), T.SeqV)
                    return st, f(T.acc('keys', d), T.acc('vals', d)), ty.v
            if x.kind == 'items' and isinstance(x.base, Loc) and self.kindof(st, x.base) == 'dict':
                d = self.read(st, x.base)
                ty = self.cur_ty(st, x.base)
                f = uf('dict_items_', T.SeqS, z3.ArraySort(T.String, V), T.SeqV)
                return st, f(T.acc('keys', d), T.acc('vals', d)), TTup(StrT, ty.v or Any)
        if isinstance(x, Py) and isinstance(x.o, (list, tuple)):
            return st, T.acc('items', self.box(st, Py(list(x.o)))), None
        if isinstance(x, Tup):
            return st, T.seq_of([self.box(st, y) for y in x.xs]), None
        if is_str(x) and isinstance(x, Sc):
            return st, uf('chars_', T.String, T.SeqV)(x.t), StrT
        return None

    def box_keys(self, ks):
        ps = T.parts(ks)
        out = []
        for p in ps:
            if T.is_unit(p): out.append(T.unit(V.StrV(p.arg(0))))
            else: out.append(uf('boxkeys_', T.SeqS, T.SeqV)(p))
        return T.from_parts(out, T.SeqV)

    def ty_tuple(self, st, args, kw):
        if not args: return [(st, Tup([]))]
        sp = self.spine(st, args[0])
        if sp is None:
            r = self.as_seq(st, args[0])
            if r is None: raise Unsupported("tuple()")
            s, seq, e = r
            return [(s, Sc(V.TupV(seq), TSeq(e)))]
        return [(st, Tup(sp))]

    def ty_set(self, st, args, kw):
        t = z3.K(V, z3.BoolVal(False))
        if not args: return [self.new_root(st, 'set', t, TSet(None))]
        sp = self.spine(st, args[0])
        if sp is not None:
            ty = None
            for v in sp:
                t = z3.Store(t, self.box(st, v), z3.BoolVal(True))
                ty = join_ty(ty, self.value_ty(st, v))
            return [self.new_root(st, 'set', t, TSet(ty))]
        if isinstance(args[0], Loc) and self.kindof(st, args[0]) == 'set':
            return [self.new_root(st, 'set', self.read(st, args[0]), self.cur_ty(st, args[0]))]
        r = self.as_seq(st, args[0])
        if r is None: raise Unsupported("set() of %r" % (args[0],))
        s, seq, e = r
        return [self.new_root(s, 'set', T.elems(seq), TSet(e))]

    ty_frozenset = ty_set

    def ty_dict(self, st, args, kw):
        if not args and not kw: return [self.new_root(st, 'v', T.EMPTY_DICT, TDict2(None))]
        if len(args) == 1 and not kw and isinstance(args[0], Loc) and self.kindof(st, args[0]) == 'dict':
            st, new = self.new_root(st, 'v', self.read(st, args[0]), self.cur_ty(st, args[0]))
            return [(self.share_elems(st, args[0], new), new)]
        raise Unsupported("dict()")

    def ty_enumerate(self, st, args, kw):
        off = args[1] if len(args) > 1 else kw.get('start')
        return [(st, View('enumerate', args[0], off.o if off is not None else 0))]

    def ty_range(self, st, args, kw):
        lo, hi, step = Py(0), None, Py(1)
        if len(args) == 1: hi = args[0]
        else: lo, hi = args[0], args[1]
        if len(args) > 2: step = args[2]
        return [(st, View('range', (lo, hi, step)))]

    def ty_reversed(self, st, args, kw):
        return [(s, View('reversed', v)) for s, v in self.force(st, args[0])]

    def ty_zip(self, st, args, kw):
        return [(st, View('zip', args))]

    def ty_object(self, st, args, kw):
        raise Unsupported("object()")

    def bi_sorted(self, st, args, kw):
        sp = self.spine(st, args[0])
        if sp is not None and all(isinstance(x, Py) for x in sp) and not kw:
            return [self.make_list(st, [Py(y) for y in sorted(x.o for x in sp)])]
        if sp is not None and len(sp) <= 1:
            return [self.make_list(st, sp)]
        r = self.as_seq(st, args[0])
        if r is None: raise Unsupported("sorted() of %r" % (args[0],))
        s, seq, e = r
        k = kw.get('key')
        rev = kw.get('reverse')
        if k is not None or rev is not None:
            self.rid += 1
            tag = 'sortedk_%s' % (getattr(getattr(k, 'node', None), 'lineno', 0) if k is not None else 'rev')
            t = uf(tag, T.SeqV, T.SeqV)(seq)
            if getattr(self, 'js', False): t = T.fresh('sorted', T.SeqV)
            s = s.assume(T.elems(t) == T.elems(seq), z3.Length(t) == T.length(seq))
            if getattr(self, 'js', False): self.sorts.append((t,) + self.sort_key(s, k, rev, seq, e))
        else: t = T.sorted_(seq)
        s, new = self.new_root(s, 'v', V.ListV(t), TList(e))
        return [(self.share_elems(s, args[0], new), new)]

    def sort_key(self, st, k, rev, seq, e):
        """what the elements are sorted by, an integer: (x, the key of x)"""
        if k is None or rev is not None: raise Unsupported("sort without a key")
        x = T.fresh('x', T.V)
        n = len(st.pc)
        s = st.assume(T.member(seq, x))
        if self.cur is not None: s = s.assume(*(self.cur.elem_facts(self, s, seq, None, x, None) or []))
        s, v = self.wrap(s, x, e if e is not None else Any, None)
        outs = [(s2, w) for s1, r in self.call(s, k, [v], {}, k.node) for s2, w in (self.force(s1, r) if not isinstance(r, Exc) else [(s1, r)]) if self.feasible(s2, z3.BoolVal(True))]
        if len(outs) != 1 or not is_int(outs[0][1]): raise Unsupported("key of a sort: %r" % ([w for _, w in outs],))
        return x, st_term(outs[0][1])

    def sort_fact(self, t, i, j):
        """the elements of a sorted list are in order"""
        for q, x, key in self.sorts:
            if q.eq(t): return z3.Implies(z3.And(i >= 0, i <= j, j < T.length(t)), z3.substitute(key, (x, t[i])) <= z3.substitute(key, (x, t[j])))
        return z3.BoolVal(True)

    def bi_iter(self, st, args, kw):
        if len(args) != 1: raise Unsupported("iter() with a sentinel")
        return [(st, View('iter', args[0]))]

    def bi_next(self, st, args, kw):
        """the first element, of an iterator that is used once"""
        if len(args) != 1 or not (isinstance(args[0], View) and args[0].kind == 'iter' and args[0].extra is None): raise Unsupported("next()")
        v = args[0]
        v.extra = 'used'
        t, mk, guard = self.iter_info(st, v.base)
        out = []
        for s, some in self.branch(st, mk_bool(T.length(t) > 0)):
            if not some: out.append((s, Exc(StopIteration))); continue
            x = T.nth(t, z3.IntVal(0))
            s = s.assume(T.member(t, x))
            out.append(mk(s, x, z3.IntVal(0)))
        return out

    def bi_any(self, st, args, kw):
        sp = self.spine(st, args[0])
        if sp is None: raise Unsupported("any of unknown iterable")
        return [(st, mk_bool(z3.Or(*[self.truth(st, x) for x in sp]) if sp else z3.BoolVal(False)))]

    def bi_all(self, st, args, kw):
        sp = self.spine(st, args[0])
        if sp is None: raise Unsupported("all of unknown iterable")
        return [(st, mk_bool(z3.And(*[self.truth(st, x) for x in sp]) if sp else z3.BoolVal(True)))]

    def force_all(self, st, args):
        outs = [(st, [])]
        for a in args: outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.force(s, a)]
        return outs

    def bi_min(self, st, args, kw):
        out = []
        for s, [x, y] in self.force_all(st, args) if len(args) == 2 else ():
            if not (is_int(x) and is_int(y)): raise Unsupported("min")
            a, b = st_term(x), st_term(y)
            out.append((s, mk_int(z3.If(a <= b, a, b))))
        if not out: raise Unsupported("min")
        return out

    def bi_max(self, st, args, kw):
        out = []
        for s, [x, y] in self.force_all(st, args) if len(args) == 2 else ():
            if not (is_int(x) and is_int(y)): raise Unsupported("max")
            a, b = st_term(x), st_term(y)
            out.append((s, mk_int(z3.If(a >= b, a, b))))
        if not out: raise Unsupported("max")
        return out

    def bi_hash(self, st, args, kw):
        v = args[0]
        return [(st, Sc(uf('hash_', V, T.Int)(self.box(st, v)), IntT))]

    def bi_print(self, st, args, kw): return [(st, Py(None))]

    def bi_callable(self, st, args, kw):
        v = args[0]
        if isinstance(v, (Clo, Bound)): return [(st, Py(True))]
        if isinstance(v, Py): return [(st, Py(callable(v.o)))]
        return [(st, Py(False))]

    def bi_ord(self, st, args, kw):
        v = args[0]
        if isinstance(v, Py): return [(st, Py(ord(v.o)))]
        return [(st, mk_int(z3.StrToCode(v.t)))]

    def bi_chr(self, st, args, kw):
        v = args[0]
        if isinstance(v, Py): return [(st, Py(chr(v.o)))]
        return [(st, mk_str(z3.StrFromCode(v.t)))]

    def bi_getattr(self, st, args, kw):
        if isinstance(args[1], Py): return self.getattr_(st, args[0], args[1].o)
        raise Unsupported("getattr")

    # ------------------------------------------------------------------ methods
    def method(self, st, obj, name, args, kw, node):
        if name == '__class__' or name == '__hash__':
            raise Unsupported("dunder call")
        if isinstance(obj, Sc) and isinstance(obj.ty, TObj):
            clo = self.methods_of.get(obj.ty.cls, {}).get(name)
            if clo is not None: return self.inline(st, clo, [obj] + args, kw, node)
            cls = self.class_objs[obj.ty.cls]
            f = inspect.getattr_static(cls, name)
            if isinstance(f, staticmethod): return self.call_fn(st, f.__func__, args, kw, node)
            m = self.models.get(f)
            if m is not None: return m(self, st, [obj] + args, kw, node)
            return self.call_fn(st, getattr(cls, name), [obj] + args, kw, node)
        out = []
        for s, o in self.force(st, obj):
            out += self.method1(s, o, name, args, kw, node)
        return out

    def method1(self, st, o, name, args, kw, node):
        if isinstance(o, Py) and isinstance(o.o, re.Pattern):
            h = self.models.get(('re', name))
            if h is None: raise Unsupported("regular expression method %s" % name)
            return h(self, st, [o] + args, kw, node)
        if isinstance(o, Py) and type(o.o).__name__ == '_Environ':
            if name != 'get' or kw: raise Unsupported("os.environ.%s" % name)
            out = []
            for s, n in self.force(st, args[0]):
                if not is_str(n): raise Unsupported("os.environ.get of %r" % (n,))
                has, val = self.environ(st_term(n))
                for s2, good in self.branch(s, mk_bool(has)): out.append((s2, Sc(val, StrT) if good else args[1] if len(args) > 1 else Py(None)))
            return out
        if isinstance(o, Py) and isinstance(o.o, type):
            a = getattr(o.o, name)
            return self.call(st, Py(a), args, kw, node)
        if is_str(o):
            return self.str_method(st, o, name, args, kw)
        if isinstance(o, Loc):
            k = self.kindof(st, o)
            h = getattr(self, '%s_%s' % ({'list': 'l', 'dict': 'd', 'set': 's', 'oset': 'o', 'xdict': 'x'}[k], name), None)
            if h is None: raise Unsupported("%s.%s" % (k, name))
            return h(st, o, args, kw)
        if isinstance(o, Py) and isinstance(o.o, (dict,)):
            if name in ('items', 'keys', 'values'): return [(st, View(name, o))]
            if name == 'get':
                out = []
                for s, v in self.getitem(st, o, args[0]):
                    out.append((s, (args[1] if len(args) > 1 else Py(None)) if isinstance(v, Exc) and v.cls is KeyError else v))
                return out
        if isinstance(o, Py) and isinstance(o.o, (list, tuple)) and name in ('index', 'count') and all(isinstance(a, Py) for a in args):
            try: return [(st, Py(getattr(o.o, name)(*[a.o for a in args])))]
            except ValueError: return [(st, Exc(ValueError))]
        if isinstance(o, Py) and (o.o is None or isinstance(o.o, (int, bool))):
            return [(st, Exc(AttributeError))]
        h = None
        if isinstance(o, Py):
            h = self.models.get((type(o.o), name))
        if h is not None: return h(self, st, [o] + args, kw, node)
        if is_int(o) or is_bool(o) or isinstance(o, Tup):
            return [(st, Exc(AttributeError))]
        raise Unsupported("method %s of %r" % (name, o))

    # list
    def l_append(self, st, o, args, kw):
        return [(self.list_append(st, o, args[0]), Py(None))]

    def l_extend(self, st, o, args, kw):
        out = []
        for s, x in self.force(st, args[0]):
            sp = self.spine(s, x)
            if sp is not None:
                for v in sp: s = self.list_append(s, o, v)
                out.append((s, Py(None)))
                continue
            if isinstance(x, Py) and x.o is None or is_int(x):
                out.append((s, Exc(TypeError))); continue
            r = self.as_seq(s, x)
            if r is None: raise Unsupported("extend by %r" % (x,))
            s, seq, e = r
            if e is not None: s = self.note_store(s, o, e)
            if isinstance(x, Loc) and self.elem_may_hold(s, x):
                s = s.copy()
                s.events.append(('share_elems', x.rid, o.rid, seq))
            s = self.share_elems(self.write(s, o, V.ListV(T.concat(self.items(s, o), seq))), x, o)
            out.append((s, Py(None)))
        return out

    def elem_may_hold(self, st, x):
        e = getattr(self.cur_ty(st, x), 'e', None)
        return not isinstance(e, (TStr, TInt, TBool, TObj)) and e is not None

    def l_insert(self, st, o, args, kw):
        seq = self.items(st, o)
        n = T.length(seq)
        i = args[0]
        out = []
        for s, j in self.norm_bound(st, i, n, z3.IntVal(0)):
            s, t = self.take_value(s, args[1], o)
            s = self.note_store(s, o, self.value_ty(s, args[1]))
            if z3.is_int_value(j) and j.as_long() == 0: ns = T.concat(T.unit(t), seq)
            else:
                ns = T.concat(T.take(seq, j), T.unit(t), T.drop(seq, j))
                s = s.assume(T.elems(seq) == T.elems(T.concat(T.take(seq, j), T.drop(seq, j))))
            s = self.write(s, o, V.ListV(ns), shift=True)
            out.append((self.finish_move(s, Loc(o.rid, o.path + (('i', j),), None)), Py(None)))
        return out

    def l_pop(self, st, o, args, kw):
        seq = self.items(st, o)
        n = T.length(seq)
        i = args[0] if args else Py(-1)
        out = []
        for s, j in self.list_index(st, n, i):
            if isinstance(j, Exc): out.append((s, j)); continue
            ps = T.parts(seq)
            if isinstance(i, Py) and i.o == -1 and ps and T.is_unit(ps[-1]):
                x, rest = ps[-1].arg(0), T.from_parts(ps[:-1], T.SeqV)
            elif isinstance(i, Py) and i.o == 0 and ps and T.is_unit(ps[0]):
                x, rest = ps[0].arg(0), T.from_parts(ps[1:], T.SeqV)
            elif isinstance(i, Py) and i.o == -1:
                x, rest = T.fresh('popped', V), T.fresh('rest', T.SeqV)
                s = s.assume(seq == T.concat(rest, T.unit(x)), T.elems(seq) == T.elems(T.concat(rest, T.unit(x))), n == T.length(rest) + 1)
                s = self.pop_facts(s, seq, T.concat(rest, T.unit(x)))
            elif isinstance(i, Py) and i.o == 0:
                x, rest = T.fresh('popped', V), T.fresh('rest', T.SeqV)
                s = s.assume(seq == T.concat(T.unit(x), rest), T.elems(seq) == T.elems(T.concat(T.unit(x), rest)), n == T.length(rest) + 1)
            else:
                x, rest = T.nth(seq, j), T.concat(T.take(seq, j), T.drop(seq, j + 1))
            e = getattr(self.cur_ty(s, o), 'e', None)
            s = self.write(s, o, V.ListV(rest), shift=True)
            out.append(self.wrap(s, x, e if e is not None else Any, None))
        return out

    def pop_facts(self, s, whole, split):
        """instances of the spec functions of the contract for the two forms of the list"""
        if self.cur is not None:
            for f in self.cur.folds:
                try: s = s.assume(f(whole) == f(split))
                except TypeError: pass
        return s

    def l_remove(self, st, o, args, kw):
        seq = self.items(st, o)
        x = self.box(st, args[0])
        out = []
        for s, good in self.branch(st, mk_bool(T.member(seq, x))):
            if not good: out.append((s, Exc(ValueError))); continue
            t = uf('remove_first_', T.SeqV, V, T.SeqV)(seq, x)
            s = s.assume(z3.Length(t) == T.length(seq) - 1)
            out.append((self.write(s, o, V.ListV(t), shift=True), Py(None)))
        return out

    def l_index(self, st, o, args, kw):
        seq = self.items(st, o)
        x = self.box(st, args[0])
        out = []
        for s, good in self.branch(st, mk_bool(T.member(seq, x))):
            if not good: out.append((s, Exc(ValueError))); continue
            i = uf('index_of_', T.SeqV, V, T.Int)(seq, x)
            out.append((s.assume(i >= 0, i < T.length(seq), T.nth(seq, i) == x), Sc(i, IntT)))
        return out

    def l_sort(self, st, o, args, kw):
        r = self.bi_sorted(st, [o], kw)
        out = []
        for s, l in r:
            s2 = self.write(s, o, self.read(s, l), shift=True)
            s2.shared = list(st.shared)          # the sorted copy is gone
            out.append((s2, Py(None)))
        return out

    def l_reverse(self, st, o, args, kw):
        return [(self.write(st, o, V.ListV(T.reversed_(self.items(st, o))), shift=True), Py(None))]

    def l_copy(self, st, o, args, kw):
        st, new = self.new_root(st, 'v', self.read(st, o), self.cur_ty(st, o))
        return [(self.share_elems(st, o, new), new)]

    def l_clear(self, st, o, args, kw):
        return [(self.write(st, o, V.ListV(T.empty()), shift=True), Py(None))]

    # dict
    def d_get(self, st, o, args, kw):
        out = []
        dflt = args[1] if len(args) > 1 else Py(None)
        for s, k in self.force(st, args[0]):
            if not is_str(k): out.append((s, dflt)); continue
            kt = st_term(k)
            vt = self.val_ty(s, o, kt)
            if self.js and isinstance(vt, TUnion) and all(isinstance(x, (TNone, TStr, TInt, TBool)) for x in vt.ts) and any(isinstance(x, TNone) for x in vt.ts) and isinstance(dflt, Py) and dflt.o is None:
                d = self.read(s, o)             # a scalar or undefined: one value, no case distinction
                s2, v = self.dict_get(s, o, kt)
                if isinstance(v, Sc) and sort_of(v.ty) is V:
                    out.append((s2, Sc(T.ite(T.dhas(d, kt), v.t, V.NoneV), vt)))
                    continue
            for s2, good in self.branch(s, mk_bool(T.dhas(self.read(s, o), kt))):
                out.append(self.dict_get(s2, o, kt) if good else (s2, dflt))
        return out

    def d_setdefault(self, st, o, args, kw):
        out = []
        dflt = args[1] if len(args) > 1 else Py(None)
        for s, k in self.force(st, args[0]):
            kt = st_term(k)
            for s2, good in self.branch(s, mk_bool(T.dhas(self.read(s, o), kt))):
                if not good: s2 = self.dict_set(s2, o, k, dflt)
                out.append(self.dict_get(s2, o, kt))
        return out

    def d_pop(self, st, o, args, kw):
        out = []
        for s, k in self.force(st, args[0]):
            kt = st_term(k)
            for s2, good in self.branch(s, mk_bool(T.dhas(self.read(s, o), kt))):
                if good:
                    t = T.dget(self.read(s2, o), kt)
                    vt = self.val_ty(s2, o, kt)
                    s2 = self.write(s2, o, T.ddel(self.read(s2, o), kt), child=('k', kt))
                    out.append(self.wrap(s2, t, vt, None))
                else: out.append((s2, args[1] if len(args) > 1 else Exc(KeyError)))
        return out

    def d_items(self, st, o, args, kw): return [(st, View('items', o))]
    def d_keys(self, st, o, args, kw): return [(st, View('keys', o))]
    def d_values(self, st, o, args, kw): return [(st, View('values', o))]

    def d_copy(self, st, o, args, kw):
        st = st.copy()
        st.events.append(('shallow_copy', o.rid))
        st, new = self.new_root(st, 'v', self.read(st, o), self.cur_ty(st, o))
        return [(self.share_elems(st, o, new), new)]

    def d_update(self, st, o, args, kw):
        v = args[0]
        sp = None
        if isinstance(v, Loc) and self.kindof(st, v) == 'dict':
            ks = T.spine(T.acc('keys', self.read(st, v)))
            if ks is not None:
                for k in ks:
                    st, x = self.dict_get(st, v, k)
                    st = self.dict_set(st, o, mk_str(k), x)
                return [(st, Py(None))]
            f = uf('dict_update_', V, V, V)
            return [(self.share_elems(self.write(st, o, self.dict_update_term(self.read(st, o), self.read(st, v))), v, o), Py(None))]
        raise Unsupported("dict.update")

    def dict_update_term(self, a, b):
        fk = uf('update_keys', T.SeqS, T.SeqS, T.SeqS)
        fv = uf('update_vals', V, V, z3.ArraySort(T.String, V))
        return V.DictV(fk(T.acc('keys', a), T.acc('keys', b)), fv(a, b))

    def d___contains__(self, st, o, args, kw):
        return [(s, mk_bool(f)) for s, f in self.contains(st, o, args[0])]

    def x_items(self, st, o, args, kw): return [(st, View('items', o))]
    def x_keys(self, st, o, args, kw): return [(st, View('keys', o))]
    def x_values(self, st, o, args, kw): return [(st, View('values', o))]

    def x_get(self, st, o, args, kw):
        ks, vs = self.read(st, o)
        kt = self.box(st, args[0])
        out = []
        for s, good in self.branch(st, mk_bool(T.member(ks, kt))):
            if good: out.append(self.wrap(s, T.aselect(vs, kt), getattr(self.cur_ty(s, o), 'v', None) or Any, None))
            else: out.append((s, args[1] if len(args) > 1 else Py(None)))
        return out

    # set
    def s_add(self, st, o, args, kw):
        t = self.box(st, args[0])
        st = self.note_store(st, o, self.value_ty(st, args[0]))
        return [(self.write(st, o, z3.Store(self.read(st, o), t, z3.BoolVal(True))), Py(None))]

    def s_update(self, st, o, args, kw):
        sp = self.spine(st, args[0])
        if sp is not None:
            for v in sp: st = self.s_add(st, o, [v], {})[0][0]
            return [(st, Py(None))]
        x = args[0]
        if isinstance(x, Loc) and self.kindof(st, x) == 'set': t, e = self.read(st, x), getattr(self.cur_ty(st, x), 'e', None)
        else:
            st, seq, e = self.as_seq(st, x)
            t = T.elems(seq)
        if e is not None: st = self.note_store(st, o, e)
        return [(self.write(st, o, z3.SetUnion(self.read(st, o), t)), Py(None))]

    def s_discard(self, st, o, args, kw):
        t = self.box(st, args[0])
        return [(self.write(st, o, z3.Store(self.read(st, o), t, z3.BoolVal(False))), Py(None))]

    def s_remove(self, st, o, args, kw):
        t = self.box(st, args[0])
        out = []
        for s, good in self.branch(st, mk_bool(T.aselect(self.read(st, o), t))):
            if good: out.append((self.write(s, o, z3.Store(self.read(s, o), t, z3.BoolVal(False))), Py(None)))
            else: out.append((s, Exc(KeyError)))
        return out

    # ordered set
    def o_add(self, st, o, args, kw):
        seq = self.items(st, o)
        t = self.box(st, args[0])
        st = self.note_store(st, o, self.value_ty(st, args[0]))
        out = []
        for s, has in self.branch(st, mk_bool(T.member(seq, t))):
            out.append((s if has else self.write(s, o, T.concat(seq, T.unit(t))), Py(None)))
        return out

    def o_update(self, st, o, args, kw):
        return [(s, Py(None)) for s, _ in self.oset_update(st, o, args[0])]

    def oset_update(self, st, o, v):
        sp = self.spine(st, v)
        if sp is not None:
            cur = [st]
            for x in sp:
                cur = [s2 for s in cur for s2, _ in self.o_add(s, o, [x], {})]
            return [(s, Py(None)) for s in cur]
        r = self.as_seq(st, v)
        if r is None: raise Unsupported("OrderedSet.update")
        s, seq, e = r
        if e is not None: s = self.note_store(s, o, e)
        f = uf('oset_union_', T.SeqV, T.SeqV, T.SeqV)
        old = self.items(s, o)
        t = f(old, seq)
        s = s.assume(T.elems(t) == z3.SetUnion(T.elems(old), T.elems(seq)))
        s.ghost = dict(s.ghost)
        s.ghost['oset_unions'] = s.ghost.get('oset_unions', ()) + ((t, old, seq),)
        if self.cur is not None:
            for g in self.cur.oset_union_facts(self, s, t, old, seq): s = s.assume(g)
        return [(self.write(s, o, t), Py(None))]

    def o_discard(self, st, o, args, kw):
        raise Unsupported("OrderedSet.discard")

    # ------------------------------------------------------------------ strings
    def str_method(self, st, o, name, args, kw):
        if isinstance(o, Py) and all(isinstance(a, Py) for a in args) and not kw:
            try: r = getattr(o.o, name)(*[a.o for a in args])
            except (ValueError, TypeError, IndexError) as ex: return [(st, Exc(type(ex)))]
            if isinstance(r, list): return [self.make_list(st, [Py(x) for x in r])]
            if isinstance(r, tuple): return [(st, Tup([Py(x) for x in r]))]
            return [(st, Py(r))]
        h = getattr(self, 'str_' + name, None)
        if h is not None:
            return h(st, o, args, kw)
        raise Unsupported("str.%s" % name)

    def _affix(self, st, o, args, f):
        a = args[0]
        t = st_term(o)
        if len(args) > 1: raise Unsupported("startswith with bounds")
        if isinstance(a, (Tup,)) or isinstance(a, Py) and isinstance(a.o, tuple):
            xs = a.xs if isinstance(a, Tup) else [Py(x) for x in a.o]
            return [(st, mk_bool(z3.Or(*[f(st_term(x), t) for x in xs])))]
        out = []
        for s, x in self.force(st, a):
            out.append((s, mk_bool(f(st_term(x), t)) if is_str(x) else Exc(TypeError)))
        return out

    def str_startswith(self, st, o, args, kw): return self._affix(st, o, args, z3.PrefixOf)
    def str_endswith(self, st, o, args, kw): return self._affix(st, o, args, z3.SuffixOf)

    def str_find(self, st, o, args, kw):
        if len(args) == 1: return [(st, mk_int(z3.IndexOf(st_term(o), st_term(args[0]), z3.IntVal(0))))]
        if len(args) == 2 and (isinstance(args[1], Py) and args[1].o >= 0 or not isinstance(args[1], Py) and self.valid(st, st_term(args[1]) >= 0, 500)):
            return [(st, mk_int(z3.IndexOf(st_term(o), st_term(args[0]), st_term(args[1]))))]
        return self.some_index(st, o, args)

    def str_rfind(self, st, o, args, kw):
        if len(args) == 1: return [(st, mk_int(z3.LastIndexOf(st_term(o), st_term(args[0]))))]
        return self.some_index(st, o, args)

    def some_index(self, st, o, args):
        """find / rfind with bounds, weakly: -1 or a position where the text is (which one is not said)"""
        t, x = st_term(o), st_term(args[0])
        i = T.fresh('index', T.Int)
        n = z3.Length(x)
        return [(st.assume(z3.Or(i == -1, z3.And(i >= 0, i + n <= z3.Length(t), z3.SubString(t, i, n) == x))), Sc(i, IntT))]

    def str_replace(self, st, o, args, kw):
        if len(args) == 3:
            if isinstance(args[2], Py) and args[2].o == 1:
                return [(st, mk_str(z3.Replace(st_term(o), st_term(args[0]), st_term(args[1]))))]
            raise Unsupported("replace count")
        return [(st, mk_str(REPLACE_ALL(st_term(o), st_term(args[0]), st_term(args[1]))))]

    def str_encode(self, st, o, args, kw):
        """bytes are represented by the text they encode under a pure injective function"""
        enc = args[0] if args else kw.get('encoding', Py('utf-8'))
        if len(args) > 1 or set(kw) - {'encoding'}: raise Unsupported("encode with an error handler")
        t, c = st_term(o), st_term(enc)
        ok = uf('encodable', T.String, T.String, z3.BoolSort())(t, c)
        self.assumed.add("str.encode is a pure function of the text and the encoding")
        out = []
        if self.feasible(st, z3.Not(ok)): out.append((st.assume(z3.Not(ok)), Exc(UnicodeEncodeError)))
        if self.feasible(st, ok): out.append((st.assume(ok), Sc(uf('encode', T.String, T.String, T.String)(t, c), StrT)))
        return out

    def str_join(self, st, o, args, kw):
        out = []
        for s, x in self.force(st, args[0]):
            sp = self.spine(s, x)
            if sp is not None:
                if not all(is_str(y) for y in sp): raise Unsupported("join of non-strings")
                ts = []
                for i, y in enumerate(sp):
                    if i: ts.append(st_term(o))
                    ts.append(st_term(y))
                ts = [t for t in ts if not (z3.is_string_value(t) and t.as_string() == '')]
                out.append((s, mk_str(z3.Concat(*ts) if len(ts) > 1 else ts[0] if ts else T.sv(''))))
                continue
            r = self.as_seq(s, x)
            if r is None: raise Unsupported("join")
            s, seq, e = r
            out.append((s, Sc(JOIN(st_term(o), seq), StrT)))
        return out

    def str_split(self, st, o, args, kw):
        return self._split(st, o, args, 'split')

    def str_rsplit(self, st, o, args, kw):
        return self._split(st, o, args, 'rsplit')

    def _split(self, st, o, args, which):
        t = st_term(o)
        if len(args) == 2 and isinstance(args[1], Py) and args[1].o == 1:
            sep = st_term(args[0])
            out = []
            for s, has in self.branch(st, mk_bool(z3.Contains(t, sep))):
                if not has: out.append(self.make_list(s, [o])); continue
                a, b = [uf('%s_%s' % (which, w), T.String, T.String, T.String)(t, sep) for w in ('before', 'after')]
                part = b if which == 'rsplit' else a
                s = s.assume(t == z3.Concat(a, sep, b))
                if z3.is_string_value(sep) and len(py_string(sep)) == 1:
                    s = s.assume(z3.Not(z3.Contains(part, sep)))
                else:
                    # leftmost / rightmost occurrence
                    raise Unsupported("split by a long separator")
                out.append(self.make_list(s, [Sc(a, StrT), Sc(b, StrT)]))
            return out
        if not args:
            f = uf('split_ws', T.String, T.SeqV)
            return [self.new_root(st, 'v', V.ListV(f(t)), TList(StrT))]
        if len(args) == 1 and isinstance(args[0], Py):
            f = uf('split_on', T.String, T.String, T.SeqV)
            tt = f(t, st_term(args[0]))
            st = st.assume(z3.Length(tt) >= 1)
            return [self.new_root(st, 'v', V.ListV(tt), TList(StrT))]
        raise Unsupported("split")

    def _ustr(self, nm):
        return uf('str_' + nm, T.String, T.String)

    def str_lower(self, st, o, args, kw): return [(st, Sc(self._ustr('lower')(st_term(o)), StrT))]
    def str_upper(self, st, o, args, kw): return [(st, Sc(self._ustr('upper')(st_term(o)), StrT))]
    def str_strip(self, st, o, args, kw):
        if args: raise Unsupported("strip with characters")
        return [(st, Sc(self._ustr('strip')(st_term(o)), StrT))]
    def str_title(self, st, o, args, kw): return [(st, Sc(self._ustr('title')(st_term(o)), StrT))]
    def str_lstrip(self, st, o, args, kw):
        if args and isinstance(args[0], Py) and len(args[0].o) == 1:
            r = T.fresh('lstrip', T.String)
            p = T.fresh('pre', T.String)
            c = T.sv(args[0].o)
            return [(st.assume(st_term(o) == z3.Concat(p, r), z3.Not(z3.PrefixOf(c, r)), z3.InRe(p, z3.Star(z3.Re(c)))), Sc(r, StrT))]
        raise Unsupported("lstrip")
    def str_rstrip(self, st, o, args, kw):
        if args and isinstance(args[0], Py) and len(args[0].o) == 1:
            r = T.fresh('rstrip', T.String)
            p = T.fresh('suf', T.String)
            c = T.sv(args[0].o)
            return [(st.assume(st_term(o) == z3.Concat(r, p), z3.Not(z3.SuffixOf(c, r)), z3.InRe(p, z3.Star(z3.Re(c)))), Sc(r, StrT))]
        raise Unsupported("rstrip")
    def str_isdigit(self, st, o, args, kw):
        t = st_term(o)
        r = uf('str_isdigit', T.String, T.Bool)(t)
        return [(st.assume(z3.Implies(ascii_only(t), r == z3.InRe(t, z3.Plus(z3.Range('0', '9'))))), Sc(r, BoolT))]

    def str_isascii(self, st, o, args, kw): return [(st, Sc(ascii_only(st_term(o)), BoolT))]
    def str_format(self, st, o, args, kw): return [(st, Sc(T.fresh('fmt', T.String), StrT))]
    def str_count(self, st, o, args, kw):
        i = uf('str_count', T.String, T.String, T.Int)(st_term(o), st_term(args[0]))
        return [(st.assume(i >= 0), Sc(i, IntT))]
    def str_partition(self, st, o, args, kw):
        out = []
        for s, l in self._split(st, o, [args[0], Py(1)], 'split'):
            sp = self.spine(s, l)
            out.append((s, Tup([sp[0], args[0], sp[1]]) if len(sp) == 2 else Tup([sp[0], Py(''), Py('')])))
        return out


JOIN = uf('str_join', T.String, T.SeqV, T.String)


class OtherType:
    """stands for the type of an object of none of the modelled types"""
