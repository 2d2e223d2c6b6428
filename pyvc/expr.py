"""Expression evaluation (mixin of Engine)."""
import ast
import builtins
import inspect
import re
import types as pytypes
import z3
from . import terms as T
from .types import *
from .core import *

V = T.V


def is_str(v):
    return isinstance(v, Sc) and isinstance(v.ty, TStr) or isinstance(v, Py) and isinstance(v.o, str)


def is_int(v):
    return isinstance(v, Sc) and isinstance(v.ty, TInt) or isinstance(v, Py) and isinstance(v.o, int) and not isinstance(v.o, bool)


def is_bool(v):
    return isinstance(v, Sc) and isinstance(v.ty, TBool) or isinstance(v, Py) and isinstance(v.o, bool)


def st_term(v):
    """string / int / bool term of a scalar"""
    if isinstance(v, Sc): return v.t
    o = v.o
    if isinstance(o, bool): return z3.BoolVal(o)
    if isinstance(o, int): return z3.IntVal(o)
    if isinstance(o, str): return T.sv(o)
    raise Unsupported("scalar %r" % (o,))


def mk_str(t):
    t = z3.simplify(t)
    return Py(py_string(t)) if z3.is_string_value(t) else Sc(t, StrT)


def py_string(t):
    s = t.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def mk_int(t):
    t = z3.simplify(t)
    return Py(t.as_long()) if z3.is_int_value(t) else Sc(t, IntT)


def mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t): return Py(True)
    if z3.is_false(t): return Py(False)
    return Sc(t, BoolT)


def bits(op, x, y):
    """x op y on integers of 32 bits"""
    p, q = z3.Int2BV(x, 32), z3.Int2BV(y, 32)
    return z3.BV2Int({'BitOr': p | q, 'BitAnd': p & q, 'BitXor': p ^ q}[op], is_signed=True)


class ExprMixin:
    # ---- helpers
    def evs(self, es, st, fid, star=False):
        """Evaluate several expressions left to right -> [(st, [vals] or Exc)]"""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fid):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                        else:
                            sp = self.spine(s2, v)
                            if sp is None:
                                if not star or not isinstance(v, Loc): raise Unsupported("starred value of unknown length")
                                sp = [Star(v)]
                            nxt.append((s2, vs + sp))
                    continue
                for s2, v in self.ev(e, s, fid):
                    nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            outs = nxt
        return outs

    def spine(self, st, v):
        """Known elements of an iterable, else None."""
        if isinstance(v, Tup): return list(v.xs)
        if isinstance(v, Py):
            if isinstance(v.o, (list, tuple)): return [Py(x) for x in v.o]
            if isinstance(v.o, (set, frozenset)):
                return [Py(x) for x in sorted(v.o, key=repr)]
            if isinstance(v.o, dict): return [Py(x) for x in v.o]
            if isinstance(v.o, str): return [Py(x) for x in v.o]
            if isinstance(v.o, range): return [Py(x) for x in v.o]
        if isinstance(v, Loc) and self.kindof(st, v) in ('list', 'oset'):
            t = self.items(st, v)
            sp = T.spine(t)
            if sp is None: return None
            e = getattr(self.cur_ty(st, v), 'e', None)
            out = []
            for i, x in enumerate(sp):
                s2, w = self.wrap(st, x, e if e is not None else Any, Loc(v.rid, v.path + (('i', z3.IntVal(i)),), e), assume=False)
                out.append(w)
            return out
        if isinstance(v, Loc) and self.kindof(st, v) == 'dict':
            sp = T.spine(T.acc('keys', self.read(st, v)))
            if sp is None: return None
            return [mk_str(x) for x in sp]
        if isinstance(v, View):
            if v.kind == 'enumerate':
                sp = self.spine(st, v.base)
                return None if sp is None else [Tup([Py(i + (v.extra or 0)), x]) for i, x in enumerate(sp)]
            if v.kind == 'reversed':
                sp = self.spine(st, v.base)
                return None if sp is None else sp[::-1]
            if v.kind == 'zip':
                sps = [self.spine(st, b) for b in v.base]
                return None if any(s is None for s in sps) else [Tup(xs) for xs in zip(*sps)]
            if v.kind == 'range':
                lo, hi, step = v.base
                if all(isinstance(x, Py) for x in (lo, hi, step)):
                    return [Py(i) for i in range(lo.o, hi.o, step.o)]
            if v.kind == 'keys': return self.spine(st, v.base)
            if v.kind in ('items', 'values') and isinstance(v.base, Loc):
                sp = T.spine(T.acc('keys', self.read(st, v.base)))
                if sp is None: return None
                out = []
                for k in sp:
                    s2, x = self.dict_get(st, v.base, k)
                    out.append(Tup([mk_str(k), x]) if v.kind == 'items' else x)
                return out
            if v.kind in ('items', 'values') and isinstance(v.base, Py):
                return [Tup([Py(k), Py(x)]) if v.kind == 'items' else Py(x) for k, x in v.base.o.items()]
        return None

    # ---- dispatcher
    def ev(self, e, st, fid):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e, st, fid)

    def ev_Constant(self, e, st, fid):
        return [(st, Py(e.value))]

    def ev_Name(self, e, st, fid):
        return [(st, self.lookup(st, fid, e.id))]

    def ev_NamedExpr(self, e, st, fid):
        out = []
        for s, v in self.ev(e.value, st, fid):
            out.append((s, v) if isinstance(v, Exc) else (self.setvar(s, fid, e.target.id, v), v))
        return out

    def ev_Tuple(self, e, st, fid):
        return [(s, vs if isinstance(vs, Exc) else Tup(vs)) for s, vs in self.evs(e.elts, st, fid)]

    def ev_List(self, e, st, fid):
        out = []
        for s, vs in self.evs(e.elts, st, fid):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            out.append(self.make_list(s, vs))
        return out

    def make_list(self, st, vs):
        if any(isinstance(v, Loc) and self.kindof(st, v) in ('oset', 'xdict') for v in vs):
            self.assumed.add("a list display that holds an ordered set is only read")
            return st, Tup(vs)
        st, loc = self.new_root(st, 'v', V.ListV(T.empty()), TList(None))
        for v in vs:
            st = self.list_append(st, loc, v)
        return st, loc

    def ev_Set(self, e, st, fid):
        out = []
        for s, vs in self.evs(e.elts, st, fid):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            t = z3.K(V, z3.BoolVal(False))
            ty = None
            for v in vs:
                t = z3.Store(t, self.box(s, v), z3.BoolVal(True))
                ty = join_ty(ty, self.value_ty(s, v))
            out.append(self.new_root(s, 'set', t, TSet(ty)))
        return out

    def ev_Dict(self, e, st, fid):
        if any(k is None for k in e.keys):
            raise Unsupported("dict unpacking")
        out = []
        for s, vs in self.evs([x for kv in zip(e.keys, e.values) for x in kv], st, fid):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            ks, xs = vs[0::2], vs[1::2]
            if ks and not all(is_str(k) for k in ks):
                if all(isinstance(x, Py) for x in vs):
                    out.append((s, Py({k.o: x.o for k, x in zip(ks, xs)})))
                    continue
                s, loc = self.new_root(s, 'xdict', (T.empty(), z3.K(V, T.DUMMYV)), TXDict(Any, None))
                for k, x in zip(ks, xs):
                    s = self.dict_set(s, loc, k, x)
                out.append((s, loc))
                continue
            s, loc = self.new_root(s, 'v', T.EMPTY_DICT, TDict2(None))
            for k, x in zip(ks, xs):
                s = self.dict_set(s, loc, k, x)
            out.append((s, loc))
        return out

    def ev_JoinedStr(self, e, st, fid):
        es = [p.value if isinstance(p, ast.FormattedValue) else p for p in e.values]
        out = []
        for s, vs in self.evs(es, st, fid):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            t = []
            for p, v in zip(e.values, vs):
                if isinstance(p, ast.FormattedValue) and (p.conversion not in (-1, 115) or p.format_spec):
                    t.append(T.fresh('fmt', T.String))
                else:
                    t.append(self.str_of(s, v))
            out.append((s, mk_str(z3.Concat(*t) if len(t) > 1 else t[0] if t else T.sv(''))))
        return out

    def str_of(self, st, v):
        """term of str(v)"""
        if is_str(v): return st_term(v)
        if isinstance(v, Py): return T.sv(str(v.o)) if isinstance(v.o, (int, bool, type(None))) else T.fresh('str', T.String)
        if is_int(v): return self.int_to_str(v.t)
        if is_bool(v): return z3.If(v.t, T.sv('True'), T.sv('False'))
        if isinstance(v, Sc) and sort_of(v.ty) is V:
            f = z3.Function('str_of', V, T.String)
            return z3.If(T.tester('StrV', v.t), T.acc('s', v.t),
                         z3.If(T.tester('IntV', v.t), self.int_to_str(T.acc('i', v.t)), f(v.t)))
        return T.fresh('str', T.String)

    def int_to_str(self, t):
        return z3.If(t < 0, z3.Concat(T.sv('-'), z3.IntToStr(-t)), z3.IntToStr(t))

    def ev_IfExp(self, e, st, fid):
        out = []
        for s, c in self.ev(e.test, st, fid):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            t = self.truth(s, c)
            if not z3.is_true(t) and not z3.is_false(t):
                arms = [self.pure_single(x, s, fid) for x in (e.body, e.orelse)]
                if self.merge and all(a is not None for a in arms):
                    m = self.merge_values(t, *arms)
                    if m is not None:
                        out.append((s, m))
                        continue
                if all(a is not None and is_str(a) for a in arms) and any(isinstance(a, Sc) for a in arms):
                    out.append((s, mk_str(T.ite(t, *[st_term(a) for a in arms]))))
                    continue
            for s2, br in self.branch(s, c):
                out += self.ev(e.body if br else e.orelse, s2, fid)
        return out

    def branch(self, st, v):
        """[(state, bool)] for the feasible outcomes of the truth of v."""
        c = self.truth(st, v)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        out = []
        if self.feasible(st, c): out.append((st.assume(c), True))
        if self.feasible(st, z3.Not(c)): out.append((st.assume(z3.Not(c)), False))
        return out

    def pure_single(self, e, st, fid):
        """Evaluate without side effects and forks, else None."""
        n = len(st.pc)
        try:
            self.dry += 1
            r = self.ev(e, st, fid)
        except Unsupported:
            return None
        finally:
            self.dry -= 1
        if len(r) != 1 or isinstance(r[0][1], Exc): return None
        s, v = r[0]
        if len(s.pc) != n or s.frames != st.frames or s.roots != st.roots or s.fields != st.fields or len(s.events) != len(st.events):
            return None
        return v

    def ev_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        out = []
        todo = [(st, 0)]
        results = []
        for s, v in self.ev(e.values[0], st, fid):
            self._bool_rest(e, 1, s, v, fid, isand, results)
        return results

    def _bool_rest(self, e, i, s, v, fid, isand, results):
        if isinstance(v, Exc) or i == len(e.values):
            results.append((s, v))
            return
        if is_bool(v) and isinstance(v, Sc):
            # try to keep it a formula when the rest is pure and boolean under this guard
            s_on = s.assume(v.t if isand else z3.Not(v.t))
            w = self.pure_single(e.values[i], s_on, fid)
            if w is not None and is_bool(w):
                r = mk_bool(z3.And(v.t, st_term(w)) if isand else z3.Or(v.t, st_term(w)))
                self._bool_rest(e, i + 1, s, r, fid, isand, results)
                return
        if self.merge and isinstance(v, (Sc, Py)):
            c = self.truth(s, v)
            if not z3.is_true(c) and not z3.is_false(c):
                w = self.pure_single(e.values[i], s.assume(c if isand else z3.Not(c)), fid)
                m = self.merge_values(c, *((w, v) if isand else (v, w))) if w is not None else None
                if m is not None:
                    self._bool_rest(e, i + 1, s, m, fid, isand, results)
                    return
        for s2, br in self.branch(s, v):
            if br != isand:
                results.append((s2, v))
            else:
                for s3, w in self.ev(e.values[i], s2, fid):
                    self._bool_rest(e, i + 1, s3, w, fid, isand, results)

    def ev_UnaryOp(self, e, st, fid):
        out = []
        for s, v in self.ev(e.operand, st, fid):
            if isinstance(v, Exc): out.append((s, v))
            elif isinstance(e.op, ast.Not): out.append((s, mk_bool(z3.Not(self.truth(s, v)))))
            elif isinstance(e.op, ast.Invert) and is_int(v): out.append((s, mk_int(-st_term(v) - 1)))
            elif isinstance(e.op, ast.USub) and is_int(v): out.append((s, mk_int(-st_term(v))))
            elif isinstance(e.op, ast.USub) and isinstance(v, Sc) and sort_of(v.ty) is V:
                for s2, w in self.force(s, v):
                    if isinstance(w, Exc): out.append((s2, w))
                    elif is_int(w): out.append((s2, mk_int(-st_term(w))))
                    elif isinstance(w, Py) and w.o is None or isinstance(w, Loc) or is_str(w): out.append((s2, Exc(TypeError)))
                    else: raise Unsupported("unary operator")
            else: raise Unsupported("unary operator")
        return out

    # ---- operators
    def ev_BinOp(self, e, st, fid):
        out = []
        for s, vs in self.evs([e.left, e.right], st, fid):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            out += self.binop(s, type(e.op).__name__, vs[0], vs[1])
        return out

    def binop(self, st, op, a, b):
        if op == 'Mod' and is_str(a):
            return [(st, self.percent(st, a, b))]
        res = []
        for s1, x in self.force(st, a):
            for s2, y in self.force(s1, b):
                res.append((s2, None, x, y))
        out = []
        for s, _, x, y in res:
            out += self.binop1(s, op, x, y)
        return out

    def percent(self, st, a, b):
        if isinstance(a, Py) and isinstance(a.o, str):
            bits = re.split(r'(%[srd%])', a.o)
            args = b.xs if isinstance(b, Tup) else [b]
            if re.sub(r'%[srd%]', '', a.o).count('%') == 0:
                n = sum(1 for x in bits if x in ('%s', '%r', '%d'))
                if n != len(args) and not isinstance(b, Loc):
                    return Exc(TypeError)
                if n == len(args):
                    ts, i = [], 0
                    for x in bits:
                        if x == '%s':
                            ts.append(self.str_of(st, args[i])); i += 1
                        elif x in ('%r', '%d'):
                            if x == '%d' and is_int(args[i]):
                                ts.append(self.str_of(st, args[i]))
                            else:
                                ts.append(T.fresh('fmt', T.String))
                            i += 1
                        elif x == '%%': ts.append(T.sv('%'))
                        elif x: ts.append(T.sv(x))
                    return mk_str(z3.Concat(*ts) if len(ts) > 1 else ts[0] if ts else T.sv(''))
        return Sc(T.fresh('fmt', T.String), StrT)

    def binop1(self, st, op, a, b):
        if isinstance(a, Py) and isinstance(b, Py) and isinstance(a.o, (int, str, bool, tuple, list)) and isinstance(b.o, (int, str, bool, tuple, list)):
            try:
                r = {'Add': lambda p, q: p + q, 'Sub': lambda p, q: p - q, 'Mult': lambda p, q: p * q,
                     'FloorDiv': lambda p, q: p // q, 'Mod': lambda p, q: p % q, 'BitOr': lambda p, q: p | q, 'BitAnd': lambda p, q: p & q}[op](a.o, b.o)
                return [(st, Py(r))]
            except TypeError:
                return [(st, Exc(TypeError))]
            except KeyError:
                raise Unsupported("operator " + op)
        if op == 'Add':
            if is_str(a) and is_str(b):
                return [(st, mk_str(z3.Concat(st_term(a), st_term(b))))]
            if is_int(a) and is_int(b):
                return [(st, mk_int(st_term(a) + st_term(b)))]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.xs + b.xs))]
            la, lb = self.as_listseq(st, a), self.as_listseq(st, b)
            if la is not None and lb is not None:
                st, new = self.new_root(st, 'v', V.ListV(T.concat(la[0], lb[0])), TList(join_ty(la[1], lb[1])))
                return [(self.share_elems(self.share_elems(st, a, new), b, new), new)]
            if (is_str(a) or is_int(a) or la is not None) and (is_str(b) or is_int(b) or lb is not None or isinstance(b, (Tup,)) or (isinstance(b, Py))):
                return [(st, Exc(TypeError))]
            if isinstance(a, Py) and a.o is None or isinstance(b, Py) and b.o is None:
                return [(st, Exc(TypeError))]
            if is_str(a) != is_str(b):      # text and something else: the something is no object of its own class here
                other = b if is_str(a) else a
                if is_bool(other) or is_int(other) or (isinstance(other, Sc) and isinstance(other.ty, (TNone, TOther))) \
                        or (isinstance(other, Loc) and self.kindof(st, other) in ('list', 'dict', 'set')):
                    return [(st, Exc(TypeError))]
        if op in ('Sub', 'Mult', 'FloorDiv', 'Mod') and is_int(a) and is_int(b):
            x, y = st_term(a), st_term(b)
            if op == 'Sub': return [(st, mk_int(x - y))]
            if op == 'Mult': return [(st, mk_int(x * y))]
            if isinstance(b, Py) and b.o > 0:
                return [(st, mk_int(x / y if op == 'FloorDiv' else x % y))]
        if op == 'Mult':
            for p, q in ((a, b), (b, a)):
                if is_str(p) and isinstance(q, Py) and isinstance(q.o, int) and 0 <= q.o <= 8:
                    t = st_term(p)
                    return [(st, mk_str(z3.Concat(*([t] * q.o)) if q.o > 1 else t if q.o else T.sv('')))]
                if is_str(p) and is_int(q) and isinstance(p, Py):
                    n = st_term(q)
                    t = z3.Function('str_repeat', T.String, T.Int, T.String)(st_term(p), n)
                    return [(st.assume(z3.Length(t) == z3.If(n < 0, 0, n * len(p.o)), z3.InRe(t, z3.Star(z3.Re(st_term(p))))), Sc(t, StrT))]
                lp = self.as_listseq(st, p)
                if lp is not None and is_int(q):
                    sp = T.spine(lp[0])
                    if sp is not None and isinstance(q, Py):
                        st, new = self.new_root(st, 'v', V.ListV(T.seq_of(sp * max(0, q.o))), TList(lp[1]))
                        return [(self.share_elems(st, p, new), new)]
                    if sp is not None and len(sp) == 1:
                        f = z3.Function('repeat_', V, T.Int, T.SeqV)
                        t = f(sp[0], st_term(q))
                        n = st_term(q)
                        s2 = st.assume(z3.Length(t) == z3.If(n < 0, 0, n))
                        return [self.new_root(s2, 'v', V.ListV(t), TList(lp[1]))]
        if op in ('BitOr', 'BitAnd') and is_bool(a) and is_bool(b):
            return [(st, mk_bool((z3.Or if op == 'BitOr' else z3.And)(st_term(a), st_term(b))))]
        if op in ('BitOr', 'BitAnd', 'BitXor') and is_int(a) and is_int(b):
            x, y = st_term(a), st_term(b)
            if self.feasible(st, z3.Not(z3.And(*[z3.And(t >= -2 ** 31, t < 2 ** 31) for t in (x, y)]))): raise Unsupported("bits of integers that may be large")
            return [(st, mk_int(bits(op, x, y)))]
        if op in ('Sub', 'BitOr', 'BitAnd') and all(isinstance(x, Loc) and self.kindof(st, x) == 'set' for x in (a, b)):
            x, y = self.read(st, a), self.read(st, b)
            t = {'Sub': z3.SetDifference, 'BitOr': z3.SetUnion, 'BitAnd': z3.SetIntersect}[op](x, y)
            return [self.new_root(st, 'set', t, TSet(join_ty(getattr(self.cur_ty(st, a), 'e', None), getattr(self.cur_ty(st, b), 'e', None))))]
        raise Unsupported("operator %s on %r, %r" % (op, a, b))

    def as_listseq(self, st, v):
        """(SeqV term, elem type) of a list value"""
        if isinstance(v, Loc) and self.kindof(st, v) == 'list':
            return self.items(st, v), getattr(self.cur_ty(st, v), 'e', None)
        if isinstance(v, Py) and isinstance(v.o, list):
            ty = None
            for x in v.o: ty = join_ty(ty, self.value_ty(st, Py(x)))
            return T.acc('items', self.box(st, v)), ty
        return None

    def ev_Compare(self, e, st, fid):
        out = []
        for s, vs in self.evs([e.left] + e.comparators, st, fid):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            acc = [(s, z3.BoolVal(True))]
            for i, op in enumerate(e.ops):
                nxt = []
                for s1, f in acc:
                    if isinstance(f, Exc):
                        nxt.append((s1, f))
                        continue
                    for s2, g in self.compare(s1, type(op).__name__, vs[i], vs[i + 1]):
                        nxt.append((s2, g if isinstance(g, Exc) else z3.And(f, g)))
                acc = nxt
            out += [(s1, f if isinstance(f, Exc) else mk_bool(f)) for s1, f in acc]
        return out

    def compare(self, st, op, a, b):
        if op in ('Eq', 'NotEq'):
            f = self.eq(st, a, b)
            return [(st, f if op == 'Eq' else z3.Not(f))]
        if op in ('Is', 'IsNot'):
            f = self.identical(st, a, b)
            return [(st, f if op == 'Is' else z3.Not(f))]
        if op in ('In', 'NotIn'):
            r = []
            for s, f in self.contains(st, b, a):
                r.append((s, f if isinstance(f, Exc) else f if op == 'In' else z3.Not(f)))
            return r
        out = []
        for s1, x in self.force(st, a):
            for s2, y in self.force(s1, b):
                if is_int(x) and is_int(y):
                    p, q = st_term(x), st_term(y)
                    out.append((s2, {'Lt': p < q, 'LtE': p <= q, 'Gt': p > q, 'GtE': p >= q}[op]))
                elif is_str(x) and is_str(y):
                    p, q = st_term(x), st_term(y)
                    out.append((s2, {'Lt': p < q, 'LtE': p <= q, 'Gt': q < p, 'GtE': q <= p}[op]))
                elif isinstance(x, Py) and isinstance(y, Py):
                    out.append((s2, z3.BoolVal({'Lt': lambda u, w: u < w, 'LtE': lambda u, w: u <= w, 'Gt': lambda u, w: u > w, 'GtE': lambda u, w: u >= w}[op](x.o, y.o))))
                else:
                    raise Unsupported("ordering of %r and %r" % (x, y))
        return out

    def environ(self, name):
        """(is it set, value) of an environment variable"""
        self.assumed.add('the environment does not change during the call')
        return (z3.Function('environ_has', T.String, T.Bool)(name), z3.Function('environ', T.String, T.String)(name))

    def contains(self, st, c, x):
        """x in c -> [(st, formula or Exc)]"""
        if isinstance(c, Py) and type(c.o).__name__ == '_Environ':
            return [(s, self.environ(st_term(n))[0] if is_str(n) else Exc(TypeError)) for s, n in self.force(st, x)]
        if isinstance(c, Py):
            o = c.o
            if isinstance(x, Py) and isinstance(o, (list, tuple, set, frozenset, dict, str)):
                try:
                    return [(st, z3.BoolVal(x.o in o))]
                except TypeError:
                    return [(st, Exc(TypeError))]
            if isinstance(o, (list, tuple, set, frozenset, dict)):
                fs = [self.eq(st, x, Py(k)) for k in o]
                return [(st, z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False))]
            if isinstance(o, str) and is_str(x):
                return [(st, z3.Contains(T.sv(o), st_term(x)))]
        if isinstance(c, Tup):
            fs = [self.eq(st, x, k) for k in c.xs]
            return [(st, z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False))]
        if isinstance(c, View) and c.kind == 'keys':
            return self.contains(st, c.base, x)
        if isinstance(c, Loc):
            k = self.kindof(st, c)
            if k in ('list', 'oset'):
                return [(st, z3.simplify(T.member(self.items(st, c), self.box(st, x))))]
            if k == 'set':
                return [(st, z3.simplify(T.aselect(self.read(st, c), self.box(st, x))))]
            if k == 'dict':
                out = []
                for s, y in self.force(st, x):
                    if is_str(y): out.append((s, z3.simplify(T.dhas(self.read(s, c), st_term(y)))))
                    elif isinstance(y, (Loc,)): out.append((s, Exc(TypeError)))
                    else: out.append((s, z3.BoolVal(False)))
                return out
            if k == 'xdict':
                ks, _ = self.read(st, c)
                return [(st, z3.simplify(T.member(ks, self.box(st, x))))]
        if isinstance(c, Sc):
            if isinstance(c.ty, TStr):
                out = []
                for s, y in self.force(st, x):
                    if is_str(y): out.append((s, z3.Contains(c.t, st_term(y))))
                    else: out.append((s, Exc(TypeError)))
                return out
            if sort_of(c.ty) is V:
                out = []
                for s, y in self.force(st, c):
                    if isinstance(y, Py) and y.o is None or is_int(y) or is_bool(y): out.append((s, Exc(TypeError)))
                    else: out += self.contains(s, y, x)
                return out
        raise Unsupported("membership in %r" % (c,))

    # ---- subscripts
    def ev_Subscript(self, e, st, fid):
        if isinstance(e.slice, ast.Slice):
            parts_ = [e.value] + [x for x in (e.slice.lower, e.slice.upper) if x is not None]
            if e.slice.step is not None:
                raise Unsupported("slice step")
            out = []
            for s, vs in self.evs(parts_, st, fid):
                if isinstance(vs, Exc):
                    out.append((s, vs))
                    continue
                i = 1
                lo = hi = None
                if e.slice.lower is not None: lo = vs[i]; i += 1
                if e.slice.upper is not None: hi = vs[i]
                for s2, base in self.force(s, vs[0]):
                    out += self.slice(s2, base, lo, hi)
            return out
        out = []
        for s, vs in self.evs([e.value, e.slice], st, fid):
            if isinstance(vs, Exc): out.append((s, vs))
            else:
                for s2, base in self.force(s, vs[0]):
                    out += self.getitem(s2, base, vs[1])
        return out

    def norm_bound(self, st, v, n, default):
        """slice bound as a term in 0..n -> [(st, term)]"""
        if v is None or isinstance(v, Py) and v.o is None: return [(st, default)]
        t = st_term(v)
        if isinstance(v, Py):
            c = v.o
            if c >= 0:
                if c == 0: return [(st, z3.IntVal(0))]
                return self.fork_int(st, [(n >= c, z3.IntVal(c)), (n < c, n)])
            return self.fork_int(st, [(n >= -c, n + c), (n < -c, z3.IntVal(0))])
        return self.fork_int(st, [(z3.And(t >= 0, t <= n), t), (t > n, n), (z3.And(t < 0, t + n >= 0), t + n), (t + n < 0, z3.IntVal(0))])

    def fork_int(self, st, cases):
        out = []
        for c, t in cases:
            c = z3.simplify(c)
            if z3.is_true(c): return [(st, t)]
            if z3.is_false(c): continue
            if self.feasible(st, c): out.append((st.assume(c), t))
        return out

    def slice(self, st, base, lo, hi):
        if isinstance(base, Py) and isinstance(base.o, (str, tuple, list)) and all(x is None or isinstance(x, Py) for x in (lo, hi)):
            return [(st, Py(base.o[(lo.o if lo else None):(hi.o if hi else None)]))]
        if isinstance(base, Tup) and all(x is None or isinstance(x, Py) for x in (lo, hi)):
            return [(st, Tup(base.xs[(lo.o if lo else None):(hi.o if hi else None)]))]
        if is_str(base):
            t = st_term(base)
            n = z3.Length(t)
            last = lambda v: isinstance(v, Py) and type(v.o) is int and v.o == -1
            # the last character, and what is before it: SubString gives '' for an empty text in both cases
            if last(lo) and hi is None: return [(st, mk_str(z3.SubString(t, n - 1, z3.IntVal(1))))]
            if last(hi) and lo is None: return [(st, mk_str(z3.SubString(t, z3.IntVal(0), n - 1)))]
            out = []
            for s1, a in self.norm_bound(st, lo, n, z3.IntVal(0)):
                for s2, b in self.norm_bound(s1, hi, n, n):
                    if z3.is_int_value(a) and a.as_long() == 0 and T.int_eq(b, n):
                        out.append((s2, base))
                    else:
                        out.append((s2, mk_str(z3.SubString(t, a, z3.If(b - a < 0, z3.IntVal(0), b - a) if not z3.is_int_value(z3.simplify(a)) or hi is not None and not isinstance(hi, Py) else b - a))))
            return out
        if isinstance(base, Loc) and self.kindof(st, base) == 'list':
            t = self.items(st, base)
            n = T.length(t)
            out = []
            for s1, a in self.norm_bound(st, lo, n, z3.IntVal(0)):
                for s2, b in self.norm_bound(s1, hi, n, n):
                    seq = t
                    if not T.int_eq(b, n): seq = T.take(seq, b)
                    if not T.int_eq(a, z3.IntVal(0)): seq = T.drop(seq, a)
                    s3, new = self.new_root(s2, 'v', V.ListV(seq), TList(getattr(self.cur_ty(st, base), 'e', None)))
                    out.append((self.share_elems(s3, base, new), new))
            return out
        if isinstance(base, (Py, Sc)) or isinstance(base, Loc):
            return [(st, Exc(TypeError))]
        raise Unsupported("slice of %r" % (base,))

    def elem(self, st, loc, t, idx):
        e = getattr(self.cur_ty(st, loc), 'e', None)
        return self.wrap(st, t, e if e is not None else Any, Loc(loc.rid, loc.path + (('i', idx),), e))

    def getitem(self, st, base, k):
        if isinstance(base, Py) and type(base.o).__name__ == '_Environ':
            out = []
            for s, n in self.force(st, k):
                if not is_str(n):
                    out.append((s, Exc(TypeError)))
                    continue
                has, val = self.environ(st_term(n))
                for s2, good in self.branch(s, mk_bool(has)): out.append((s2, Sc(val, StrT) if good else Exc(KeyError)))
            return out
        if isinstance(base, Py):
            o = base.o
            if isinstance(k, Py):
                try:
                    return [(st, Py(o[k.o]))]
                except Exception as ex:
                    return [(st, Exc(type(ex)))]
            if isinstance(o, dict):
                out = []
                rest = []
                for kk, vv in o.items():
                    c = self.eq(st, k, Py(kk))
                    if z3.is_false(c): continue
                    if self.feasible(st, c): out.append((st.assume(c), Py(vv)))
                    rest.append(z3.Not(c))
                r = z3.And(*rest) if rest else z3.BoolVal(True)
                if self.feasible(st, r): out.append((st.assume(r), Exc(KeyError)))
                return out
        if isinstance(base, Tup) and isinstance(k, Py):
            try:
                return [(st, base.xs[k.o])]
            except IndexError:
                return [(st, Exc(IndexError))]
        if is_str(base):
            t = st_term(base)
            n = z3.Length(t)
            out = []
            for s, kk in self.force(st, k):
                if not is_int(kk):
                    out.append((s, Exc(TypeError)))
                    continue
                i = st_term(kk)
                ok = z3.And(i < n, i >= -n)
                for s2, good in self.branch(s, mk_bool(ok)):
                    if not good: out.append((s2, Exc(IndexError)))
                    else:
                        j = (z3.simplify(n + i) if kk.o < 0 else i) if isinstance(kk, Py) else z3.If(i < 0, n + i, i)
                        out.append((s2, mk_str(z3.SubString(t, j, 1))))
            return out
        if isinstance(base, Loc):
            kd = self.kindof(st, base)
            if kd == 'list':
                t = self.items(st, base)
                n = T.length(t)
                out = []
                for s, kk in self.force(st, k):
                    if not is_int(kk):
                        out.append((s, Exc(TypeError)))
                        continue
                    for s2, j in self.list_index(s, n, kk):
                        if isinstance(j, Exc): out.append((s2, j))
                        else: out.append(self.elem(s2, base, T.nth(t, j), j))
                return out
            if kd == 'dict':
                out = []
                for s, kk in self.force(st, k):
                    if not is_str(kk):
                        out.append((s, Exc(KeyError)))
                        continue
                    kt = st_term(kk)
                    for s2, good in self.branch(s, mk_bool(T.dhas(self.read(s, base), kt))):
                        out.append(self.dict_get(s2, base, kt) if good else (s2, Exc(KeyError)))
                return out
            if kd == 'xdict':
                ks, vs = self.read(st, base)
                kt = self.box(st, k)
                out = []
                for s2, good in self.branch(st, mk_bool(T.member(ks, kt))):
                    if good:
                        out.append(self.wrap(s2, T.aselect(vs, kt), self.cur_ty(s2, base).v or Any, None))
                    else: out.append((s2, Exc(KeyError)))
                return out
        if isinstance(base, Py) and base.o is None or is_int(base) or is_bool(base):
            return [(st, Exc(TypeError))]
        raise Unsupported("subscript of %r" % (base,))

    def list_index(self, st, n, kk):
        i = st_term(kk)
        if isinstance(kk, Py):
            ok = n > kk.o if kk.o >= 0 else n >= -kk.o
            j = i if kk.o >= 0 else z3.simplify(n + i)
        else:
            ok = z3.And(i < n, i >= -n)
            j = i
            if self.feasible(st, z3.And(ok, i < 0)):
                j = z3.If(i < 0, n + i, i)
        out = []
        for s, good in self.branch(st, mk_bool(ok)):
            out.append((s, j if good else Exc(IndexError)))
        return out

    def val_ty(self, st, loc, kt):
        ty = self.cur_ty(st, loc)
        if ty.rec:
            k = z3.simplify(kt)
            if z3.is_string_value(k):
                s = py_string(k)
                if s in ty.rec: return ty.rec[s][0]
        return ty.v if ty.v is not None else Any

    def dict_get(self, st, loc, kt):
        ty = self.cur_ty(st, loc)
        k = z3.simplify(kt)
        vt = self.val_ty(st, loc, kt)
        if ty.rec and not z3.is_string_value(k):
            bad = [kt != T.sv(n) for n, x in ty.rec.items() if not same_ty(vt, x[0])]
            if bad and not self.decide(st, z3.And(*bad)): vt = Any
        t = T.dget(self.read(st, loc), kt)
        return self.wrap(st, t, vt, Loc(loc.rid, loc.path + (('k', kt),), vt))

    # ---- mutation primitives
    def list_append(self, st, loc, v):
        st, t = self.take_value(st, v, loc)
        st = self.note_store(st, loc, self.value_ty(st, v))
        seq = self.items(st, loc)
        n = T.length(seq)
        if self.kindof(st, loc) == 'oset':
            raise Unsupported("append to ordered set")
        st = self.write(st, loc, V.ListV(T.concat(seq, T.unit(t))))
        return self.finish_move(st, Loc(loc.rid, loc.path + (('i', n),), None))

    def dict_set(self, st, loc, k, v):
        kd = self.kindof(st, loc)
        st, t = self.take_value(st, v, loc)
        if kd == 'dict':
            if not is_str(k): raise Unsupported("non-string key")
            vt = self.value_ty(st, v)
            ty = self.cur_ty(st, loc)
            if ty.v is None or not ty.rec: st = self.note_store(st, loc, vt)
            kt = st_term(k)
            d = self.read(st, loc)
            has = self.decide(st, T.dhas(d, kt))
            nd = T.dput(d, kt, t) if has else V.DictV(T.concat(T.acc('keys', d), z3.Unit(kt)), z3.Store(T.acc('vals', d), kt, t)) if has is False else T.dset(d, kt, t)
            st = self.write(st, loc, nd, child=('k', kt))
            return self.finish_move(st, Loc(loc.rid, loc.path + (('k', kt),), None))
        if kd == 'xdict':
            st = self.note_store(st, loc, self.value_ty(st, v))
            ks, vs = self.read(st, loc)
            kt = self.box(st, k)
            has = z3.simplify(T.member(ks, kt))
            nk = T.ite(has, ks, T.concat(ks, T.unit(kt)))
            st = self.write(st, loc, (nk, z3.Store(vs, kt, t)))
            st.ghost.pop('pending_move', None)
            return st
        raise Unsupported("item assignment on %s" % kd)

    # ---- attributes
    def ev_Attribute(self, e, st, fid):
        out = []
        if e.attr == '__name__' and isinstance(e.value, ast.Attribute) and e.value.attr == '__class__':     # only ever part of a message
            return [(s, v if isinstance(v, Exc) else Sc(T.fresh('class_name', T.String), StrT)) for s, v in self.ev(e.value.value, st, fid)]
        for s, v in self.ev(e.value, st, fid):
            if isinstance(v, Exc): out.append((s, v))
            else: out += self.getattr_(s, v, e.attr)
        return out

    def getattr_(self, st, v, name):
        if isinstance(v, Sc) and isinstance(v.ty, TObj):
            return self.getfield(st, v, name)
        if isinstance(v, Py) and (isinstance(v.o, (pytypes.ModuleType, type)) or getattr(v.o, 'js_module', False)):
            if hasattr(v.o, name):
                return [(st, self.pyval(getattr(v.o, name)))]
            return [(st, Exc(AttributeError))]
        if isinstance(v, Py) and not isinstance(v.o, (str, list, tuple, dict, set, int)):
            if hasattr(v.o, name):
                a = getattr(v.o, name)
                if isinstance(a, (Py, Sc)): return [(st, a)]
                if callable(a): return [(st, Bound(v, name))]
                return [(st, Py(a))]
            return [(st, Exc(AttributeError))]
        if isinstance(v, Sc) and sort_of(v.ty) is V and not isinstance(v.ty, TOther):
            if name == '__class__': return [(st, Bound(v, name))]
            if name == '__hash__':      # only its truth is used: None for the unhashable
                return [(st, mk_bool(z3.Not(z3.Or(T.tester('ListV', v.t), T.tester('DictV', v.t)))))]
            out = []
            for s, x in self.force(st, v):
                if isinstance(x, Sc) and isinstance(x.ty, TOther): raise Unsupported("attribute %s of unknown object" % name)
                out += self.getattr_(s, x, name)
            return out
        if name == '__class__': return [(st, Bound(v, name))]
        if name == '__hash__': return [(st, Py(None) if isinstance(v, Loc) else Py(True))]
        pt = self.pytype(st, v)
        if pt is not None and not hasattr(pt, name) and pt is not object:
            return [(st, Exc(AttributeError))]
        return [(st, Bound(v, name))]

    def pytype(self, st, v):
        if isinstance(v, Py): return type(v.o)
        if is_str(v): return str
        if is_int(v): return int
        if is_bool(v): return bool
        if isinstance(v, Tup): return tuple
        if isinstance(v, Loc):
            return {'list': list, 'dict': dict, 'xdict': dict, 'set': set}.get(self.kindof(st, v), object)
        return object

    def getfield(self, st, v, name):
        cls = v.ty.cls
        fields = self.classes.get(cls)
        if fields is None: raise Unsupported("class %s" % cls)
        if name in fields:
            ty = fields[name]
            key = ('fld', cls, name)
            if key not in st.fields:
                raise Unsupported("field %s" % name)
            t = T.aselect(st.fields[key], v.t)
            return [self.wrap(st, t, ty, Loc(key, (('o', v.t),), ty))]
        import importlib
        if cls in self.methods_of and name in self.methods_of[cls]: return [(st, Bound(v, name))]
        c = self.class_objs.get(cls)
        if c is not None and hasattr(c, name):
            a = getattr(c, name)
            if not callable(a) and not isinstance(a, property): return [(st, Py(a))]
            return [(st, Bound(v, name))]
        raise Unsupported("attribute %s.%s" % (cls, name))

    class_objs = {}
    methods_of = {}       # class defined inside the function under contract -> name -> closure

    # ---- comprehensions and lambdas
    def ev_Lambda(self, e, st, fid):
        return [(st, Clo(e, fid, st.fmeta[fid]['globals'], '<lambda>'))]

    def comp_loop(self, e, st, fid, body):
        """Desugared loop nest of a comprehension around the given innermost statements."""
        stmts = body
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                stmts = [ast.copy_location(ast.If(test=c, body=stmts, orelse=[]), e)]
            stmts = [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=stmts, orelse=[], type_comment=None), e)]
        return stmts

    def run_comp(self, e, st, fid, init, body, result_name='__acc'):
        st = st.copy()
        tgt = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name): tgt.add(n.id)
        f2 = self.new_frame(st, fid, st.fmeta[fid]['globals'], tgt | {'__acc'})
        st.fmeta[f2]['nonlocal'] = ()
        st.frames[f2]['__acc'] = init
        mod = self.comp_loop(e, st, f2, body)
        for n in mod: ast.fix_missing_locations(n)
        out = []
        for o, s in self.block(mod, st, f2):
            if o[0] == 'next' or o[0] == 'break': out.append((s, s.frames[f2]['__acc']))
            elif o[0] == 'raise': out.append((s, o[1]))
            elif o[0] == 'ret': out.append((s, o[1]))
            else: raise Unsupported("comprehension control flow")
        return out

    def acc_call(self, e, meth, arg):
        return [ast.copy_location(ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name('__acc', ast.Load()), attr=meth, ctx=ast.Load()), args=[arg], keywords=[])), e)]

    def ev_ListComp(self, e, st, fid):
        st, loc = self.new_root(st, 'v', V.ListV(T.empty()), TList(None))
        return self.run_comp(e, st, fid, loc, self.acc_call(e, 'append', e.elt))

    def ev_GeneratorExp(self, e, st, fid):
        return self.ev_ListComp(e, st, fid)

    def ev_SetComp(self, e, st, fid):
        st, loc = self.new_root(st, 'set', z3.K(V, z3.BoolVal(False)), TSet(None))
        return self.run_comp(e, st, fid, loc, self.acc_call(e, 'add', e.elt))

    def ev_DictComp(self, e, st, fid):
        st, loc = self.new_root(st, 'v', T.EMPTY_DICT, TDict2(None))
        asg = ast.copy_location(ast.Assign(targets=[ast.Subscript(value=ast.Name('__acc', ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value), e)
        return self.run_comp(e, st, fid, loc, [asg])

    def any_all(self, e, st, fid, isany):
        """any(gen) / all(gen) with short circuit."""
        body = [ast.copy_location(ast.If(test=e.elt if isany else ast.UnaryOp(ast.Not(), e.elt),
                                         body=[ast.Assign(targets=[ast.Name('__acc', ast.Store())], value=ast.Constant(isany)), ast.Break()] if len(e.generators) == 1 else
                                         [ast.Return(ast.Constant(isany))], orelse=[]), e)]
        return self.run_comp(e, st, fid, Py(not isany), body)


def TDict2(v):
    d = TDict(Any)
    d.v = v
    return d
