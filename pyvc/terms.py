"""Sorts, smart constructors and spec functions (folds) of the pyvc logic.

Everything is ground: spec functions are uninterpreted functions whose defining
equations are applied as rewrite rules when a term is built (on the empty
sequence and on a snoc), so that every query is quantifier free unless a
contract writes a quantifier itself.
"""
import z3

String, Int, Bool = z3.StringSort(), z3.IntSort(), z3.BoolSort()
_V = z3.DatatypeSort('V')
_B = z3.Datatype('V')
_B.declare('NoneV')
_B.declare('BoolV', ('b', Bool))
_B.declare('IntV', ('i', Int))
_B.declare('StrV', ('s', String))
_B.declare('ListV', ('items', z3.SeqSort(_V)))
_B.declare('DictV', ('keys', z3.SeqSort(String)), ('vals', z3.ArraySort(String, _V)))
_B.declare('TupV', ('titems', z3.SeqSort(_V)))
_B.declare('ObjV', ('oid', Int))
_B.declare('OtherV', ('tag', Int))
V = _B.create()
SeqV = z3.SeqSort(V)
SeqS = z3.SeqSort(String)
SetV = z3.ArraySort(V, Bool)
SetS = z3.ArraySort(String, Bool)

_uid = [0]


def fresh(name, sort):
    _uid[0] += 1
    return z3.Const("%s!%d" % (name, _uid[0]), sort)


def reset_fresh():
    _uid[0] = 0


def is_app(t, name):
    return z3.is_app(t) and t.decl().name() == name


def kind(t):
    return t.decl().kind() if z3.is_app(t) else None


def same(a, b):
    return a.eq(b)


def acc(name, t):
    """Accessor application, simplified over a constructor."""
    f = getattr(V, name)
    ctor = {'b': 'BoolV', 'i': 'IntV', 's': 'StrV', 'items': 'ListV', 'keys': 'DictV',
            'vals': 'DictV', 'titems': 'TupV', 'oid': 'ObjV', 'tag': 'OtherV'}[name]
    if is_app(t, ctor):
        return t.arg(1 if name == 'vals' else 0)
    if kind(t) == z3.Z3_OP_ITE:
        a, b = acc(name, t.arg(1)), acc(name, t.arg(2))
        if a.eq(b):
            return a
        if _simple(t.arg(1)) and _simple(t.arg(2)):
            return z3.If(t.arg(0), a, b)
    return f(t)


def _simple(t):
    return is_app(t, 'BoolV') or is_app(t, 'IntV') or is_app(t, 'StrV') or is_app(t, 'ListV') or is_app(t, 'DictV')


def tester(ctor, t):
    d = t.decl().name() if z3.is_app(t) else None
    ctors = ('NoneV', 'BoolV', 'IntV', 'StrV', 'ListV', 'DictV', 'TupV', 'ObjV', 'OtherV')
    if d in ctors:
        return z3.BoolVal(d == ctor)
    return getattr(V, 'is_' + ctor)(t)


# ---------------------------------------------------------------- sequences
def empty(sort=SeqV):
    return z3.Empty(sort)


def unit(x):
    return z3.Unit(x)


def is_empty_seq(t):
    return kind(t) == z3.Z3_OP_SEQ_EMPTY


def parts(t):
    """Flattened concat parts of a sequence term."""
    if is_empty_seq(t):
        return []
    if kind(t) == z3.Z3_OP_SEQ_CONCAT and not z3.is_string(t):
        r = []
        for i in range(t.num_args()):
            r += parts(t.arg(i))
        return r
    return [t]


def is_unit(t):
    return kind(t) == z3.Z3_OP_SEQ_UNIT


def concat(*ts):
    sort = ts[0].sort()
    ps = []
    for t in ts:
        ps += parts(t)
    return from_parts(ps, sort)


def from_parts(ps, sort):
    if not ps:
        return z3.Empty(sort)
    if len(ps) == 1:
        return ps[0]
    # left-nested binary concats, so that a prefix shared by two terms is one term
    r = ps[0]
    for p in ps[1:]:
        r = z3.Concat(r, p)
    return r


def spine(t):
    """Elements of a sequence with a known spine, else None."""
    ps = parts(t)
    if all(is_unit(p) for p in ps):
        return [p.arg(0) for p in ps]
    return None


def seq_of(xs, sort=SeqV):
    return from_parts([z3.Unit(x) for x in xs], sort)


def simp(t):
    return z3.simplify(t)


def length(t):
    ps = parts(t)
    n = 0
    terms = []
    for p in ps:
        if is_unit(p):
            n += 1
        elif is_app(p, 'sorted_') or is_app(p, 'reversed_'):
            terms.append(length(p.arg(0)))
        else:
            terms.append(z3.Length(p))
    if not terms:
        return z3.IntVal(n)
    r = terms[0]
    for x in terms[1:]:
        r = r + x
    return r + n if n else r


def int_eq(a, b):
    """Syntactic (simplifier) decision of a == b; None when unknown."""
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return None


def split_at(t, off):
    """(prefix parts, suffix parts) when off is syntactically a cut of t, else None."""
    ps = parts(t)
    cur = z3.IntVal(0)
    for i in range(len(ps) + 1):
        if int_eq(cur, off):
            return ps[:i], ps[i:]
        if i < len(ps):
            cur = cur + length(ps[i])
    return None


def take(t, n):
    r = split_at(t, n)
    if r is not None:
        return from_parts(r[0], t.sort())
    b = front(t)
    if b is not None: return ite(z3.And(n >= 0, n <= b[1], b[1] <= z3.Length(b[0])), z3.Extract(b[0], z3.IntVal(0), n), z3.Extract(t, z3.IntVal(0), n))
    return z3.Extract(t, z3.IntVal(0), n)


def front(t):
    """(q, j) if t starts with the first j elements of q"""
    ps = parts(t)
    if len(ps) > 1 and kind(ps[0]) == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(ps[0].arg(1)) and ps[0].arg(1).as_long() == 0: return ps[0].arg(0), ps[0].arg(2)
    if len(ps) > 1 and not is_unit(ps[0]): return ps[0], z3.Length(ps[0])


def drop(t, n):
    r = split_at(t, n)
    if r is not None:
        return from_parts(r[1], t.sort())
    return z3.Extract(t, n, z3.Length(t) - n)


def nth(t, i):
    r = split_at(t, i)
    if r is not None and r[1] and is_unit(r[1][0]):
        return r[1][0].arg(0)
    b = front(t)
    if b is not None: return ite(z3.And(i >= 0, i < b[1], b[1] <= z3.Length(b[0])), b[0][i], t[i])
    return t[i]


# set of the elements of a sequence
_elems = {}


_elems_memo = {}


def elems(t):
    if kind(t) != z3.Z3_OP_ITE: return elems1(t)
    r = _elems_memo.get(t.get_id())
    if r is None: r = _elems_memo[t.get_id()] = (t, elems1(t))
    return r[1]


def elems1(t):
    es = t.sort().basis()
    key = es.sexpr()
    if key not in _elems:
        _elems[key] = z3.Function('elems_' + key, t.sort(), z3.ArraySort(es, Bool))
    f = _elems[key]
    if is_empty_seq(t):
        return z3.K(es, z3.BoolVal(False))
    ps = parts(t)
    if len(ps) == 1:
        p = ps[0]
        if is_unit(p):
            return z3.Store(z3.K(es, z3.BoolVal(False)), p.arg(0), z3.BoolVal(True))
        if is_app(p, 'sorted_') or is_app(p, 'reversed_'):
            return elems(p.arg(0))
        if is_app(p, 'seq_remove_key'):
            return z3.Store(elems(p.arg(0)), p.arg(1), z3.BoolVal(False))
        if kind(p) == z3.Z3_OP_ITE:
            c, a, b = p.arg(0), p.arg(1), p.arg(2)
            pb = parts(b)
            if pb and is_unit(pb[-1]) and len(pb) == len(parts(a)) + 1 and all(x.eq(y) for x, y in zip(parts(a), pb)):
                k = pb[-1].arg(0)
                ea = elems(a)
                if z3.simplify(aselect(ea, k)).eq(c): return z3.Store(ea, k, z3.BoolVal(True))       # the keys after setting one (dset)
                return z3.If(c, ea, z3.Store(ea, k, z3.BoolVal(True)))
            return merge(c, elems(a), elems(b))
        if p.decl().name() == 'keys' and kind(p.arg(0)) == z3.Z3_OP_ITE:
            c, a, b = p.arg(0).children()
            return merge(c, elems(acc('keys', a)), elems(acc('keys', b)))
        return f(p)
    r = elems(ps[0])
    for p in ps[1:]:
        if is_unit(p):
            r = z3.Store(r, p.arg(0), z3.BoolVal(True))
        else:
            r = z3.SetUnion(r, elems(p))
    return r


def elems_axioms():
    elems(z3.Const('q0', SeqV)), elems(z3.Const('q1', SeqS))
    return [_elems[s.basis().sexpr()](z3.Empty(s)) == z3.K(s.basis(), z3.BoolVal(False)) for s in (SeqV, SeqS)]


def aselect(a, k):
    """Select over Store chains and constant arrays, decided where syntactic."""
    while True:
        kd = kind(a)
        if kd == z3.Z3_OP_STORE:
            e = z3.simplify(a.arg(1) == k)
            if z3.is_true(e):
                return a.arg(2)
            if z3.is_false(e):
                a = a.arg(0)
                continue
            rest = aselect(a.arg(0), k)
            return ite(e, a.arg(2), rest)
        if kd == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        if kd == z3.Z3_OP_ITE:
            return ite(a.arg(0), aselect(a.arg(1), k), aselect(a.arg(2), k))
        return z3.Select(a, k)


def chain(a):
    """a store chain as its base and the values by key, if the keys are literals"""
    ks = []
    while kind(a) == z3.Z3_OP_STORE and z3.is_string_value(a.arg(1)):
        ks.append((a.arg(1), a.arg(2)))
        a = a.arg(0)
    return a, ks


def merge(c, a, b):
    """a if c, else b, with the condition as far inside as it goes"""
    if z3.is_true(c) or a.eq(b): return a
    if z3.is_false(c): return b
    if kind(a) == kind(b) == z3.Z3_OP_DT_CONSTRUCTOR and a.decl().eq(b.decl()) and a.num_args() == 2 and a.decl().name() == 'DictV':
        return a.decl()(merge(c, a.arg(0), b.arg(0)), merge(c, a.arg(1), b.arg(1)))
    if z3.is_array(a):
        (x, xs), (y, ys) = chain(a), chain(b)
        if x.eq(y) and (xs or ys):
            names = {}
            for k, _ in reversed(xs + ys): names[k.as_string()] = k
            for k in names.values(): x = z3.Store(x, k, merge(c, aselect(a, k), aselect(b, k)))
            return x
    return ite(c, a, b)


_strset = z3.Function('strset', SeqV, SetS)


def strset(q):
    """{s : StrV(s) occurs in q}"""
    ps = parts(q)
    r = None
    for p in ps:
        if is_unit(p):
            x = p.arg(0)
            base = r if r is not None else z3.K(String, z3.BoolVal(False))
            c = tester('StrV', x)
            r = ite(z3.simplify(c), z3.Store(base, acc('s', x), z3.BoolVal(True)), base)
        else:
            t = _strset(p)
            r = t if r is None else z3.SetUnion(r, t)
    return r if r is not None else z3.K(String, z3.BoolVal(False))


def strset_facts(q, k):
    """definition of strset at k, for the opaque parts of q"""
    out = []
    for p in parts(q):
        if not is_unit(p):
            out.append(z3.Select(_strset(p), k) == z3.Select(elems(p), V.StrV(k)))
    return out


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return z3.Not(c)
        if z3.is_true(a):
            return z3.Or(c, b)
        if z3.is_false(a):
            return z3.And(z3.Not(c), b)
        if z3.is_false(b):
            return z3.And(c, a)
        if z3.is_true(b):
            return z3.Or(z3.Not(c), a)
    return z3.If(c, a, b)


def member(t, x):
    return aselect(elems(t), x)


_sorted_fns = {}


def sorted_(t):
    key = t.sort().sexpr()
    if key not in _sorted_fns:
        _sorted_fns[key] = z3.Function('sorted_', t.sort(), t.sort())
    return _sorted_fns[key](t)


_rev_fns = {}


def reversed_(t):
    if is_app(t, 'reversed_'):
        return t.arg(0)
    sp = spine(t)
    if sp is not None:
        return seq_of(list(reversed(sp)), t.sort())
    key = t.sort().sexpr()
    if key not in _rev_fns:
        _rev_fns[key] = z3.Function('reversed_', t.sort(), t.sort())
    return _rev_fns[key](t)


class Fold:
    """Spec function over sequences defined by snoc recursion:
         f([], ps) = init(ps);  f(s ++ [x], ps) = step(f(s, ps), x, ps, s)
    """
    registry = {}

    def __init__(self, name, init, step, ret, params=(), elem=V, dist=None):
        self.name, self.init, self.step = name, init, step
        self.f = z3.Function(name, z3.SeqSort(elem), *params, ret)
        self.ret = ret
        self.elem = elem
        Fold.registry[name] = self

    def __call__(self, seq, *ps):
        prts = parts(seq)
        if not prts:
            return self.init(*ps)
        if is_unit(prts[-1]):
            s = from_parts(prts[:-1], seq.sort())
            return self.step(self(s, *ps), prts[-1].arg(0), s, *ps)
        if len(prts) == 1 and kind(prts[0]) == z3.Z3_OP_ITE:
            t = prts[0]
            return ite(t.arg(0), self(t.arg(1), *ps), self(t.arg(2), *ps))
        return self.f(seq, *ps)


class Scan:
    """Spec function over (state, sequence) by snoc: the fold of step starting from a given state."""

    def __init__(self, name, step, state, elem=V, params=()):
        self.step = step
        self.f = z3.Function(name, state, z3.SeqSort(elem), *params, state)

    def __call__(self, st0, seq, *ps):
        prts = parts(seq)
        if not prts:
            return st0
        if is_unit(prts[-1]):
            s = from_parts(prts[:-1], seq.sort())
            return self.step(self(st0, s, *ps), prts[-1].arg(0), *ps)
        if len(prts) == 1 and kind(prts[0]) == z3.Z3_OP_ITE:
            t = prts[0]
            return ite(t.arg(0), self(st0, t.arg(1), *ps), self(st0, t.arg(2), *ps))
        return self.f(st0, seq, *ps)


class FoldR:
    """Spec function over sequences by recursion from the front: f([], ps) = init(ps);  f([x] ++ s, ps) = step(f(s, ps), x, s, ps)"""

    def __init__(self, name, init, step, ret, params=(), elem=V):
        self.init, self.step = init, step
        self.f = z3.Function(name, z3.SeqSort(elem), *params, ret)
        Fold.registry[name] = self

    def __call__(self, seq, *ps):
        prts = parts(seq)
        if not prts: return self.init(*ps)
        if is_unit(prts[0]):
            s = from_parts(prts[1:], seq.sort())
            return self.step(self(s, *ps), prts[0].arg(0), s, *ps)
        if len(prts) == 1 and kind(prts[0]) == z3.Z3_OP_ITE:
            t = prts[0]
            return ite(t.arg(0), self(t.arg(1), *ps), self(t.arg(2), *ps))
        return self.f(seq, *ps)


# ---------------------------------------------------------------- dictionaries
def dhas(d, k):
    """k in d, for d : V (DictV) and k : String."""
    return member(acc('keys', d), k)


def dget(d, k):
    return aselect(acc('vals', d), k)


def dset(d, k, v):
    ks = acc('keys', d)
    has = z3.simplify(member(ks, k)) if not is_empty_seq(ks) else z3.BoolVal(False)
    nk = ite(has, ks, concat(ks, z3.Unit(k)))
    return V.DictV(nk, z3.Store(acc('vals', d), k, v))


def dput(d, k, v):
    """d with the value of a key that is there replaced"""
    return V.DictV(acc('keys', d), z3.Store(acc('vals', d), k, v))


_del = z3.Function('seq_remove_key', SeqS, String, SeqS)


def seq_remove(ks, k):
    """keys without k (keys are duplicate free)."""
    ps = parts(ks)
    if not ps:
        return ks
    if is_unit(ps[-1]):
        s = from_parts(ps[:-1], ks.sort())
        return ite(z3.simplify(ps[-1].arg(0) == k), s, concat(seq_remove(s, k), ps[-1]))
    return _del(ks, k)


def ddel(d, k):
    ks = acc('keys', d)
    return V.DictV(seq_remove(ks, k), acc('vals', d))


DUMMYV = z3.Const('undef_v', V)
EMPTY_DICT = V.DictV(z3.Empty(SeqS), z3.K(String, DUMMYV))


def sv(s):
    return z3.StringVal(s)


def mkstr(t):
    """StrV(s(x)) is x: a term s(x) is only formed where x is known to be a string"""
    if is_app(t, 's') and t.decl().kind() == z3.Z3_OP_DT_ACCESSOR:
        return t.arg(0)
    return V.StrV(t)


def S(t):
    """Box a string (python or term)."""
    return V.StrV(sv(t) if isinstance(t, str) else t)


def renorm(t, cache=None):
    """Rebuild a term through the smart constructors (after a substitution)."""
    cache = {} if cache is None else cache
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    if not z3.is_app(t) or t.num_args() == 0 or z3.is_quantifier(t):
        r = t
    else:
        ch = [t.arg(i) for i in range(t.num_args())]
        nc = [renorm(c, cache) for c in ch]
        d = t.decl()
        n, kd = d.name(), d.kind()
        if kd == z3.Z3_OP_UNINTERPRETED and n.startswith('elems_'): r = elems(nc[0])
        elif kd == z3.Z3_OP_UNINTERPRETED and n in Fold.registry and d.eq(Fold.registry[n].f): r = Fold.registry[n](*nc)
        elif kd == z3.Z3_OP_UNINTERPRETED and n == 'strset': r = strset(nc[0])
        elif kd == z3.Z3_OP_UNINTERPRETED and n == 'reversed_': r = reversed_(nc[0])
        elif kd == z3.Z3_OP_UNINTERPRETED and n == 'seq_remove_key': r = seq_remove(*nc)
        elif kd == z3.Z3_OP_SEQ_CONCAT and not z3.is_string(t): r = concat(*nc)
        elif kd == z3.Z3_OP_SEQ_LENGTH and not z3.is_string(ch[0]): r = length(nc[0])
        elif kd == z3.Z3_OP_SELECT and len(nc) == 2: r = aselect(*nc)
        elif kd == z3.Z3_OP_DT_ACCESSOR and n in ('b', 'i', 's', 'items', 'keys', 'vals', 'titems', 'oid', 'tag'): r = acc(n, nc[0])
        elif kd == z3.Z3_OP_ITE: r = ite(*nc)
        elif all(a.eq(b) for a, b in zip(ch, nc)): r = t
        else: r = d(*nc)
        if z3.is_bool(r) and z3.is_not(r):
            a = r.arg(0)
            if z3.is_true(a): r = z3.BoolVal(False)
            elif z3.is_false(a): r = z3.BoolVal(True)
    cache[k] = (t, r)
    return r
