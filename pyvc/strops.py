"""String operations with a meaning as transducers: engine models of re, per-character joins, and the obligation that decides them."""
import ast
import itertools
import re
import z3
from . import terms as T
from .types import *
from .core import *
from .expr import is_str, st_term, mk_str, mk_bool, py_string
from . import strtrans as X
from .strtrans import sp, sc

OPS = {}          # uninterpreted symbol -> how to build its transducer / automaton
_n = itertools.count(1)


class Match:
    """A successful match, known by the text of its groups."""

    def __init__(self, groups, string=None):
        self.groups = groups
        if string is not None: self.string = string

    def group(self, *a): raise NotImplementedError
    groups = start = end = group


def op_term(kind, data, t, sort=T.String):
    name = '%s!%d' % (kind, next(_n))
    OPS[name] = data
    return z3.Function(name, T.String, sort)(t)


def flat(items):
    """single-character shape of a parsed pattern (groups removed) -> list of (items, group index)"""
    out = []
    for op, av in items:
        if op is sc.SUBPATTERN and not av[1] and not av[2]: out += [(x, av[0] if g is None else g) for x, g in flat(av[3])]
        else: out.append(((op, av), None))
    return out


def ranges_of(it):
    op, av = it
    if op is sc.LITERAL: return [(av, av + 1)]
    if op is sc.NOT_LITERAL: return X.complement([(av, av + 1)])
    if op is sc.IN: return X.in_ranges(av)
    if op is sc.ANY: return X.complement(X.cset('\n'))
    if op is sc.BRANCH:
        rs = []
        for b in av[1]:
            f = flat(b)
            if len(f) != 1: return None
            r = ranges_of(f[0][0])
            if r is None: return None
            rs += r
        return rs
    return None


def pattern_sets(items):
    """character sets of a pattern, for the partition"""
    out = []
    for op, av in items:
        if op in (sc.LITERAL, sc.NOT_LITERAL): out.append([(av, av + 1)])
        elif op is sc.IN:
            out.append(X.in_ranges(av))
            out += [[(v, v + 1)] for o, v in av if o is sc.LITERAL]
        elif op is sc.BRANCH:
            for b in av[1]: out += pattern_sets(b)
        elif op is sc.SUBPATTERN: out += pattern_sets(av[3])
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT): out += pattern_sets(av[2])
    return out


class Sub:
    """data of one substitution: pattern shape and the replacement as a function of concrete / symbolic groups"""

    def __init__(self, pat, repl, eng):
        if pat.flags & (re.I | re.M | re.X | re.A | re.S): raise Unsupported("flags of a regular expression")
        self.pat, self.eng = pat, eng
        self.items = list(sp.parse(pat.pattern, pat.flags & ~re.U))
        self.repl = repl
        self.consts = repl_consts(repl)
        f = flat(self.items)
        self.shape = None
        if len(f) == 1 and ranges_of(f[0][0]) is not None:
            self.shape = 'char'
            self.set, self.group = ranges_of(f[0][0]), f[0][1]
            return
        if len(f) == 2 and f[0][0][0] is sc.MAX_REPEAT and f[0][0][1][1] == sc.MAXREPEAT and f[0][0][1][0] in (0, 1):
            (lo, hi, body), gA = f[0][0][1], f[0][1]
            b = flat(body)
            a = ranges_of(b[0][0]) if len(b) == 1 else None
            it2, gB = f[1]
            if a is not None:
                if it2[0] is sc.AT and it2[1] is sc.AT_END_STRING:
                    self.shape, self.run = 'run', (a, lo, gA, [], False, None, True)
                elif it2[0] is sc.MAX_REPEAT and it2[1][0] == 1 and it2[1][1] == sc.MAXREPEAT:
                    bb = flat(it2[1][2])
                    r = ranges_of(bb[0][0]) if len(bb) == 1 else None
                    if r is not None: self.shape, self.run = 'run', (a, lo, gA, r, True, gB, False)
                elif ranges_of(it2) is not None:
                    self.shape, self.run = 'run', (a, lo, gA, ranges_of(it2), False, gB, False)
        if self.shape is None: raise Unsupported("substitution of the pattern %r" % pat.pattern)
        if self.shape == 'run':
            a, lo, gA, b, plus, gB, end = self.run
            ng = pat.groups
            self.syms = {g: z3.String('group!%d' % g) for g in range(1, ng + 1)}
            r = self.expand({g: Sc(t, StrT) for g, t in self.syms.items()})
            self.parts = []
            for p in str_parts(r):
                if z3.is_string_value(p): self.parts.append(py_string(p))
                else:
                    g = [g for g, t in self.syms.items() if t.eq(p)]
                    if not g: raise Unsupported("replacement %s" % r)
                    self.parts.append(g[0])
            self.consts |= set(''.join(p for p in self.parts if isinstance(p, str)))

    def expand(self, groups):
        """the replacement text for given groups, as a term"""
        if isinstance(self.repl, str):
            if not all(isinstance(v, Py) for v in groups.values()):
                ts = []
                for b in re.split(r'(\\g<\d+>|\\.)', self.repl):
                    if not b: continue
                    m = re.fullmatch(r'\\(?:g<(\d+)>|([1-9]))', b)
                    if m: ts.append(st_term(groups[int(m.group(1) or m.group(2))]))
                    elif b == '\\\\': ts.append(T.sv('\\'))
                    elif b[0] == '\\': raise Unsupported("escape in a replacement")
                    else: ts.append(T.sv(b))
                return z3.simplify(z3.Concat(*ts)) if len(ts) > 1 else ts[0] if ts else T.sv('')
            raise AssertionError
        outs = self.eng.call(self.st, self.fn, [Py(Match(groups, groups.get(0)))], {}, None)
        outs = [(s, r) for s, r in outs if self.eng.feasible(s)]
        if len(outs) != 1 or not is_str(outs[0][1]): raise Unsupported("replacement function: %r" % [r for _, r in outs][:3])
        return st_term(outs[0][1])

    fn = st = None

    def sets(self): return pattern_sets(self.items) + [X.cset(c) for c in self.consts]

    def char_out(self, ch):
        if isinstance(self.repl, str): return self.pat.sub(self.repl, ch)
        g = {0: Py(ch)}
        if self.group: g[self.group] = Py(ch)
        r = z3.simplify(self.expand(g))
        if not z3.is_string_value(r): raise X.Undecidable("replacement of %r is not a constant: %s" % (ch, r))
        return py_string(r)

    def build(self, alpha):
        if self.shape == 'char':
            return X.MapChars(char_map(alpha, alpha.of_set(self.set), self.char_out))
        a, lo, gA, b, plus, gB, end = self.run
        A, B = alpha.of_set(a), alpha.of_set(b)
        pre, kA, mid, kB, post = (), 0, (), 0, ()
        stage = 0
        for p in self.parts:
            if isinstance(p, str):
                w = alpha.word(p)
                if stage == 0: pre += w
                elif stage == 1: mid += w
                else: post += w
            elif p == gA and stage <= 1 and not mid: kA, stage = kA + 1, 1
            elif p == gB and (stage < 2 or not post): kB, stage = kB + 1, 2
            else: raise X.Undecidable("order of the groups in a replacement")
        if kA == 0:
            mid, pre = pre + mid, ()
        if kA > 1 and not (len(A) == 1 and all(map(alpha.single, A))) or kB > 1 and not (len(B) == 1 and all(map(alpha.single, B))):
            raise X.Undecidable("repetition of a group of several characters")
        if kB == 0 and gB is None and B and not all(map(alpha.single, B)): raise X.Undecidable("a class is dropped")
        return X.SubRun(A, lo, B, plus, end, pre, kA, mid, kB, post)


def str_parts(t):
    t = z3.simplify(t)
    if z3.is_string_value(t): return [t] if py_string(t) else []
    if T.kind(t) == z3.Z3_OP_SEQ_CONCAT: return [p for i in range(t.num_args()) for p in str_parts(t.arg(i))]
    return [t]


def char_map(alpha, inside, f):
    tab = {}

    def out(a):
        if a not in inside: return (a,)
        if a not in tab:
            rs = set()
            for ch in ([alpha.rep[a]] if alpha.single(a) else alpha.samples(a)):
                o = f(ch)
                if alpha.single(a): rs.add(tuple(alpha.sym(c) if c == ch else alpha.word(c)[0] for c in o))
                else: rs.add(tuple(a if c == ch else alpha.word(c)[0] for c in o))
            if len(rs) != 1: raise X.Undecidable("characters of one class are treated differently")
            tab[a] = rs.pop()
        return tab[a]
    return out


def repl_consts(repl):
    """one-character constants a replacement compares with or produces"""
    if isinstance(repl, str): return set(c for c in re.sub(r'\\(g<\d+>|[1-9])', '', repl)) | {'\\'}
    out = set()

    def obj(o, d=0):
        if d > 3: return
        if isinstance(o, str) and len(o) <= 12: out.update(o)
        elif isinstance(o, dict):
            for k, v in o.items():
                obj(k, d + 1)
                obj(v, d + 1)
        elif isinstance(o, (list, tuple, set, frozenset)) and len(o) < 300:
            for v in o: obj(v, d + 1)
    node, glob = (repl.node, repl.glob) if isinstance(repl, Clo) else repl
    for n in ast.walk(node):
        if isinstance(n, ast.Constant): obj(n.value)
        if isinstance(n, ast.Name) and n.id in glob and not callable(glob[n.id]): obj(glob[n.id])
    return out


# ------------------------------------------------------------------ engine models
def compiled(p):
    if isinstance(p, Py) and isinstance(p.o, re.Pattern): return p.o
    if isinstance(p, Py) and isinstance(p.o, str): return re.compile(p.o)
    raise Unsupported("an unknown regular expression")


def m_sub(eng, st, args, kw, node):
    pat = compiled(args[0])
    if kw or len(args) != 3: raise Unsupported("re.sub with a count")
    out = []
    for s, x in eng.force(st, args[2]):
        if not is_str(x):
            out.append((s, Exc(TypeError)))
            continue
        r = args[1]
        if isinstance(x, Py) and isinstance(r, Py) and isinstance(r.o, str):
            out.append((s, Py(pat.sub(r.o, x.o))))
            continue
        if isinstance(r, Py) and isinstance(r.o, str): d = Sub(pat, r.o, eng)
        else:
            fn = r
            if isinstance(r, Bound):     # a bound method of a modelled object
                cls = eng.class_objs[r.obj.ty.cls]
                f = getattr(cls, r.name)
                d = Sub.__new__(Sub)
                d.fn, d.st = r, s
                eng.assumed.add("a replacement function depends only on the matched text")
                import inspect
                d.__init__(pat, (eng.source(f), f.__globals__), eng)
                d.consts |= class_consts(cls)
            else:
                d = Sub.__new__(Sub)
                d.fn, d.st = r, s
                eng.assumed.add("a replacement function depends only on the matched text")
                node2 = r if isinstance(r, Clo) else (eng.source(r.o), r.o.__globals__)
                d.__init__(pat, node2, eng)
        out.append((s, Sc(op_term('resub', ('fst', d), st_term(x)), StrT)))
    return out


def class_consts(cls):
    out = set()
    for n, v in vars(cls).items():
        if isinstance(v, (list, tuple, dict)): out |= repl_consts((ast.parse('x'), {'x': v}))
    return out


def m_find(how):
    def model(eng, st, args, kw, node):
        pat = compiled(args[0])
        if kw or len(args) != 2: raise Unsupported("re.%s with a position" % how)
        out = []
        for s, x in eng.force(st, args[1]):
            if not is_str(x):
                out.append((s, Exc(TypeError)))
                continue
            if isinstance(x, Py):
                m = getattr(pat, how)(x.o)
                out.append((s, Py(None) if m is None else Py(Match({0: Py(m.group()), **{i + 1: Py(g) for i, g in enumerate(m.groups())}}, x))))
                continue
            key = (pat.pattern, pat.flags, how)
            if key not in _preds:
                name = 'rx!%d' % next(_n)
                OPS[name] = ('rx', pat, how)
                _preds[key] = z3.Function(name, T.String, z3.BoolSort())
            p = _preds[key](st_term(x))
            if eng.models.get('languages'):
                from .lang import language
                l = language(pat, how)
                if l is not None: s = s.assume(p == z3.InRe(st_term(x), l))
            for s2, good in eng.branch(s, mk_bool(p)):
                h = eng.models.get(('groups', pat.pattern, how))
                if good and h is not None: out += h(eng, s2, x)
                else: out.append((s2, Py(Match({0: None}, x)) if good else Py(None)))
        return out
    return model


_preds = {}


def pred(pattern, how, t):
    """the predicate 'pattern.how(t) succeeds', as the engine writes it"""
    pat = re.compile(pattern) if isinstance(pattern, str) else pattern
    key = (pat.pattern, pat.flags, how)
    if key not in _preds:
        name = 'rx!%d' % next(_n)
        OPS[name] = ('rx', pat, how)
        _preds[key] = z3.Function(name, T.String, z3.BoolSort())
    return _preds[key](t)


def m_group(eng, st, args, kw, node):
    m = args[0].o
    idx = [a.o for a in args[1:]] or [0]
    vs = []
    for i in idx:
        v = m.groups.get(i)
        if v is None: raise Unsupported("group %r of a match" % (i,))
        vs.append(v)
    return [(st, vs[0] if len(vs) == 1 else Tup(vs))]


def m_groups(eng, st, args, kw, node):
    m = args[0].o
    n = max(m.groups)
    if any(m.groups.get(i) is None for i in range(1, n + 1)): raise Unsupported("groups of a match")
    return [(st, Tup([m.groups[i] for i in range(1, n + 1)]))]


def m_pos(which):
    def model(eng, st, args, kw, node):
        m = args[0].o
        if len(args) > 1 or not isinstance(m.groups.get(0), Py): raise Unsupported("position of a match")
        return [(st, Py(0 if which == 'start' else len(m.groups[0].o)))]
    return model


RE = {re.sub: m_sub, re.search: m_find('search'), re.match: m_find('match'), re.fullmatch: m_find('fullmatch'),
      ('re', 'sub'): lambda eng, st, args, kw, node: m_sub(eng, st, args, kw, node),
      ('re', 'search'): m_find('search'), ('re', 'match'): m_find('match'), ('re', 'fullmatch'): m_find('fullmatch'),
      (Match, 'group'): m_group, (Match, 'groups'): m_groups, (Match, 'start'): m_pos('start'), (Match, 'end'): m_pos('end')}


class CharMap:
    """"".join(f(c) for c in s)"""

    def __init__(self, eng, st, fid, comp, consts):
        self.eng, self.st, self.fid, self.comp, self.consts = eng, st, fid, comp, consts

    def sets(self): return [X.cset(c) for c in self.consts]

    def char_out(self, ch):
        eng = self.eng
        st = self.st.copy()
        g = self.comp.generators[0]
        f2 = eng.new_frame(st, self.fid, st.fmeta[self.fid]['globals'], {g.target.id})
        st.fmeta[f2]['nonlocal'] = ()
        st.frames[f2][g.target.id] = Py(ch)
        keep = True
        for c in g.ifs:
            outs = [(s, b) for s, v in eng.ev(c, st, f2) for s, b in eng.branch(s, v)]
            if len(outs) != 1: raise X.Undecidable("condition on a character")
            st, b = outs[0]
            if not b: return ''
        outs = eng.ev(self.comp.elt, st, f2)
        if len(outs) != 1 or not is_str(outs[0][1]): raise X.Undecidable("image of a character: %r" % (outs[0][1] if outs else None))
        t = z3.simplify(st_term(outs[0][1]))
        if not z3.is_string_value(t): raise X.Undecidable("image of a character is not a constant")
        return py_string(t)

    def build(self, alpha): return X.MapChars(char_map(alpha, set(range(alpha.n)), self.char_out))


def char_join(eng, st, fid, comp, x):
    """term of ''.join of a comprehension over the characters of the string x"""
    g = comp.generators[0]
    names = {}
    for n in ast.walk(comp):
        if isinstance(n, ast.Name) and n.id != g.target.id:
            v = eng.lookup(st, fid, n.id)
            if isinstance(v, Loc):
                try: names[n.id] = py_value(eng.read(st, v))
                except ValueError: raise Unsupported("a table that is not constant")
            elif isinstance(v, Py): names[n.id] = v.o
    consts = repl_consts((comp, names))
    eng.assumed.add("an expression over one character treats characters it does not mention alike (checked on samples of each class)")
    return op_term('chars', ('fst', CharMap(eng, st, fid, comp, consts)), st_term(x))


def py_value(t):
    from .contract import term_value
    return term_value(t)


# ------------------------------------------------------------------ terms -> transducers
def collect(t, sets, seen):
    k = t.get_id()
    if k in seen: return
    seen.add(k)
    if z3.is_string_value(t):
        sets += [X.cset(c) for c in py_string(t)]
        return
    n = t.decl().name()
    if n in OPS:
        d = OPS[n]
        sets += d[1].sets() if d[0] == 'fst' else pattern_sets(list(sp.parse(d[1].pattern, d[1].flags & ~re.U))) + [X.cset('\n')]
    for i in range(t.num_args()): collect(t.arg(i), sets, seen)


def compile_(t, base, alpha):
    if t.eq(base): return X.Ident()
    if z3.is_string_value(t): return X.Const(alpha.word(py_string(t)))
    n = t.decl().name()
    kd = T.kind(t)
    if kd == z3.Z3_OP_SEQ_CONCAT:
        ps = str_parts(t)
        var = [i for i, p in enumerate(ps) if not z3.is_string_value(p)]
        if len(var) != 1: raise X.Undecidable("several variable parts in %s" % t)
        i = var[0]
        lit = lambda qs: tuple(x for p in qs for x in alpha.word(py_string(p)))
        return X.Affix(lit(ps[:i]), compile_(ps[i], base, alpha), lit(ps[i + 1:]))
    if n == 'replace_all' and z3.is_string_value(t.arg(1)) and z3.is_string_value(t.arg(2)):
        return compose(compile_(t.arg(0), base, alpha), X.ReplaceAll(alpha.word(py_string(t.arg(1))), alpha.word(py_string(t.arg(2)))))
    if kd == z3.Z3_OP_SEQ_REPLACE and z3.is_string_value(t.arg(1)) and z3.is_string_value(t.arg(2)):
        return compose(compile_(t.arg(0), base, alpha), X.ReplaceFirst(alpha.word(py_string(t.arg(1))), alpha.word(py_string(t.arg(2)))))
    if n in OPS and OPS[n][0] == 'fst':
        return compose(compile_(t.arg(0), base, alpha), OPS[n][1].build(alpha))
    raise X.Undecidable("no transducer for %s" % t.decl())


def compose(e, d): return d if isinstance(e, X.Ident) else X.Compose(e, d)


def cond(f, base, alpha):
    """automaton of a condition on the variable, or None when it says something else"""
    if z3.is_not(f):
        d = cond(f.arg(0), base, alpha)
        return X.Not(d) if d is not None else None
    kd = T.kind(f)
    if kd == z3.Z3_OP_AND:
        ds = [cond(f.arg(i), base, alpha) for i in range(f.num_args())]
        return None if any(d is None for d in ds) else X.All(ds)
    n = f.decl().name() if z3.is_app(f) else ''
    t = d = None
    if n in OPS and OPS[n][0] == 'rx': t, d = f.arg(0), X.Rx(OPS[n][1], OPS[n][2], alpha)
    elif kd == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(f.arg(1)): t, d = f.arg(0), X.HasSub(alpha.word(py_string(f.arg(1))))
    elif kd == z3.Z3_OP_SEQ_PREFIX and z3.is_string_value(f.arg(0)): t, d = f.arg(1), X.HasSub(alpha.word(py_string(f.arg(0))), 'prefix')
    elif kd == z3.Z3_OP_SEQ_SUFFIX and z3.is_string_value(f.arg(0)): t, d = f.arg(1), X.HasSub(alpha.word(py_string(f.arg(0))), 'suffix')
    elif kd == z3.Z3_OP_EQ and z3.is_string(f.arg(0)):
        for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
            if z3.is_string_value(y): t, d = x, X.HasSub(alpha.word(py_string(y)), 'equals')
    if t is None or not mentions(t, base): return None
    try: e = compile_(t, base, alpha)
    except X.Undecidable: return None
    return d if isinstance(e, X.Ident) else X.Pre(e, d)


def mentions(t, base):
    return t.eq(base) or any(mentions(t.arg(i), base) for i in range(t.num_args()))


def literal_and(f):
    """conjuncts of a path condition"""
    if T.kind(f) == z3.Z3_OP_AND: return [g for i in range(f.num_args()) for g in literal_and(f.arg(i))]
    if z3.is_not(f) and T.kind(f.arg(0)) == z3.Z3_OP_OR: return [z3.Not(g) for i in range(f.arg(0).num_args()) for g in literal_and(f.arg(0).arg(i))]
    return [f]


class ReadsBack:
    """Obligation: on this path the reader turns the text into the original string (then `suffix`)."""

    def __init__(self, e, reader, base, domain=(), suffix='', term=None, replay=None, post=(), wrap=None, image=None, witness=None):
        self.pc = list(e.st1.pc)
        self.term = e.r if term is None else term
        self.base, self.reader, self.suffix, self.replay = base, reader, suffix, replay
        self.domain, self.post, self.image = list(domain), post, image
        self.wrap = wrap or (lambda s: s)
        self.readers = reader if isinstance(reader, (list, tuple)) else [reader]
        self.stats = ''

    def sexpr(self): return 'reads-back(%s)' % self.term

    def __str__(self): return 'the reader gives back %s from %s' % (self.base, self.term)

    def decide(self):
        sets, seen = [], set()
        term = z3.simplify(self.term)
        if self.post: term = z3.Concat(term, T.sv(self.post))
        collect(term, sets, seen)
        conds = [g for f in self.pc + self.domain for g in literal_and(f)]
        conds = [g for g in conds if mentions(g, self.base) and not has_ite(g)]
        for g in conds: collect(g, sets, seen)
        if self.image is not None: collect(self.image, sets, seen)
        for r in self.readers: sets += [X.cset(c) for c in r.special] + [list(x) for x in getattr(r, 'sets', ())]
        sets.append(X.cset('\n'))
        alpha = X.Alpha(uniq_sets(sets))
        t = compile_(term, self.base, alpha)
        for r in self.readers: t = X.Compose(t, r.bind(alpha))
        ds = [d for d in (cond(g, self.base, alpha) for g in conds) if d is not None]
        ref = compile_(self.image, self.base, alpha) if self.image is not None else None
        suf = tuple(X.WEND if c == X.WEND else alpha.word(c)[0] for c in self.suffix)
        a = X.check(t, X.All(ds), alpha, suf, reference=ref)
        self.stats = '%d classes, %d states' % (alpha.n, a.states)
        return a, alpha


def has_ite(t):
    return T.kind(t) == z3.Z3_OP_ITE or any(has_ite(t.arg(i)) for i in range(t.num_args()))


def uniq_sets(sets):
    seen, out = set(), []
    for s in sets:
        k = tuple(sorted(s))
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out
