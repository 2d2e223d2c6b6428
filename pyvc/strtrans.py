"""Decision procedure for string obligations: functional finite-state transducers over a finite partition of the code points.

An encoder (a term over one string variable, built from literals, concatenation, replacement of literals, regular-expression
substitution of stated shapes and per-character maps) and a reader (a hand written automaton of the language that reads the text)
are composed; `check` decides exactly whether the composition is the identity on a regular set of strings, and gives strings on
which it is not.  Characters of one class of the partition are treated alike by every part (copied), so the classes are the alphabet.
"""
import re
import collections
try:
    from re import _parser as sp, _constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc

MAXCP = 0x110000
WEND = 'WEND'          # symbol a reader emits at the end of a word


class Undecidable(Exception):
    pass


# ------------------------------------------------------------------ partition
def cset(chars): return [(ord(c), ord(c) + 1) for c in chars]


_cat = {}


def cat_ranges(cat):
    if cat not in _cat:
        p = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
             sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[cat]
        r = re.compile(p)
        out, start = [], None
        for i in range(MAXCP):
            m = r.match(chr(i)) is not None
            if m and start is None: start = i
            if not m and start is not None:
                out.append((start, i))
                start = None
        if start is not None: out.append((start, MAXCP))
        _cat[cat] = out
    return _cat[cat]


def complement(rs):
    out, p = [], 0
    for a, b in sorted(rs):
        if a > p: out.append((p, a))
        p = max(p, b)
    if p < MAXCP: out.append((p, MAXCP))
    return out


def in_ranges(items):
    neg, rs = False, []
    for op, av in items:
        if op is sc.NEGATE: neg = True
        elif op is sc.LITERAL: rs.append((av, av + 1))
        elif op is sc.RANGE: rs.append((av[0], av[1] + 1))
        elif op is sc.CATEGORY: rs += cat_ranges(av)
        else: raise Undecidable('regular expression set %s' % op)
    return complement(rs) if neg else rs


class Alpha:
    """Partition of the code points: two characters are in one class iff no given set separates them."""

    def __init__(self, sets):
        cuts = {0, MAXCP}
        for s in sets:
            for a, b in s: cuts |= {a, b}
        cuts = sorted(cuts)
        sig = collections.OrderedDict()
        pts = []
        for s in sets: pts.append(sorted(s))
        for a, b in zip(cuts, cuts[1:]):
            k = tuple(any(x <= a < y for x, y in s) for s in pts)
            sig.setdefault(k, []).append((a, b))
        self.classes = list(sig.values())
        self.n = len(self.classes)
        self.rep = []
        for c in self.classes:
            best = None
            for a, b in c:
                for lo, hi in ((0x61, 0x7b), (0x41, 0x5b), (0x30, 0x3a), (0x21, 0x7f), (0xa1, 0x500), (0x20, 0x21), (1, 0x20)):
                    x = max(a, lo)
                    if x < min(b, hi):
                        r = ((lo, hi), x)
                        if best is None or [0x61, 0x41, 0x30, 0x21, 0xa1, 0x20, 1].index(lo) < best[0]: best = ([0x61, 0x41, 0x30, 0x21, 0xa1, 0x20, 1].index(lo), x)
                        break
            self.rep.append(chr(best[1] if best else c[0][0]))
        self._sym = {}

    def size(self, i): return sum(b - a for a, b in self.classes[i])
    def single(self, i): return self.size(i) == 1

    def sym(self, ch):
        o = ord(ch)
        for i, c in enumerate(self.classes):
            if any(a <= o < b for a, b in c): return i
        raise AssertionError

    def word(self, text):
        """symbols of a literal: every character must be a class of its own"""
        out = []
        for c in text:
            if c not in self._sym: self._sym[c] = self.sym(c)
            i = self._sym[c]
            if not self.single(i): raise Undecidable('character %r of a literal is not separated' % c)
            out.append(i)
        return tuple(out)

    def of_set(self, ranges):
        """classes inside the set (the partition was built with it)"""
        return {i for i, c in enumerate(self.classes) if any(a <= c[0][0] < b for a, b in ranges)}

    def text(self, word): return ''.join(self.rep[i] for i in word if i != WEND)

    def samples(self, i, k=12):
        out = []
        for a, b in self.classes[i]:
            for x in {a, b - 1, (a + b) // 2}:
                if not 0xd800 <= x < 0xe000: out.append(chr(x))
        return sorted(set(out))[:k]


# ------------------------------------------------------------------ transducers: init() step(q, a) final(q)
class Ident:
    def init(self): return [('', ())]
    def step(self, q, a): return [((a,), '')]
    def final(self, q): return [()]


class Const:
    """the reading of the variable is ignored (a literal result)"""
    def __init__(self, w): self.w = w
    def init(self): return [('', self.w)]
    def step(self, q, a): return [((), '')]
    def final(self, q): return [()]


class Affix:
    def __init__(self, pre, t, post): self.pre, self.t, self.post = pre, t, post
    def init(self): return [(q, self.pre + w) for q, w in self.t.init()]
    def step(self, q, a): return self.t.step(q, a)
    def final(self, q): return [w + self.post for w in self.t.final(q)]


class MapChars:
    def __init__(self, f): self.f = f
    def init(self): return [('', ())]
    def step(self, q, a): return [(self.f(a), '')]
    def final(self, q): return [()]


class ReplaceAll:
    def __init__(self, pat, rep):
        if not pat: raise Undecidable('replacement of the empty string')
        self.pat, self.rep = pat, rep

    def init(self): return [(0, ())]

    def step(self, k, a):
        p = self.pat
        w = p[:k] + (a,)
        if w == p: return [(self.rep, 0)]
        for j in range(len(w), -1, -1):
            if w[len(w) - j:] == p[:j]: return [(w[:len(w) - j], j)]

    def final(self, k): return [self.pat[:k]]


class ReplaceFirst:
    def __init__(self, pat, rep): self.t, self.rep = ReplaceAll(pat, rep), rep
    def init(self): return [(0, ())]

    def step(self, k, a):
        if k == 'done': return [((a,), 'done')]
        w = self.t.pat[:k] + (a,)
        if w == self.t.pat: return [(self.rep, 'done')]
        return self.t.step(k, a)

    def final(self, k): return [()] if k == 'done' else self.t.final(k)


class SubRun:
    """re.sub for A{lo,}B, A{lo,}B+ and A{lo,}\\Z; the replacement is pre A*kA mid B*kB post"""

    def __init__(self, A, lo, B, plus, end, pre, kA, mid, kB, post):
        self.A, self.lo, self.B, self.plus, self.end, self.pre, self.kA, self.mid, self.kB, self.post = A, lo, B, plus, end, pre, kA, mid, kB, post
        if A & B: raise Undecidable('overlapping runs')

    def init(self): return [('N', ())]

    def step(self, q, a):
        A, B = self.A, self.B
        if q == 'B':
            if a in B: return [((a,) * self.kB, 'B')]
            return [(self.post + w, q2) for w, q2 in self.step('N', a)]
        if q == 'N':
            if a in A: return [(self.pre + (a,) * self.kA, 'M'), ((a,), 'U')]
            if a in B and self.lo == 0: return [self._b(self.pre + self.mid, a)]
            return [((a,), 'N')]
        if q == 'M':
            if a in A: return [((a,) * self.kA, 'M')]
            if a in B: return [self._b(self.mid, a)]
            return []
        if a in A: return [((a,), 'U')]
        if a in B: return []
        return [((a,), 'N')]

    def _b(self, w, a):
        w = w + (a,) * self.kB
        return (w, 'B') if self.plus else (w + self.post, 'N')

    def final(self, q):
        if self.end:
            if q == 'M': return [self.mid]
            if q == 'U': return []
            return [self.pre + self.mid] if self.lo == 0 else [()]
        if q == 'M': return []
        return [self.post] if q == 'B' else [()]


class Compose:
    def __init__(self, e, d): self.e, self.d = e, d

    def feed(self, ds, w):
        for a in w:
            ds = [(o + o2, q2) for o, q in ds for o2, q2 in self.d.step(q, a)]
            if not ds: break
        return ds

    def init(self):
        out = []
        for q, w in self.e.init():
            for d, o in self.d.init():
                out += [((q, d2), o2) for o2, d2 in self.feed([(o, d)], w)]
        return out

    def step(self, q, a):
        e, d = q
        out = []
        for w, e2 in self.e.step(e, a):
            out += [(o, (e2, d2)) for o, d2 in self.feed([((), d)], w)]
        return out

    def final(self, q):
        e, d = q
        out = []
        for w in self.e.final(e):
            for o, d2 in self.feed([((), d)], w):
                out += [o + f for f in self.d.final(d2)]
        return out


class Reader:
    """A reader written as start, step(state, char) -> (output, state) or a list of those or None, final(state) -> output or None.
    Outputs are strings, or lists of characters and WEND."""
    special = ''

    def bind(self, alpha):
        return BoundReader(self, alpha)


class BoundReader:
    def __init__(self, r, alpha): self.r, self.alpha = r, alpha

    def out(self, o, a=None):
        w = []
        for c in o:
            if c == WEND: w.append(WEND)
            elif a is not None and c == self.alpha.rep[a]: w.append(a)
            else: w += self.alpha.word(c)
        return tuple(w)

    def init(self): return [(self.r.start, ())]

    def step(self, q, a):
        if a == WEND: raise Undecidable('word end fed to a reader')
        rs = self.r.step(q, self.alpha.rep[a])
        if rs is None: return []
        if not isinstance(rs, list): rs = [rs]
        return [(self.out(o, a), q2) for o, q2 in rs]

    def final(self, q):
        o = self.r.final(q)
        return [] if o is None else [self.out(o)]


def run_reader(r, text):
    """All results of reading the text (plain simulation, used by the bounded runs)."""
    cur = [([], r.start)]
    for ch in text:
        nxt = []
        for o, q in cur:
            rs = r.step(q, ch)
            if rs is None: continue
            for o2, q2 in (rs if isinstance(rs, list) else [rs]): nxt.append((o + list(o2), q2))
        cur = nxt
    out = []
    for o, q in cur:
        f = r.final(q)
        if f is not None: out.append(o + list(f))
    return out


def words(res):
    """list of words from an output with word ends"""
    out, cur = [], ''
    for c in res:
        if c == WEND:
            out.append(cur)
            cur = ''
        else: cur += c
    return out if not cur else out + [('unfinished', cur)]


# ------------------------------------------------------------------ languages
class Rx:
    """Deterministic automaton (built on demand) of the strings on which pattern.search / match / fullmatch succeeds."""

    def __init__(self, pattern, how, alpha):
        if isinstance(pattern, str): pattern = re.compile(pattern)
        if pattern.flags & (re.I | re.M | re.X | re.A): raise Undecidable('flags of a regular expression')
        self.dotall = bool(pattern.flags & re.S)
        self.alpha, self.how = alpha, how
        self.eps, self.tr = collections.defaultdict(list), collections.defaultdict(list)
        self.ns = 0
        s, e = self.new(), self.new()
        self.acc = self.new()          # accepted whatever follows
        self.tail, self.tail1 = self.new(), self.new()
        self.endq = self.new()
        self.nl = alpha.sym('\n')
        body = self.seq(list(sp.parse(pattern.pattern, pattern.flags & ~re.U)), s)
        if how == 'fullmatch': self.eps[body].append(('end', self.endq))
        else: self.eps[body].append((None, self.acc))
        self.s0 = s
        self.start = ('b', self.close({s}, True))
        self._m = {}

    def new(self):
        self.ns += 1
        return self.ns

    def seq(self, items, s):
        for it in items: s = self.item(it, s)
        return s

    def item(self, it, s):
        op, av = it
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
            e = self.new()
            self.tr[s].append((self.classes(it), e))
            return e
        if op is sc.SUBPATTERN:
            if av[1] or av[2]: raise Undecidable('flags in a group')
            return self.seq(list(av[3]), s)
        if op is sc.BRANCH:
            e = self.new()
            for b in av[1]: self.eps[self.seq(list(b), s)].append((None, e))
            return e
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            for _ in range(lo): s = self.seq(list(body), s)
            if hi is sc.MAXREPEAT or hi == sc.MAXREPEAT:
                l = self.new()
                self.eps[s].append((None, l))
                self.eps[self.seq(list(body), l)].append((None, l))
                return l
            e = self.new()
            self.eps[s].append((None, e))
            for _ in range(hi - lo):
                s = self.seq(list(body), s)
                self.eps[s].append((None, e))
            return e
        if op is sc.AT:
            e = self.new()
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING): self.eps[s].append(('bos', e))
            elif av is sc.AT_END: self.eps[s].append(('eol', e))
            elif av is sc.AT_END_STRING: self.eps[s].append(('eos', e))
            else: raise Undecidable('%s in a regular expression' % av)
            return e
        raise Undecidable('%s in a regular expression' % op)

    def classes(self, it):
        op, av = it
        if op is sc.LITERAL: return self.alpha.of_set([(av, av + 1)])
        if op is sc.NOT_LITERAL: return self.alpha.of_set(complement([(av, av + 1)]))
        if op is sc.ANY: return self.alpha.of_set([(0, MAXCP)] if self.dotall else complement(cset('\n')))
        return self.alpha.of_set(in_ranges(av))

    def close(self, qs, bos, mode='any'):
        """mode of a thread: 'any', 'eol' (only an optional newline may follow), 'eos' (nothing may follow), 'eol1' (after that newline)"""
        todo = [q if isinstance(q, tuple) else (q, mode) for q in qs]
        seen = set(todo)
        while todo:
            q, m = todo.pop()
            for c, e in self.eps[q]:
                if c == 'bos' and not bos: continue
                m2 = m
                if c == 'eol': m2 = m if m in ('eos', 'eol1') else 'eol'
                elif c in ('eos', 'end'): m2 = 'eos'
                if (e, m2) not in seen:
                    seen.add((e, m2))
                    todo.append((e, m2))
        return frozenset(seen)

    def step(self, st, a):
        k = (st, a)
        if k in self._m: return self._m[k]
        f, qs = st
        nxt = set()
        for q, m in qs:
            if m == 'eos' or m == 'eol1': continue
            m2 = m
            if m == 'eol':
                if a != self.nl: continue
                m2 = 'eol1'
            if q == self.acc:
                nxt.add((q, m2))
                continue
            for cl, e in self.tr[q]:
                if a in cl: nxt.add((e, m2))
        if self.how == 'search': nxt.add((self.s0, 'any'))
        # 'eol' thread that reached acceptance tolerates exactly one newline, handled by acc above
        r = ('m', self.close(nxt, False))
        self._m[k] = r
        return r

    def accept(self, st): return any(q in (self.acc, self.endq) for q, m in st[1])


class HasSub:
    def __init__(self, w, kind='contains'): self.w, self.kind, self.start = w, kind, 0

    def step(self, k, a):
        w = self.w
        if self.kind == 'prefix':
            if k == len(w) or k == -1: return k
            return k + 1 if w[k] == a else -1
        if self.kind == 'equals':
            if k == -1 or k == len(w): return -1
            return k + 1 if w[k] == a else -1
        if k == len(w) and self.kind == 'contains': return k
        x = w[:k] + (a,)
        for j in range(min(len(w), len(x)), -1, -1):
            if x[len(x) - j:] == w[:j]: return j

    def accept(self, k): return k == len(self.w)


class Not:
    def __init__(self, d): self.d, self.start = d, d.start
    def step(self, q, a): return self.d.step(q, a)
    def accept(self, q): return not self.d.accept(q)


class Pre:
    """strings whose image under a deterministic transducer is in a language"""
    def __init__(self, t, d):
        self.t, self.d = t, d
        i = t.init()
        if len(i) != 1: raise Undecidable('condition on a non-deterministic image')
        self.start = (i[0][0], self.feed(d.start, i[0][1]))

    def feed(self, q, w):
        for a in w: q = self.d.step(q, a)
        return q

    def step(self, q, a):
        r = self.t.step(q[0], a)
        if len(r) != 1: raise Undecidable('condition on a non-deterministic image')
        return (r[0][1], self.feed(q[1], r[0][0]))

    def accept(self, q):
        f = self.t.final(q[0])
        if len(f) != 1: raise Undecidable('condition on a non-deterministic image')
        return self.d.accept(self.feed(q[1], f[0]))


class All:
    def __init__(self, ds): self.ds, self.start = ds, tuple(d.start for d in ds)
    def step(self, q, a): return tuple(d.step(x, a) for d, x in zip(self.ds, q))
    def accept(self, q): return all(d.accept(x) for d, x in zip(self.ds, q))


# ------------------------------------------------------------------ the decision
def cancel(i, o):
    k = 0
    while k < len(i) and k < len(o) and i[k] == o[k]: k += 1
    return i[k:], o[k:]


class Answer:
    def __init__(self, ok, words=(), why='', states=0): self.ok, self.words, self.why, self.states = ok, list(words), why, states


def live_states(dom, alpha, limit):
    """states of the domain automaton from which it can accept"""
    seen, todo, rev = {dom.start}, [dom.start], collections.defaultdict(list)
    while todo:
        d = todo.pop()
        for a in range(alpha.n):
            d2 = dom.step(d, a)
            rev[d2].append(d)
            if d2 not in seen:
                if len(seen) > limit: raise Undecidable('more than %d domain states' % limit)
                seen.add(d2)
                todo.append(d2)
    live = {d for d in seen if dom.accept(d)}
    todo = list(live)
    while todo:
        for d in rev[todo.pop()]:
            if d not in live:
                live.add(d)
                todo.append(d)
    return live


def check(T, dom, alpha, suffix=(), limit=20000, reference=None):
    """Does T(s) = s + suffix (reference(s) + suffix) hold for every s in dom?  Exact; words: strings among which one fails."""
    ref = reference or Ident()
    live = live_states(dom, alpha, limit)
    if dom.start not in live: return Answer(True, [], 'no string reaches this path', 0)
    # product of T, the reference (deterministic) and the domain
    starts = [((q, r, dom.start), cancel(ro, w)) for q, w in T.init() for r, ro in ref.init()]
    graph, order = {}, []
    todo = [s for s, _ in starts]
    for s in todo: graph.setdefault(s, None)
    while todo:
        p = todo.pop()
        if graph.get(p) is not None: continue
        q, r, d = p
        es = []
        for a in range(alpha.n):
            d2 = dom.step(d, a)
            if d2 not in live: continue
            for ro, r2 in ref.step(r, a):
                for w, q2 in T.step(q, a): es.append((a, ro, w, (q2, r2, d2)))
        graph[p] = es
        if len(graph) > limit: raise Undecidable('more than %d states' % limit)
        for _, _, _, p2 in es:
            if graph.get(p2) is None:
                graph[p2] = graph.get(p2)
                todo.append(p2)
    fin = {p: [(ro, w) for w in T.final(p[0]) for ro in ref.final(p[1])] if dom.accept(p[2]) else [] for p in graph}
    # shortest completion of every state
    rev = collections.defaultdict(list)
    for p, es in graph.items():
        for a, _, _, p2 in es: rev[p2].append((p, a))
    comp = {p: () for p in graph if fin[p]}
    todo = collections.deque(comp)
    while todo:
        p = todo.popleft()
        for p0, a in rev[p]:
            if p0 not in comp:
                comp[p0] = (a,) + comp[p]
                todo.append(p0)
    # delays
    delay, path = {}, {}
    todo = collections.deque()
    for s, dl in starts:
        if s not in comp: continue
        if dl[0] and dl[1]: return Answer(False, [comp[s]], 'the beginning is read back differently', len(graph))
        if s in delay and delay[s] != dl: return Answer(False, [comp[s]], 'two readings', len(graph))
        delay[s], path[s] = dl, ()
        todo.append(s)
    while todo:
        p = todo.popleft()
        i, o = delay[p]
        for ro, w in fin[p]:
            if i + ro + suffix != o + w:
                return Answer(False, [path[p]], 'not read back at the end', len(graph))
        for a, ro, w, p2 in graph[p]:
            if p2 not in comp: continue
            dl = cancel(i + ro, o + w)
            wd = path[p] + (a,)
            if dl[0] and dl[1]:
                return Answer(False, [wd + comp[p2]], 'a character is read back differently', len(graph))
            if p2 in delay:
                if delay[p2] != dl: return Answer(False, [wd + comp[p2], path[p2] + comp[p2]], 'length of what is read back', len(graph))
            else:
                delay[p2], path[p2] = dl, wd
                todo.append(p2)
    # every string of the domain is read to the end
    s0 = (frozenset(q for q, w in T.init()), dom.start)
    seen = {s0: ()}
    todo = collections.deque([s0])
    while todo:
        s = todo.popleft()
        qs, d = s
        if dom.accept(d) and not any(T.final(q) for q in qs): return Answer(False, [seen[s]], 'the reader rejects the text', len(graph))
        for a in range(alpha.n):
            d2 = dom.step(d, a)
            if d2 not in live: continue
            s2 = (frozenset(q2 for q in qs for w, q2 in T.step(q, a)), d2)
            if s2 not in seen:
                if len(seen) > limit: raise Undecidable('more than %d states' % limit)
                seen[s2] = seen[s] + (a,)
                todo.append(s2)
    if not comp: return Answer(True, [], 'no string reaches this path', len(graph))
    return Answer(True, [], '', len(graph) + len(seen))
