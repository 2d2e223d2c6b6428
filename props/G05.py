"""G05 List exclusion and pattern filters keep and exclude exactly what they say."""
import copy
import re
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from vlib import models as M
from vlib.load import load
import gyp.input as I
import gyp.common as C

V = T.V


def contracts(): return []


# ------------------------------------------------------------------ bounded: independent statement of the filters
class Bad(Exception): pass
class Skip(Exception): pass


def decide(item, excl, pats):
    """True: kept.  The last word counts: the exclusion list speaks first, then the patterns in order"""
    keep = not any(type(item) is type(x) and item == x for x in excl)
    for p in pats:
        if not isinstance(p, list) or len(p) != 2 or p[0] not in ('exclude', 'include') or type(p[1]) not in (str, int): raise Bad('malformed')
        try: r = re.compile(str(p[1]))
        except re.error: raise Bad('pattern')
        if isinstance(item, (dict, list)): raise Skip
        if r.search(str(item)): keep = p[0] == 'include'
    return keep


def ref(d):
    if isinstance(d, list): return [ref(x) if isinstance(x, (dict, list)) else x for x in d]
    named = {}
    for k in d:
        if k[-1:] in ('!', '/'):
            if k[:-1][-1:] in ('!', '/') and k[:-1] in d: raise Skip       # a filter on a filter
            if not isinstance(d[k], list): raise Bad('filter is not a list')
            if k[:-1] in d:
                if not isinstance(d[k[:-1]], list): raise Bad('not on a list')
                named.setdefault(k[:-1], None)
    out = {k: v for k, v in d.items() if k[-1:] not in ('!', '/')}
    for l in named:
        if l + '_excluded' in out: raise Bad('name taken')
        for p in d.get(l + '/', []): decide('', [], [p])
        verdict = [decide(x, d.get(l + '!', []), d.get(l + '/', [])) for x in d[l]]
        out[l] = [x for x, k in zip(d[l], verdict) if k]
        if not all(verdict): out[l + '_excluded'] = [x for x, k in zip(d[l], verdict) if not k]
    return {k: ref(v) if isinstance(v, (dict, list)) else v for k, v in out.items()}


def r_filter(d):
    bad = False
    try: want = ref(d)
    except Skip: return None
    except Bad: bad = True
    d1 = copy.deepcopy(d)
    o = outcome(I.ProcessListFiltersInDict, 'x', d1)
    if bad: return None if o[0] == 'raise' else 'accepted, and gives %r' % (d1,)
    if o[0] == 'raise': return 'rejected: %r' % (o[1:],)
    return diff('the settings', d1, want) or (None if repr(d1) == repr(want) or sorted(map(repr, d1.items())) == sorted(map(repr, want.items())) else 'the settings are %r, not %r' % (d1, want))


ITEMS = ['a', 'b', 'ab', 'a_mac.cc', 'a_win.cc', 'b_mac.cc', 'x.h', '', 'A', 'a b', '-a', '.', 'a']
PATS = ['a', 'b', '^a', '_mac', r'_(mac|win)\\.cc$', 'cc$', '', '.', '^$', '[ab]$', 'A', r'\\.', '(?i)a', 'x|b', '1']


class Gen:
    def __init__(self, rng): self.rng = rng

    def items(self, n=6):
        rng = self.rng
        return [rng.choice([1, 12, 0, -1]) if rng.random() < .04 else rng.choice(ITEMS) for _ in range(rng.randrange(n))]

    def pats(self):
        rng = self.rng
        out = [[rng.choice(['exclude', 'exclude', 'include']), rng.choice(PATS)] for _ in range(rng.randrange(5))]
        if rng.random() < .02: out.append(rng.choice([['other', 'a'], ['exclude'], 'exclude', ['exclude', '('], ['exclude', 'a', 'b'], [], ['Exclude', 'a'], ['include', 5], ['exclude', 1], ['exclude', ['a']]]))
        return out

    def d(self, depth):
        rng = self.rng
        out = {}
        for k in rng.sample(['sources', 'l', 'm', 'n', 's', 'sub', 'list', 'e', 'l_excluded'], rng.choice([1, 2, 3, 4])):
            if k == 's': out[k] = rng.choice(['v', 3])
            elif k == 'sub': out[k] = self.d(depth - 1) if depth else {}
            elif k == 'list': out[k] = [self.d(depth - 1) if depth and rng.random() < .6 else [rng.choice([self.d(0), [self.d(0)], rng.choice(ITEMS)]) for _ in range(rng.randrange(4))] if depth and rng.random() < .4 else rng.choice(ITEMS) for _ in range(rng.randrange(3))]
            elif k == 'l_excluded':
                if rng.random() < .2: out[k] = self.items(2)
            else: out[k] = self.items()
            if rng.random() < .5 and k not in ('list',) and (k not in ('s', 'sub') or rng.random() < .1): out[k + '!'] = self.items(4) if rng.random() < .98 else 'a'
            if rng.random() < .5 and k not in ('list',) and (k not in ('s', 'sub') or rng.random() < .1): out[k + '/'] = self.pats() if rng.random() < .98 else {'a': 'b'}
            if rng.random() < .08: out.pop(k, None)
        if rng.random() < .03: out[rng.choice(['!', '/', 'q!', 'q/', ''])] = rng.choice([[], ['a'], 'a'])
        ks = list(out)
        rng.shuffle(ks)
        return {k: out[k] for k in ks}


def c_filter(tier, rng):
    """inputs: settings with filters, nested up to depth 2"""
    g = Gen(rng)
    while True: yield g.d(rng.choice([0, 1, 2]))


def c_small(tier, rng):
    """inputs: every list of up to 3 of 3 items, excluded names, and up to 3 patterns"""
    import itertools
    seqs = lambda a, n: [list(s) for k in range(n + 1) for s in itertools.product(a, repeat=k)]
    pats = [[a, p] for a in ('exclude', 'include') for p in ('a', 'b$', '')]
    for l in seqs(['a', 'ab', 'b'], 3):
        for ex in ([], ['a'], ['b', 'a'], ['zz'], ['ab', 'ab']):
            for ps in seqs(pats, 2): yield {'l': l, 'l!': ex, 'l/': ps}
    for l in seqs(['a', 'ab', 'b'], 2):
        for ps in seqs(pats, 3): yield {'l/': ps, 'o': 'v', 'l': l}


def c_load(tier, rng):
    """inputs: (settings of a target, settings of its configuration)"""
    g = Gen(rng)
    while True:
        t, c = {}, {}
        for k, dst in (('sources', t), ('defines', c), ('mine', t), ('cflags', c)):
            if rng.random() < .7: dst[k] = list(dict.fromkeys(x for x in g.items() if isinstance(x, str) and x))
            if rng.random() < .5: dst[k + '!'] = [x for x in g.items(3) if isinstance(x, str) and x]
            if rng.random() < .5: dst[k + '/'] = g.pats()
        yield t, c, rng.random() < .5


def r_load(x):
    t, c, cond = x
    bad = False
    try: want_t, want_c = ref(t), ref({k: v for k, v in dict(c, **{k: v for k, v in t.items() if k.startswith('mine')}).items()})
    except Skip: return None
    except Bad: bad = True
    if cond:
        fl = {k: v for k, v in c.items() if k[-1] in '!/'}
        conf = dict({k: v for k, v in c.items() if k[-1] not in '!/'}, target_conditions=[['1==1', fl]])
    else: conf = dict(c)
    o = load({'p.gyp': {'targets': [dict(t, target_name='t', type='none', configurations={'D': conf})]}})
    if bad: return None if o[0] == 'raise' else 'accepted'
    if o[0] == 'raise': return 'rejected: %r' % (o[1:],)
    got = o[1].targets['p.gyp:t#target']
    want_t = {k: v for k, v in want_t.items() if k.startswith('sources')}
    return (diff('the target', {k: v for k, v in got.items() if k.startswith('sources')}, want_t) or diff('the configuration', got['configurations']['D'], want_c) or
            next(('%s is left' % k for k in list(got) + list(got['configurations']['D']) if k[-1] in '!/'), None))


def bounded():
    return [Bounded('filters', c_filter, r_filter, 'random settings nested up to depth 2', budget=(6, 60)), Bounded('small lists', c_small, r_filter, 'every list of up to 3 items of 3, exclusions and up to 3 patterns', budget=(6, 40)),
            Bounded('loading', c_load, r_load, 'random filters in targets and configurations, directly and from late conditions', budget=(6, 40))]


META = dict(level='other', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='bounded so far: every list of up to three items with exclusions and patterns, and random nested settings, against an independent statement', assumptions=['re.search is a pure function of pattern and item'])
