"""G11 Conditional sections apply exactly the branch their condition selects."""
import contextlib
import io
import os
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from pyvc.core import *
from pyvc.call import uf
from vlib import models as M
from vlib.load import load
import gyp.input as I
import gyp.common as C

V = T.V
EXPANDED = uf('condition_after_expansion', V, T.Int, V, V)       # (condition, phase, variables)
COMPILED = uf('compiled_condition', T.String, V)
TRUE = uf('evaluates_to_true', V, V, T.Bool)              # (code, variables)
J0 = z3.Int('any_position')


def int_text(t): return z3.If(t < 0, z3.Concat(T.sv('-'), z3.IntToStr(-t)), z3.IntToStr(t))
def text_of(v): return T.ite(T.tester('IntV', v), int_text(T.acc('i', v)), T.acc('s', v))


def holds(e, c):
    x = e.val('variables')
    return TRUE(COMPILED(text_of(EXPANDED(c, e['phase'], x))), x)


PARAMS = {'condition': TList(Any), 'conditions_key': StrT, 'phase': IntT, 'variables': TDict(Any), 'build_file': StrT}


def even(i): return z3.BoolVal(i % 2 == 0) if isinstance(i, int) else i % 2 == 0
def is_dict(x): return T.tester('DictV', x)


# ------------------------------------------------------------------ EvalSingleCondition (as used by EvalCondition)
EXPAND = Contract('ExpandVariables', I.ExpandVariables, {'input': Any, 'phase': IntT, 'variables': TDict(Any), 'build_file': StrT}, ret=Any, raises={Exception: None},
                  ensures=lambda e: {'expanded': e.rv == EXPANDED(e.val('input'), e['phase'], e.val('variables'))},
                  assumed=['the expansion of a condition is a function of the text, the phase and the variables (commands give the same output each time), and changes nothing (G12)'])


def compile_model(eng, st, args, kw, node):
    s0, v = st, args[0]
    if len(args) != 3 or kw or not (isinstance(args[2], Py) and args[2].o == 'eval'): raise Unsupported("compile in another mode")
    out = []
    for s, x in eng.force(st, v):
        if not is_str(x):
            out.append((s, Exc(TypeError)))
            continue
        eng.assumed.add("compile(text, name, 'eval') is a function of the text, or raises")
        out.append((s, Sc(COMPILED(st_term(x)), Any)))
        for c in (SyntaxError, ValueError): out.append((s.copy(), Exc(c)))
    return out


class OtherError(Exception): """any exception of a class the code does not name"""


def eval_model(eng, st, args, kw, node):
    if len(args) != 3 or kw: raise Unsupported("eval of another form")
    eng.assumed.add("whether evaluating a compiled condition with the variables as names gives true is a function of the two (it may raise); it changes no variable")
    r = Sc(TRUE(eng.box(st, args[0]), eng.box(st, args[2])), BoolT)
    return [(st, r), (st.copy(), Exc(NameError)), (st.copy(), Exc(TypeError)), (st.copy(), Exc(SyntaxError)), (st.copy(), Exc(OtherError))]


KEY = z3.Const('any_cached_text', V)
def cache_ok(keys, vals): return z3.ForAll([KEY], z3.Implies(T.member(keys, KEY), z3.And(z3.Or(T.tester('StrV', KEY), T.tester('IntV', KEY)), z3.Select(vals, KEY) == COMPILED(text_of(KEY)))))


def cache(e, final=False): return cache_ok(*e.eng.read(e.st1 if final else e.st0, e.params['cached_conditions_asts']))


SINGLE = Contract('EvalSingleCondition', I.EvalSingleCondition, {'cond_expr': Any, 'true_dict': Any, 'false_dict': Any, 'phase': IntT, 'variables': TDict(Any), 'build_file': StrT}, ret=Any, raises={Exception: None},
                  globs={'cached_conditions_asts': TXDict(Any, Any)}, modifies={'cached_conditions_asts'},
                  requires=lambda e: [cache(e)] if 'cached_conditions_asts' in e.params else [],
                  ensures=lambda e: dict({'the-branch': e.rv == T.ite(holds(e, e.val('cond_expr')), e.val('true_dict'), e.val('false_dict'))}, **({'cache': cache(e, True)} if 'cached_conditions_asts' in e.params else {})))


APPEND = Contract('ExceptionAppend', C.ExceptionAppend, {'e': Any, 'msg': StrT}, ret=NoneT, raises={})


SEL = z3.Function('first_true_before', T.SeqV, T.Int, T.Int)       # (chain, n): position of the first condition that holds among the pairs before n, or -1


def sel_def(e, c, n):
    """the definition of SEL, one step: pairs before n + 2 against pairs before n"""
    return [SEL(c, z3.IntVal(0)) == -1, z3.Implies(z3.And(even(n), n >= 0), SEL(c, n + 2) == T.ite(SEL(c, n) >= 0, SEL(c, n), T.ite(holds(e, c[n]), n, z3.IntVal(-1)))),
            z3.Implies(z3.And(even(n), n >= 0), z3.Or(SEL(c, n) == -1, z3.And(SEL(c, n) >= 0, SEL(c, n) + 1 < n, even(SEL(c, n)))))]


def chosen(c, i, r):
    """what the chain up to position i has selected"""
    k = T.ite(even(i), i, i - 1)
    return T.ite(SEL(c, k) >= 0, z3.And(r == c[SEL(c, k) + 1], is_dict(r)), T.ite(even(i), r == V.NoneV, r == c[i - 1]))


def shape(c, i):
    """every condition so far is followed by a dictionary; J0 is any of their positions"""
    return z3.Implies(z3.And(even(J0), J0 >= 0, J0 + 1 < i), is_dict(c[J0 + 1]))


def ens(e):
    c = T.acc('items', e.val('condition'))
    n = T.length(c)
    return {'first-that-holds-or-else': chosen(c, n, e.rv), 'well-formed': z3.And(n >= 2, shape(c, n), z3.Or(even(n), is_dict(c[n - 1]))),
            'else-used': z3.Implies(z3.And(e.rv == V.NoneV, n % 2 == 1), False)}


def loop_facts(lv):
    c = T.acc('items', lv.eng.entry.val('condition'))
    return [f for _, i in lv.scalars(TInt) for f in sel_def(lv.eng.entry, c, i) + sel_def(lv.eng.entry, c, i - 1)]


def cands(lv):
    out = {}
    c = T.acc('items', lv.eng.entry.val('condition'))
    n = T.length(c)
    for k, i in lv.scalars(TInt):
        out['range:' + k] = z3.And(i >= 0, i <= n, z3.Or(even(i), i == n))
        out['shape:' + k] = shape(c, i)
        out['odd-else:' + k] = z3.Implies(z3.Not(even(i)), is_dict(c[n - 1]))
        for r, t in lv.boxed():
            if r.startswith('%') or r == k or r.split('@')[0] in PARAMS: continue
            out['chosen:%s:%s' % (k, r)] = chosen(c, i, t)
            out['else:%s:%s' % (k, r)] = z3.Implies(z3.Not(even(i)), t != V.NoneV)
    return out


EVAL = Contract('EvalCondition', I.EvalCondition, PARAMS, ret=Any, raises={Exception: None}, ensures=ens, cands=cands, loop_facts=loop_facts)


# ------------------------------------------------------------------ ProcessConditionsInDict
SELECTED = uf('selected_settings', V, T.String, T.Int, V, V)       # (chain, key, phase, variables): what EvalCondition gives
PROCESSED = uf('settings_processed', V, T.Int, V, V)          # (settings, phase, variables)
MERGED = uf('merged', V, V, V)


def step(acc, x, key, ph, v):
    b = SELECTED(x, key, ph, v)
    return T.ite(b == V.NoneV, acc, MERGED(acc, PROCESSED(b, ph, v)))


ALL = T.Scan('all_selected_merged', step, V, params=(T.String, T.Int, V))
EVAL_USED = Contract('EvalCondition', I.EvalCondition, dict(PARAMS, condition=Any), ret=Any, raises={Exception: None},
                     ensures=lambda e: {'r': z3.And(e.rv == SELECTED(e.val('condition'), e['conditions_key'], e['phase'], e.val('variables')), z3.Or(e.rv == V.NoneV, is_dict(e.rv)))})


def process_model(eng, st, args, kw, node):
    if kw or len(args) != 4: raise Unsupported("ProcessVariablesAndConditionsInDict with other arguments")
    t = eng.box(st, args[0])
    if any(t.eq(u) for u, _, _ in st.ghost.get('processed', ())): raise Unsupported("settings processed twice")
    if not isinstance(args[0], Sc): raise Unsupported("processing of a known dictionary")
    s = st.copy()
    s.ghost['processed'] = s.ghost.get('processed', ()) + ((t, st_term(args[1]), eng.box(st, args[2])),)
    eng.assumed.add("ProcessVariablesAndConditionsInDict changes the settings it is given, by a function of them, the phase and the variables, and nothing else (G12)")
    return [(s, Py(None)), (st.copy(), Exc(OtherError))]


def merge_model(eng, st, args, kw, node):
    if kw or len(args) != 4 or not isinstance(args[0], Loc) or not isinstance(args[1], Sc): raise Unsupported("MergeDicts with other arguments")
    t = eng.box(st, args[1])
    for u, ph, v in st.ghost.get('processed', ()):
        if u.eq(t): t = PROCESSED(t, ph, v)
    new = MERGED(eng.box(st, args[0]), t)
    s = eng.write(st.assume(is_dict(new)), args[0], new, shift=True)
    eng.assumed.add("MergeDicts changes the dictionary merged into, by a function of the two (G03), and nothing else")
    return [(s, Py(None)), (st.copy(), Exc(OtherError))]


def key_of(e): return T.ite(e['phase'] == I.PHASE_EARLY, T.sv('conditions'), T.sv('target_conditions'))


def list_of(e): return T.acc('items', T.dget(e.val('the_dict'), key_of(e)))
def start_of(e): return T.ddel(e.val('the_dict'), key_of(e))


def ens_process(e):
    d, ph = e.val('the_dict'), e['phase']
    k = key_of(e)
    after = e.val('the_dict', True)
    nothing = z3.Or(ph == I.PHASE_LATELATE, z3.Not(T.dhas(d, k)))
    return {'nothing-to-do': z3.Implies(nothing, after == d), 'each-selected-merged-once-in-order': z3.Implies(z3.Not(nothing), after == ALL(start_of(e), list_of(e), k, ph, e.val('variables')))}


def cands_process(lv):
    out = {}
    e = lv.eng.entry
    if lv.done is None: return out
    k = key_of(e)
    for kk in ('conditions', 'target_conditions'):
        out['merged:' + kk] = z3.Implies(k == T.sv(kk), lv.eng.box(lv.st, e.params['the_dict']) == ALL(T.ddel(e.val('the_dict'), T.sv(kk)), lv.done, T.sv(kk), e['phase'], e.val('variables')))
    return out


PROCESS = Contract('ProcessConditionsInDict', I.ProcessConditionsInDict, {'the_dict': TDict(Any, {'conditions': (TList(Any), False), 'target_conditions': (TList(Any), False)}), 'phase': IntT, 'variables': TDict(Any), 'build_file': StrT},
                   ret=NoneT, raises={Exception: None}, modifies={'the_dict'}, requires=lambda e: [z3.Or(*[e['phase'] == p for p in (I.PHASE_EARLY, I.PHASE_LATE, I.PHASE_LATELATE)])],
                   ensures=ens_process, cands=cands_process)


def contracts():
    def process():
        m = dict(M.PATHS)
        m.update({I.ProcessVariablesAndConditionsInDict: process_model, I.MergeDicts: merge_model})
        return Verifier({I.EvalCondition: EVAL_USED, I.ProcessConditionsInDict: PROCESS}, models=m)
    mk = lambda *cs: (lambda: Verifier({c.fn: c for c in cs}, models=dict(M.PATHS, **{})))
    def single():
        m = dict(M.PATHS)
        m.update({compile: compile_model, eval: eval_model})
        return Verifier({I.ExpandVariables: EXPAND, I.EvalSingleCondition: SINGLE, C.ExceptionAppend: APPEND}, models=m)
    return [(EVAL, mk(SINGLE, EVAL)), (SINGLE, single), (PROCESS, process)]


# ------------------------------------------------------------------ bounded
TEXTS = ['a==1', 'a==0', 'a!=2', 'b=="x"', '"<(b)"=="x"', '<(a)', '<(a)==1', 'a in [1, 2]', 'not a', 'a==1 and b=="x"', 'a==1 or b==""', 'b', '"y" in l', 'a>0', '"%(s(b)"!="y"'.replace('%(s', '<'), '_kind=="k"', 1, 0, '1', '0', '<(a)+<(a)==2', 'v("1.2") < v("1.10")']
VALUES = {'a': [0, 1, 2], 'b': ['x', 'y', ''], 'l': [['y'], ['x', 'y'], ['z']]}
BAD = [['a==1'], [], 'a==1', ['a==1', {}, {}, {}], ['a==1', 'a==0', {}], ['a==1', []], ['a==1', {}, 'a==0'], [{}, {}], ['a==1', {}, {}, 'b=="x"', {}], ['a==', {}], ['nosuch==1', {}], 5, {'a==1': {}}, [['a==1'], {}], ['a==1', None], ['a==1', {}, []], ['a==1', {}, 'a==0', 'x']]


def truth(text, v, sym):
    """what a condition means, written independently"""
    t = str(text)
    for k in VALUES: t = t.replace('<(%s)' % k if sym == '<' else '>(%s)' % k, str(v.get(k)))
    from packaging.version import Version
    return bool(eval(t, {'__builtins__': {}, 'v': Version}, dict(v)))


def ref_select(chain, v, sym):
    i = 0
    while i + 1 < len(chain):
        if truth(chain[i], v, sym): return chain[i + 1]
        i += 2
    return chain[i] if i < len(chain) else None


def ref_merge(to, fro, inplace=False):
    for k, x in fro.items():
        if isinstance(x, dict): ref_merge(to.setdefault(k, {}), x, inplace)
        elif isinstance(x, list):
            old = to.get(k, [])
            single = lambda y: isinstance(y, int) or isinstance(y, str) and not y.startswith('-')
            to[k] = old + [ref_copy(y) for i, y in enumerate(x) if not single(y) or (y not in old and y not in x[:i])]
            if inplace:
                old[:] = to[k]
                to[k] = old
        else: to[k] = x


def ref_copy(x):
    if isinstance(x, list): return [ref_copy(y) for y in x]
    if isinstance(x, dict):
        out = {}
        ref_merge(out, x)
        return out
    return x


def ref_process(d, v, key, sym):
    import copy
    def scope():
        w = dict(v)
        for k, x in d.items():
            if type(x) in (str, int, list): w['_' + k] = x
        for k, x in d.get('variables', {}).items():
            if type(x) in (str, int, list): w[k] = x
        return w
    if 'variables' in d: ref_process(d['variables'], scope(), key, sym)
    w = scope()
    for k, x in d.items():
        if isinstance(x, str): d[k] = x.replace(sym + '(b)', w['b'])
    for c in d.pop(key, []):
        b = ref_select(c, w, sym)
        if b is not None:
            b = copy.deepcopy(b)
            ref_process(b, w, key, sym)
            ref_merge(d, b)
    w = scope()
    def sub(x):
        for y in x.values() if isinstance(x, dict) else x:
            if isinstance(y, dict): ref_process(y, w, key, sym)
            elif isinstance(y, list): sub(y)
    sub({k: x for k, x in d.items() if k != 'variables'})


class Gen:
    def __init__(self, rng): self.rng, self.n = rng, 0

    def fresh(self):
        self.n += 1
        return 'D%d' % self.n

    def text(self, late):
        t = self.rng.choice(TEXTS)
        return t.replace('<(', '>(') if late and isinstance(t, str) else t

    def chain(self, depth, late):
        out = []
        for _ in range(self.rng.choice([1, 1, 1, 2, 3])):
            t = self.text(late)
            if t not in out[::2]: out += [t, self.settings(depth - 1, late)]
        if self.rng.random() < .5: out.append(self.settings(depth - 1, late))
        return out

    def settings(self, depth, late):
        rng = self.rng
        d = {}
        if rng.random() < .8: d['defs'] = [self.fresh() for _ in range(rng.choice([1, 2]))] + (['SAME'] if rng.random() < .3 else [])
        if rng.random() < .3: d['scalar'] = self.fresh() + rng.choice(['', '', '<(b)', '>(b)'])
        if rng.random() < .2 and depth > 0: d['part'] = self.settings(depth - 1, late)
        if rng.random() < .2 and depth > 0: d['items'] = [self.settings(depth - 1, late) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .2:
            k = rng.choice('ab')          # merging into a list variable is left out: whether later conditions see it depends on sharing
            d['variables'] = {k: rng.choice(VALUES[k])}
            if rng.random() < .3 and depth > 0 and not late: d['variables']['conditions'] = [[self.text(late), {'a': rng.choice([0, 1])}, {'a': rng.choice([1, 2])}]]
        if depth > 0:
            for k, l in (('conditions', False), ('target_conditions', True)):
                if (l or not late) and rng.random() < .45: d[k] = [self.chain(depth, l) for _ in range(rng.choice([1, 1, 2]))]
        ks = list(d)
        rng.shuffle(ks)
        return {k: d[k] for k in ks}


def c_chain(tier, rng):
    v = lambda: {k: rng.choice(x) for k, x in VALUES.items()}
    for t in TEXTS:
        for a in (0, 1): yield ([t, {'r': 1}, {'r': 2}], {'a': a, 'b': 'x', 'l': ['y'], '_kind': 'k'})
    while True:
        ch = []
        for i in range(rng.randrange(1, 5)): ch += [rng.choice(TEXTS), {'r': i} if rng.random() < .9 else {}]
        if rng.random() < .5: ch.append({'r': 'else'})
        yield (ch, dict(v(), _kind=rng.choice(['k', 'm'])))


def r_chain(x):
    chain, v = x
    o = outcome(I.EvalCondition, copy_(chain), 'conditions', I.PHASE_EARLY, dict(v), 'f.gyp')
    if o[0] == 'raise': return 'the chain is rejected: %r' % (o,)
    return diff('the settings selected', o[1], ref_select(chain, v, '<'))


def copy_(x):
    import copy
    return copy.deepcopy(x)


def c_bad(tier, rng):
    for b in BAD:
        for w in ('top', 'nested', 'second', 'late'): yield (b, w)


def r_bad(x):
    b, where = x
    ok = ['a==1', {'x': ['1']}]
    t = {'target_name': 't', 'type': 'none'}
    if where == 'top': t['conditions'] = [b]
    elif where == 'nested': t['conditions'] = [['a==1', {'conditions': [b]}]]
    elif where == 'second': t['conditions'] = [ok, b]
    else: t['target_conditions'] = [ok, b]
    o = load({'p.gyp': {'targets': [t]}}, variables={'a': 1, 'b': 'x'})
    return None if o[0] == 'raise' else 'accepted (%s): %r' % (where, b)


def c_repeat(tier, rng): yield ['a==1', {'defs': ['p']}, 'b=="x"', {'defs': ['q']}, 'a==1', {'defs': ['r']}]


def r_repeat(chain): return r_dict(({'conditions': [['a==0', {'target_conditions': [chain]}]]}, {'a': 0, 'b': 'y', 'l': ['y']}))


def c_dict(tier, rng):
    while True:
        g = Gen(rng)
        d = g.settings(3, False)
        if 'conditions' not in d: d['conditions'] = [g.chain(3, False) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < .5: d['target_conditions'] = [g.chain(2, True) for _ in range(rng.choice([1, 2]))]
        yield (d, {k: rng.choice(x) for k, x in VALUES.items()})


def left_over(x, at=''):
    if isinstance(x, dict):
        for k, y in x.items():
            if k in ('conditions', 'target_conditions'): return at + '/' + k
            m = left_over(y, at + '/' + k)
            if m: return m
    elif isinstance(x, list):
        for i, y in enumerate(x):
            m = left_over(y, '%s[%d]' % (at, i))
            if m: return m


def both(f, d, v):
    for k, s in (('conditions', '<'), ('target_conditions', '>')): f(d, dict(v), k, s)
    return d


def r_dict(x):
    d, v = x
    d0 = copy_(d)
    v = dict(v, _kind='k')
    want, v0 = both(ref_process, d0, v), copy_(v)
    for ph in (I.PHASE_EARLY, I.PHASE_LATE):
        o = outcome(I.ProcessVariablesAndConditionsInDict, d, ph, v, 'f.gyp')
        if o[0] == 'raise': return 'rejected: %r' % (o,)
    return diff('the settings after evaluation', d, want) or (left_over(d) and 'left over: ' + left_over(d)) or diff("the caller's variables", v, v0)


def texts(x):
    if isinstance(x, dict): return {k: texts(y) for k, y in x.items()}
    if isinstance(x, list): return [texts(y) for y in x]
    return str(x) if type(x) is int else x


def r_load(x):
    d, v = x
    v = dict(v, _kind='k')
    other = {a: VALUES[a][(VALUES[a].index(v[a]) + 1) % 3] for a in VALUES}
    dt, du = [dict(copy_(d), target_name=n, type='none') for n in 'tu']
    du['variables'] = dict(other, **du.get('variables', {}))
    want, want2 = [both(ref_process, dict(copy_(y), toolset='target'), v) for y in (dt, du)]
    o = load({'p.gyp': {'targets': [dt]}, 'q.gyp': {'targets': [dict(du, dependencies=['p.gyp:t'])]}}, root='q.gyp', variables=v)
    if o[0] == 'raise': return 'rejected: %r' % (o,)
    for q, w in (('p.gyp:t#target', want), ('q.gyp:u#target', want2)):
        t = o[1].targets[q]
        got = dict(t, **t.get('configurations', {}).get('Default', {}))
        m = diff('settings of ' + q, {k: texts(got.get(k)) for k in ('defs', 'scalar', 'part', 'items')}, {k: texts(w.get(k)) for k in ('defs', 'scalar', 'part', 'items')})
        if m: return m
        if left_over(t): return 'left over in %s: %s' % (q, left_over(t))
    return None


def bounded():
    return [Bounded('chains', c_chain, r_chain, 'chains of up to 4 conditions of 22 forms (numbers, text, references, version comparisons) with and without an else branch', budget=(4, 30)),
            Bounded('malformed', c_bad, r_bad, '17 malformed condition lists, at the top of a target, nested, after a good one, and in the late phase', budget=(3, 10)),
            Bounded('dictionaries', c_dict, r_dict, 'settings with conditions nested up to 3 deep, also in lists, sub-dictionaries and variables, in both phases, with inner variables that change the outcome', budget=(6, 60)),
            Bounded('repeated condition', c_repeat, r_repeat, 'a chain that names one condition twice, in target_conditions that come from a condition'),
            Bounded('load', c_dict, r_load, 'the same in whole loads of two build files with different variables', budget=(6, 60))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='EvalCondition returns the settings after the first condition that holds, else the else branch, else nothing, and returns normally only for well-formed chains; EvalSingleCondition gives its first dictionary exactly when the expanded text, compiled, evaluates to true with these variables (module invariant: '
                 'the cache maps a text to its own compiled form); ProcessConditionsInDict removes the key and merges each selected, processed dictionary once, in order. Expansion, processing of settings and merging enter as functions (G12, G03); their composition over whole nested structures is bounded.')
