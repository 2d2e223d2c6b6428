"""G02 Qualified target names are unambiguous and resolve to one target."""
import itertools
import z3
from vlib.base import *
setup_path()
from pyvc import terms as T
from pyvc.types import *
from pyvc.contract import *
from vlib import models as M
import gyp.input as I
import gyp.common as C

V = T.V
COLON, HASH = T.sv(':'), T.sv('#')


def parsed(q, b, n, t):
    """the unique reading of a reference: [build file ':'] name ['#' toolset], cut at the last ':' and the last '#' of what follows"""
    rest = T.fresh('rest', T.String)
    f = [z3.Or(z3.And(b == V.NoneV, rest == q, z3.Not(z3.Contains(q, COLON))),
               z3.And(T.tester('StrV', b), q == z3.Concat(T.acc('s', b), COLON, rest), z3.Not(z3.Contains(rest, COLON)))),
         z3.Or(z3.And(t == V.NoneV, rest == n, z3.Not(z3.Contains(rest, HASH))),
               z3.And(T.tester('StrV', t), rest == z3.Concat(n, HASH, T.acc('s', t)), z3.Not(z3.Contains(T.acc('s', t), HASH))))]
    return rest, f


def ens_parse(e):
    b, n, t = [e.eng.box(e.st1, x) for x in e.rt()]
    q = e['target']
    bs, ts, ns = T.acc('s', b), T.acc('s', t), T.acc('s', n)
    rest = z3.If(t == V.NoneV, ns, z3.Concat(ns, HASH, ts))
    return {'file': z3.If(b == V.NoneV, z3.And(q == rest, z3.Not(z3.Contains(q, COLON))),
                          z3.And(T.tester('StrV', b), q == z3.Concat(bs, COLON, rest), z3.Not(z3.Contains(rest, COLON)))),
            'name': T.tester('StrV', n),
            'toolset': z3.If(t == V.NoneV, z3.Not(z3.Contains(ns, HASH)), z3.And(T.tester('StrV', t), z3.Not(z3.Contains(ts, HASH))))}


def qual(b, n, t):
    return z3.Concat(b, COLON, n, T.ite(z3.And(T.tester('StrV', t), T.acc('s', t) != T.sv('')), z3.Concat(HASH, T.acc('s', t)), T.sv('')))


PARSE = Contract('ParseQualifiedTarget', C.ParseQualifiedTarget, {'target': StrT}, ret=TTup(Opt(StrT), StrT, Opt(StrT)), ensures=ens_parse)
BUILDFILE = Contract('BuildFile', C.BuildFile, {'fully_qualified_target': StrT}, ret=Opt(StrT),
                     ensures=lambda e: {'file': z3.If(e.rv == V.NoneV, z3.Not(z3.Contains(e['fully_qualified_target'], COLON)),
                                                      z3.And(T.tester('StrV', e.rv), z3.PrefixOf(z3.Concat(T.acc('s', e.rv), COLON), e['fully_qualified_target']),
                                                             z3.Not(z3.Contains(z3.SubString(e['fully_qualified_target'], z3.Length(T.acc('s', e.rv)) + 1, z3.Length(e['fully_qualified_target'])), COLON))))})
QUAL = Contract('QualifiedTarget', C.QualifiedTarget, {'build_file': StrT, 'target': StrT, 'toolset': Opt(StrT)}, ret=StrT,
                ensures=lambda e: {'composed': e.r == qual(e['build_file'], e['target'], e.val('toolset'))})
RELPATH = Contract('RelativePath', C.RelativePath.func, {'path': StrT, 'relative_to': StrT}, ret=StrT, trusted=True,
                   ensures=lambda e: {'rel': e.r == RELF(e['path'], e['relative_to'])}, assumed=['RelativePath is a pure function of its arguments (its own properties are G04)'])
RELF = M.fun('RelativePath', T.String, T.String, T.String)


def ens_resolve(e):
    b, n, t = [e.eng.box(e.st1, x) for x in e.rt()]
    bf, q, ts = e.val('build_file'), e['target'], e.val('toolset')
    pb, pt = z3.Const('pb', V), z3.Const('pt', V)
    p = M.normpath.f(M.join.f(M.dirname.f(T.acc('s', bf)), T.acc('s', pb)))
    full = z3.If(M.isabs.f(p), p, RELF(p, T.sv('.')))
    given = z3.And(pb != V.NoneV, T.acc('s', pb) != T.sv(''))
    ns = T.acc('s', n)
    rest = z3.If(pt == V.NoneV, ns, z3.Concat(ns, HASH, T.acc('s', pt)))
    reading = z3.And(z3.If(pb == V.NoneV, z3.And(q == rest, z3.Not(z3.Contains(q, COLON))), z3.And(T.tester('StrV', pb), q == z3.Concat(T.acc('s', pb), COLON, rest), z3.Not(z3.Contains(rest, COLON)))),
                     z3.If(pt == V.NoneV, z3.Not(z3.Contains(ns, HASH)), z3.And(T.tester('StrV', pt), z3.Not(z3.Contains(T.acc('s', pt), HASH)))))
    return {'resolved': z3.Exists([pb, pt], z3.And(reading,
                b == z3.If(given, z3.If(z3.And(bf != V.NoneV, T.acc('s', bf) != T.sv('')), V.StrV(full), pb), bf),
                t == z3.If(z3.And(pt != V.NoneV, T.acc('s', pt) != T.sv('')), pt, ts)))}


RESOLVE = Contract('ResolveTarget', C.ResolveTarget, {'build_file': Opt(StrT), 'target': StrT, 'toolset': Opt(StrT)}, ret=TTup(Opt(StrT), StrT, Opt(StrT)), ensures=ens_resolve)


def roundtrip():
    bf, n, ts = z3.Strings('bf n ts')
    b2, n2, t2 = z3.Const('b2', V), z3.String('n2'), z3.Const('t2', V)
    pre = [z3.Not(z3.Contains(n, COLON)), z3.Not(z3.Contains(ts, COLON)), z3.Not(z3.Contains(ts, HASH))]

    def post(q):
        rest = z3.If(t2 == V.NoneV, n2, z3.Concat(n2, HASH, T.acc('s', t2)))
        return [z3.If(b2 == V.NoneV, z3.And(q == rest, z3.Not(z3.Contains(q, COLON))), z3.And(T.tester('StrV', b2), q == z3.Concat(T.acc('s', b2), COLON, rest), z3.Not(z3.Contains(rest, COLON)))),
                z3.If(t2 == V.NoneV, z3.Not(z3.Contains(n2, HASH)), z3.And(T.tester('StrV', t2), z3.Not(z3.Contains(T.acc('s', t2), HASH))))]
    goal = z3.And(b2 == V.StrV(bf), n2 == n, t2 == V.StrV(ts))
    q1 = z3.Concat(bf, COLON, n, HASH, ts)
    q0 = z3.Concat(bf, COLON, n)
    return [('with-toolset:file', pre + [ts != T.sv('')] + post(q1), b2 == V.StrV(bf)),
            ('with-toolset:name', pre + [ts != T.sv('')] + post(q1), n2 == n),
            ('with-toolset:toolset', pre + [ts != T.sv('')] + post(q1), t2 == V.StrV(ts)),
            ('without-toolset', pre + [z3.Not(z3.Contains(n, HASH))] + post(q0), z3.And(b2 == V.StrV(bf), n2 == n, t2 == V.NoneV))]


ROUND = Lemma('compose-then-parse', roundtrip)
TGT = TDict(Any, {'target_name': (StrT, True), 'toolset': (StrT, True)})
DATA = TDict(TDict(Any, {'targets': (TList(TGT), False)}), {'target_build_files': (TList(StrT), True)})


def qn(bf, t):
    return qual(bf, T.acc('s', T.dget(t, T.sv('target_name'))), T.dget(t, T.sv('toolset')))


# a table in which every target of one file is added under its qualified name, after those of the files before it
one_file = T.Scan('targets_of_file', lambda d, t, bf: T.dset(d, qn(bf, t), t), V, params=(T.String,))


def file_targets(data, bf):
    f = T.dget(data, bf)
    return T.ite(T.dhas(f, T.sv('targets')), T.acc('items', T.dget(f, T.sv('targets'))), T.empty())


table = T.Fold('targets_table', lambda data: T.EMPTY_DICT, lambda acc, b, p, data: one_file(acc, file_targets(data, T.acc('s', b)), T.acc('s', b)), V, (V,))


count = T.Fold('number_of_targets', lambda data: z3.IntVal(0), lambda acc, b, p, data: acc + T.length(file_targets(data, T.acc('s', b))), T.Int, (V,))


def cands_btd(lv):
    out = {}
    if lv.done is None or lv.done.sort() != T.SeqV: return out
    for n, d, loc in lv.kinds('dict'):
        data = PDATA.get('t')
        if data is None: continue
        out['table:' + n] = d == table(lv.done, data)
        out['count:' + n] = z3.Length(T.acc('keys', d)) == count(lv.done, data)
        d0 = lv.value(n, lv.entry)
        if isinstance(d0, Loc) and lv.outer is not None:
            out['more:' + n] = T.length(T.acc('keys', d)) == T.length(T.acc('keys', lv.eng.read(lv.entry, d0))) + T.length(lv.done)
            for m, x in lv.scalars(TStr):
                if not z3.is_string_value(x): out['file:%s:%s' % (n, m)] = d == one_file(lv.eng.read(lv.entry, d0), lv.done, x)
    return out


PDATA = {}


def req_btd(e):
    PDATA['t'] = e['data']
    # no build file is called like the list of build files
    return [z3.Not(T.member(T.acc('items', T.dget(e['data'], T.sv('target_build_files'))), T.S('target_build_files')))]


BTD = Contract('BuildTargetsDict', I.BuildTargetsDict, {'data': DATA}, ret=TDict(TGT), requires=req_btd,
               ensures=lambda e: {'table': e.rv == table(T.acc('items', T.dget(e['data'], T.sv('target_build_files'))), e['data']),
                                  'none-lost': z3.Length(T.acc('keys', e.rv)) == count(T.acc('items', T.dget(e['data'], T.sv('target_build_files'))), e['data'])}, cands=cands_btd,
               raises={I.GypError: None, KeyError: None})
ALL = [PARSE, BUILDFILE, QUAL, RESOLVE]


def contracts():
    mk = lambda *cs: (lambda: Verifier({inspect.unwrap(c.fn): c for c in cs}, models=M.PATHS))
    return [(PARSE, mk()), (BUILDFILE, mk(PARSE)), (QUAL, mk()), (RESOLVE, mk(PARSE, RELPATH)), (ROUND, mk()), (BTD, mk(QUAL))]


# ------------------------------------------------------------------ bounded contract runs
def c_round(tier, rng):
    fs = ['a.gyp', 'C:/x/a.gyp', 'C:a.gyp', '../d/b.gyp', ':', 'a:b:c', 'f#g', '', 'f#g:h', '/abs/x y.gyp']
    ns = ['t', '', 'a#b', 't#', '#t', '*', 'a b', '##']
    ts = ['target', 'host', '*', 't', 'x y', '']
    yield from itertools.product(fs, ns, ts)
    def word(al): return ''.join(rng.choice(al) for _ in range(rng.randrange(6)))
    while True: yield (word('ab:#/.'), word('ab#/.*'), word('ab/.*'))


def r_round(x):
    bf, n, ts = x
    q = C.QualifiedTarget(bf, n, ts)
    if ts:
        if C.ParseQualifiedTarget(q) != [bf, n, ts]: return 'parse(%r) = %r' % (q, C.ParseQualifiedTarget(q))
    elif '#' not in n and C.ParseQualifiedTarget(q) != [bf, n, None]: return 'parse(%r) = %r' % (q, C.ParseQualifiedTarget(q))
    return diff('build file of %r' % q, C.BuildFile(q), bf)


def c_parse(tier, rng):
    for k in range(6 if tier == 'quick' else 8):
        for t in itertools.product('a:#', repeat=k): yield ''.join(t)
    while True: yield ''.join(rng.choice('ab:#/. ') for _ in range(rng.randrange(14)))


def o_parse(q):
    bf = ts = None
    if ':' in q: bf, q = q[:len(q) - 1 - q[::-1].index(':')], q[len(q) - q[::-1].index(':'):]
    if '#' in q: q, ts = q[:len(q) - 1 - q[::-1].index('#')], q[len(q) - q[::-1].index('#'):]
    return [bf, q, ts]


def r_parse(q): return diff('parse(%r)' % q, C.ParseQualifiedTarget(q), o_parse(q))


def c_resolve(tier, rng):
    fs = ['a.gyp', 'd/b.gyp', '/abs/c.gyp', 'd/e/f.gyp', '../u/x.gyp', './a.gyp', None, '']
    refs = ['t', 't#host', '../a.gyp:t', 'b.gyp:u#target', '/abs/c.gyp:t', '/abs/../abs2/c.gyp:t', 'e/f.gyp:*', 'x/../b.gyp:t#*', ':t', 't#', '../../base/q.gyp:t', '../../base/dir/q.gyp:t#h', './/b.gyp:u', 'd//b.gyp:u']
    yield from itertools.product(fs, refs, ['target', 'host', None])
    while True:
        p = lambda: '/'.join(rng.choice(['..', '.', 'a', 'b', 'dir', '']) for _ in range(rng.randrange(1, 5))) + '/f.gyp'
        yield (p(), p() + ':' + rng.choice(['t', 'u#host']), rng.choice(['target', None]))


def r_resolve(x):
    import posixpath as pp
    bf, ref, ts = x
    f, n, t = o_parse(ref)
    with scratch() as d:
        d = os.path.realpath(d)
        os.makedirs(d + '/base/dir')
        os.chdir(d + '/base/dir')
        got = outcome(C.ResolveTarget, bf, ref, ts)
        if f and bf:
            w = pp.normpath(pp.join(pp.dirname(bf), f))
            if not w.startswith('/'):
                w = pp.relpath(pp.join(d + '/base/dir', w), d + '/base/dir')
        elif f: w = f
        else: w = bf
    return diff('%r seen from %r' % (ref, bf), got, ('ok', [w, n, t or ts]))


def c_table(tier, rng):
    while True:
        data = {}
        for f in ['a.gyp', 'd/b.gyp', 'c.gyp'][:rng.randrange(1, 4)]:
            k = rng.randrange(4)
            data[f] = [(n, rng.choice(['target', 'host'])) for n in [rng.choice('tuvwxyz') for _ in range(k)]] if rng.random() < .9 else None
        yield data


def r_table(x):
    data = {'target_build_files': list(x)}
    want, dup = {}, False
    for f, l in x.items():
        data[f] = {} if l is None else {'targets': [{'target_name': n, 'toolset': t, 'i': i} for i, (n, t) in enumerate(l)]}
        for i, (n, t) in enumerate(l or []):
            q = '%s:%s#%s' % (f, n, t)
            dup = dup or q in want
            want[q] = {'target_name': n, 'toolset': t, 'i': i}
    got = outcome(I.BuildTargetsDict, data)
    if dup: return None if got[:2] == ('raise', 'GypError') else 'two targets with one name were accepted: %r' % (got,)
    return diff('the table', got, ('ok', want)) or diff('its order', list(got[1]), list(want))


def bounded():
    return [Bounded('compose-parse', c_round, r_round, 'a product of awkward parts, then random parts up to length 5', budget=(6, 60)),
            Bounded('parse', c_parse, r_parse, 'every text over {a : #} up to length 5 (7), then random texts up to length 13', budget=(6, 60)),
            Bounded('resolve', c_resolve, r_resolve, 'a product of build files, references and default toolsets, then random paths', budget=(10, 90)),
            Bounded('targets-table', c_table, r_table, 'random sets of up to 3 build files with up to 3 targets', budget=(6, 60))]


META = dict(level='proof', technique='contract-based deductive verification (pyvc: VCs from the real source, z3/cvc5)',
            note='ParseQualifiedTarget, BuildFile, QualifiedTarget, ResolveTarget, BuildTargetsDict and the round trip are proved for all inputs, given contracts on os.path and RelativePath; '
                 'that only duplicates are rejected, and the os.path part, is additionally run on bounded inputs.')
