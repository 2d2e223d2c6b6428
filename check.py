#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] | check.py --replay <file>

Decides one property on the current tree of /repo.  exit 0: it held on everything explored;
exit 1: VIOLATION line on stdout."""
import argparse
import ast
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib.base import *  # noqa

setup_path()
CTX = mp.get_context('fork')
sys.setrecursionlimit(20000)


def load(prop):
    return importlib.import_module('props.' + prop)


def prove_job(prop, idx, ms, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from pyvc import contract as C
        m = load(prop)
        c, mk = m.contracts()[idx]
        r = C.run_contract(c, mk, ms)
        q.put(('proof', idx, {k: (sorted(v) if isinstance(v, set) else v) for k, v in r.__dict__.items()}))
    except BaseException as ex:
        q.put(('proof', idx, {'name': '?', 'error': 'generator: %s %s' % (type(ex).__name__, ex), 'obls': [], 'secs': 0}))


def bounded_job(prop, idx, tier, seed, known, q, lastfile):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        m = load(prop)
        b = m.bounded()[idx]
        rng = random.Random('%s/%s/%d' % (prop, b.name, seed))
        t0 = time.time()
        n = nt = again = 0
        fails, seen, samples, knownhits = [], set(), [], {}
        lf = os.open(lastfile, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        capped = False
        budget = b.budget[0 if tier == 'quick' else 1]
        for x in b.cases(tier, rng):
            rx = repr(x)
            if rx in seen:
                again += 1
                if again > 3000 or time.time() - t0 > budget: break
                continue
            again = 0
            seen.add(rx)
            n += 1
            if b.nontrivial(x): nt += 1
            if len(samples) < 2 or (n in (100, 1000, 10000)): samples.append(rx[:300])
            os.ftruncate(lf, 0)
            os.pwrite(lf, rx.encode('utf-8', 'surrogatepass')[:200000], 0)
            msg = run_case(b, x)
            if msg is not None:
                key = known_key(known, prop, b.name, rx)
                if key: knownhits[key] = msg
                else:
                    fails.append((rx, msg))
                    if len(fails) >= 3: break
            if time.time() - t0 > budget:
                capped = True
                break
        os.close(lf)
        q.put(('bounded', idx, dict(name=b.name, bound=b.bound, n=n, nontrivial=nt, samples=samples, fails=fails, known=knownhits,
                                    capped=capped, secs=time.time() - t0, error=None)))
    except BaseException as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        q.put(('bounded', idx, dict(name='bounded%d' % idx, bound='', n=0, nontrivial=0, samples=[], fails=[], known={}, capped=False, secs=0,
                                    error='%s: %s (%s:%s)' % (type(ex).__name__, ex, tb.filename, tb.lineno))))


def run_case(b, x):
    try:
        with limit(b.per): return b.run(x)
    except Hang:
        return 'the call did not finish within %gs' % b.per
    except AssertionError as ex:
        return 'assertion: %s' % ex
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        return 'unexpected %s: %s (%s:%s)' % (type(ex).__name__, str(ex)[:300], os.path.basename(tb.filename), tb.lineno)


def known_key(known, prop, check, rx):
    for k in known:
        if k['property'] == prop and k['check'] == check and rx in k['inputs']: return k['what']
    return None


def load_known():
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip() and not l.startswith('#') and not l.startswith('fixed:'): out.append(json.loads(l))
    return out


def write_replay(prop, data):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(p, 'w') as f: json.dump(data, f, indent=1, default=str)
    return p


def replay(path):
    d = json.load(open(path))
    if d.get('kind') != 'input':
        print(json.dumps(d, indent=1))
        return 1
    m = load(d['property'])
    b = [b for b in m.bounded() if b.name == d['check']][0]
    msg = run_case(b, ast.literal_eval(d['input']))
    print('input: %s\n%s' % (d['input'], msg or 'holds'))
    return 1 if msg else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--only')
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ms = 10000 if tier == 'quick' else 60000
    known = load_known()
    err = None
    ncs = nbs = 0
    cs, bs = [], []
    try:
        m = load(prop)
        cs, bs = [], m.bounded()
        nbs = len(bs)
        cs = m.contracts()
        ncs = len(cs)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        err = 'the functions under contract cannot be found: %s: %s (%s:%s)' % (type(ex).__name__, ex, tb.filename, tb.lineno)
        if not nbs: bs = []
    q = CTX.Queue()
    jobs = []
    tmp = '/tmp/verif-last-%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    for i in range(nbs):
        if a.only and a.only not in bs[i].name: continue
        cap = bs[i].budget[0 if tier == 'quick' else 1] + bs[i].per + 20
        jobs.append((('bounded', i), CTX.Process(target=bounded_job, args=(prop, i, tier, seed, known, q, '%s/%d' % (tmp, i))), cap))
    for i in range(ncs):
        if a.only and a.only not in cs[i][0].name: continue
        jobs.append((('proof', i), CTX.Process(target=prove_job, args=(prop, i, ms, q)), 420 if tier == 'quick' else 1500))
    total_cap = 780 if tier == 'quick' else 3000
    running, results, pend, tries = {}, {}, list(jobs), {}
    while pend or running:
        while pend and len(running) < 8:
            key, p, cap = pend.pop(0)
            p.daemon = True
            p.start()
            running[key] = (p, time.time(), cap)
        try:
            k, i, r = q.get(timeout=0.2)
            results[(k, i)] = r
        except Exception:
            pass
        for key, (p, ts, cap) in list(running.items()):
            if key in results:
                p.join(5)
                if p.is_alive(): p.kill()
                del running[key]
            elif time.time() - ts > cap or time.time() - t0 > total_cap:
                p.kill()
                p.join()
                del running[key]
                results[key] = None
            elif not p.is_alive():
                try:
                    k, i, r = q.get(timeout=1)
                    results[(k, i)] = r
                except Exception:
                    if key[0] == 'proof' and tries.get(key, 0) < 2:       # the solver died: once more
                        tries[key] = tries.get(key, 0) + 1
                        print('%s: the solver process ended with %s, started again' % (cs[key[1]][0].name, p.exitcode))
                        pend.insert(0, (key, CTX.Process(target=prove_job, args=(prop, key[1], ms, q)), cap))
                        del running[key]
                        continue
                    results[key] = None
                if key in results: running.pop(key, None)
    # ---- collect
    viol, lines, undecided = [], [], []
    nob = ndis = 0
    fns, backends, assumed, inlined, slow, failed = [], {}, set(), set(), 0.0, []
    solver_s = 0.0
    for i, (c, _) in enumerate(cs):
        if ('proof', i) not in results and a.only: continue
        r = results.get(('proof', i))
        if r is None:
            failed.append((c.name, 'solver crash' if tries.get(('proof', i)) else 'time limit', ''))
            continue
        if r['error']: failed.append((c.name, r['error'], ''))
        for o in r['obls']:
            nob += 1
            if o[1] == 'proved':
                ndis += 1
                backends[o[2]] = backends.get(o[2], 0) + 1
            else: failed.append((o[0], '%s by %s %s' % (o[1], o[2], o[4]), (o[5] + ' || ' + str(o[6]))[:2000]))
            solver_s += o[3]
            slow = max(slow, o[3])
        for name, xs in r.get('witnesses', ()):
            b = [b for b in bs if b.name == name]
            for x in xs:
                if not b or known_key(known, prop, name, x): continue
                msg = run_case(b[0], ast.literal_eval(x))
                if msg: viol.append((name, x, msg + ' (string found by the transducer obligation)'))
        for x in r.get('assumed', ()): assumed.add(x)
        for x in r.get('inlined', ()): inlined.add(x)
        fns.append(dict(contract=r['name'], lines=r.get('lines'), paths=r.get('paths'), obligations=len(r['obls']), invariants=r.get('invs'),
                        secs=round(r['secs'], 2), ok=not r['error'] and all(o[1] == 'proved' for o in r['obls'])))
        if a.verbose:
            print('%-40s %s %d obligations %d paths %.1fs %s' % (r['name'], 'ok' if fns[-1]['ok'] else 'FAILED', len(r['obls']), r.get('paths') or 0, r['secs'], r['error'] or ''))
    nin = nnt = 0
    samples, bounds = [], []
    for i, b in enumerate(bs):
        if ('bounded', i) not in results and a.only: continue
        r = results.get(('bounded', i))
        if r is None:
            try: last = open('%s/%d' % (tmp, i), 'rb').read().decode('utf-8', 'surrogatepass')
            except OSError: last = ''
            msg = 'the process running this input was killed (time or memory)'
            if last: viol.append((b.name, last, msg))
            else: undecided.append((b.name, msg))
            continue
        if r['error']:
            undecided.append((b.name, r['error']))
            continue
        nin += r['n']
        nnt += r['nontrivial']
        samples += [dict(check=b.name, input=s) for s in r['samples'][:2]]
        bounds.append(dict(check=b.name, bound=b.bound, inputs=r['n'], stopped_by_time=r['capped'], secs=round(r['secs'], 2)))
        for rx, msg in r['fails']: viol.append((b.name, rx, msg))
        for k in r['known']: lines.append('KNOWN-FINDING: property=%s %s' % (prop, k))
        if a.verbose:
            print('%-40s %s %d inputs %.1fs%s' % (b.name, 'ok' if not r['fails'] else 'FAILED', r['n'], r['secs'], ' (time cap)' if r['capped'] else ''))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    if err: undecided.append(('load', err))
    for l in sorted(set(lines)): print(l)
    rc = 0
    out = []
    if viol:
        rc = 1
        for name, rx, msg in viol[:3]:
            p = write_replay(prop, dict(kind='input', property=prop, check=name, input=rx, failure=msg,
                                        failed_obligations=[f[0] for f in failed], how='python3-vt /verif/check.py --replay <this file>'))
            print('%s: %s\n  input %s' % (name, msg, rx[:500]))
            out.append('VIOLATION property=%s replay=%s' % (prop, p))
        print(out[0])
    elif failed or undecided:
        rc = 1
        p = write_replay(prop, dict(kind='obligations', property=prop, failed=[dict(obligation=f[0], verifier=f[1], detail=f[2]) for f in failed],
                                    undecided=undecided))
        for f in failed[:12]: print('undischarged: %s: %s%s' % (f[0], f[1], ('\n     ' + f[2][:1500]) if a.verbose else ''))
        for u in undecided[:5]: print('undecided: %s: %s' % u)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    meta = getattr(m, 'META', {}) if nbs else {}
    level = meta.get('level', 'other')
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier),
               trusted_base=['pyvc verification-condition generator (/verif/pyvc)', 'z3 5.3.2 (python bindings)', 'cvc5 1.1.2', 'CPython ast module'] + meta.get('trusted', []),
               explanation=meta.get('explanation', 'contracts on the real functions discharged by the solvers; functions out of the reach of the verifier are run against the same contract on stated inputs (bounded, not counted as proved)'),
               functions_under_contract=fns, functions_inlined=sorted(inlined), backends=backends, solver_s=round(solver_s, 2),
               slowest_obligation_s=slow, bounded_checks=bounds, bounded_inputs=nin,
               evaluations=nin, distinct_nontrivial=nnt, rule='inputs are enumerated or drawn as each bounded check states and counted once by their text; %s' % meta.get('rule', 'non-trivial: as judged by the predicate of the bounded check'),
               samples=samples[:12] or ['no bounded check'])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted(assumed) + meta.get('assumptions', []),
              violations=len(out) if viol else (1 if rc else 0), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged over %d contracts, %d bounded inputs, %.1fs' % (prop, 'holds' if rc == 0 else 'NOT SHOWN', ndis, nob, len(fns), nin, time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
