#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py C01   (tier from VERIF_TIER, seed from VERIF_SEED)

exit 0: every query of every explored path was answered `unsat` (listed known findings aside) and every witness replay
        on the real code agreed with the encoding
exit 1: VIOLATION - a counterexample was reproduced on the real code
exit 2: no answer (solver unknown, unsupported construct, or a counterexample the real code does not reproduce)"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('ORANSSI_REPO', '/repo')

LIMITS = {'quick': {'scenario_s': 200, 'query_ms': 20000, 'witness': 3, 'total_s': 540},
          'thorough': {'scenario_s': 2400, 'query_ms': 240000, 'witness': 8, 'total_s': 7200}}


def explore_scenario(args):
    """worker: run one scenario on every path"""
    pid, name, tier, seed, limits = args
    os.environ.setdefault('PYTHONHASHSEED', '0')
    from symx.engine import ENGINE, Unsupported, Infeasible, VARS
    from symx.scalar import NotANumber
    from symx import env as E
    from symx.loader import Coverage
    h = importlib.import_module('harness.' + pid.lower())
    fn, kw = [(f, k) for n, f, k in h.scenarios(tier) if n == name][0]
    opts = getattr(h, 'OPTIONS', {}).get(fn.__name__, {})
    ENGINE.query_timeout = opts.get('query_ms', limits['query_ms'])
    ENGINE.branch_timeout = opts.get('branch_ms', 2000)
    ENGINE.skip_lets = opts.get('skip_lets', False)
    cov = Coverage()
    cov.start()
    res = {'scenario': name, 'failures': [], 'witness': [], 'proved': 0, 'errors': [], 'samples': [], 'decisions': 0,
           'labels': []}
    scales = opts.get('scales', [1.0])      # magnitudes of the inputs tried when a path has no verdict
    max_w = opts.get('witness', limits['witness'])
    rnd = random.Random(seed)
    npath = [0]
    misses = [0]     # solver calls for a witness

    def undecided_path(e):
        # no verdict from the solver on this path: the real code is still run on a few inputs of it
        cands = [dict(e.realize({}, random.Random(seed * 1000 + k), scales[k % len(scales)]), fallback_seed=k)
                 for k in range(8)]
        cands += structured(e, cands[0], cands[1], seed)
        res['failures'].append({'label': 'path without a verdict', 'verdict': 'unsupported', 'info': '',
                                'candidates': cands, 'scenario': name, 'abstract': True})

    def one():
        e = E.SymEnv(tier, seed)
        npath[0] += 1
        try:
            fn(e, **kw)
        except (Unsupported,) as x:
            res['errors'].append('unsupported: %s @ %s' % (x, _where(x)))
            undecided_path(e)
        except Infeasible:
            raise
        except Exception as x:
            if os.environ.get('SYMX_DEBUG'):
                traceback.print_exc()
            if any(f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(x.__traceback__)):
                e._fail_now('exception', '%s: %s @ %s' % (type(x).__name__, x, _where(x)))
            else:
                res['errors'].append('scenario: %s: %s @ %s' % (type(x).__name__, x, _where(x)))
                undecided_path(e)
        if os.environ.get('SYMX_SELFTEST') and npath[0] % int(os.environ['SYMX_SELFTEST']) == 0 and not e.failures:
            undecided_path(e)
        res['proved'] += len(e.proved)
        res['decisions'] += len(ENGINE.trace)
        for f in e.failures:
            cands = [f.inputs]
            for k in range(12):
                cands.append(e.realize({}, random.Random(seed * 1000 + k), scales[k % len(scales)]))
            cands += structured(e, f.inputs, cands[1], seed)
            res['failures'].append({'label': f.label, 'verdict': f.verdict, 'info': f.info, 'candidates': cands,
                                    'scenario': name, 'abstract': f.abstract})
        if len(res['samples']) < 2:
            res['samples'].append({'scenario': name, 'choices': dict(e.choices), 'path': [str(t) for t in ENGINE.trace],
                                   'assertions': e.proved[:4]})
        if not e.failures and not res['errors'] and (
                len(res['witness']) < max_w or (npath[0] & (npath[0] - 1)) == 0 and len(res['witness']) < 2 * max_w):
            w = make_witness(e, rnd)
            if w is not None:
                res['witness'].append(w)
        if len(res['failures']) >= 8 and not os.environ.get('SYMX_SELFTEST') or len(res['errors']) >= 4:
            return 'stop'

    def make_witness(e, rnd):
        inp = env = None
        ok = False
        for k in range(16):
            inp = e.realize({}, random.Random(rnd.random()))
            env = e.var_values(inp)
            if E.pc_holds(env):
                ok = True
                break
        if not ok and ENGINE.pc and misses[0] < 5:
            misses[0] += 1
            r, m = ENGINE.check([], set(), 4000, all_pc=True, box=3, branch=True)
            if r == 'sat':
                inp = e.inputs_from_model(m)
                env = e.var_values(inp)
                ok = E.pc_holds(env)
        if not ok:
            return None
        try:
            outs = [(l, E.num_tree(x, env)) for l, x in e.outs]
        except (KeyError, OverflowError, ZeroDivisionError, ValueError) as x:
            return None
        inp = dict(inp)
        inp['expect'] = outs
        return inp

    t0 = time.time()
    try:
        n, complete = ENGINE.explore(one, max_paths=opts.get('max_paths', 4000),
                                     max_s=opts.get('scenario_s', limits['scenario_s']))
    except Exception:
        res['errors'].append('engine: ' + traceback.format_exc(limit=6))
        n, complete = npath[0], False
    st = ENGINE.stats
    res.update(paths=n, complete=complete and not res['errors'], wall_s=time.time() - t0, functions=sorted(cov.seen),
               stats={k: getattr(st, k) for k in ('queries', 'unsat', 'sat', 'unknown', 'branch_queries', 'solver_s',
                                                  'max_query_s')})
    return res


def _where(x):
    tb = traceback.extract_tb(x.__traceback__)
    inrepo = [f for f in tb if f.filename.startswith(REPO)]
    f = (inrepo or tb)[-1]
    return '%s:%s' % (os.path.relpath(f.filename, REPO) if inrepo else os.path.basename(f.filename), f.lineno)


def structured(e, model, generic, seed):
    from symx import env as E
    if not any(d['kind'] in ('unitary', 'orthogonal', 'param_unitary2', 'hermitian', 'free') for d in e.inputs.values()):
        return []
    out = []
    for k, m in enumerate(E.STRUCTURED):
        try:
            out.append(e.structured(model if k % 2 == 0 else generic, m, random.Random(seed * 77 + k)))
        except (ValueError, ArithmeticError):
            pass
    return out


def run_concrete(jobs, tag, timeout):
    """replay on the real code; several interpreters in parallel"""
    if not jobs:
        return {}
    d = os.path.join(HERE, 'evidence', 'tmp')
    os.makedirs(d, exist_ok=True)
    nproc = min(4, 1 + len(jobs) // 12)
    chunks = [[] for _ in range(nproc)]
    groups = {}
    for j in jobs:
        g = j.get('group') or j['id']
        chunks[groups.setdefault(g, len(groups)) % nproc].append(j)
    procs = []
    for i, c in enumerate(chunks):
        if not c:
            continue
        a, b = os.path.join(d, '%s.%d.in.json' % (tag, i)), os.path.join(d, '%s.%d.out.json' % (tag, i))
        with open(a, 'w') as f:
            json.dump(c, f)
        if os.path.exists(b):
            os.remove(b)
        env = dict(os.environ, PYTHONPATH=REPO, OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        cmd = '. /opt/vp/env.sh >/dev/null 2>&1; export PYTHONPATH=%s; exec /opt/venv/bin/python %s %s %s' % (
            REPO, os.path.join(HERE, 'symx', 'conc.py'), a, b)
        procs.append((subprocess.Popen(['bash', '-c', cmd], env=env, stdout=subprocess.DEVNULL,
                                       stderr=subprocess.PIPE, cwd=d), a, b))
    out = {}
    t0 = time.time()
    for p, a, b in procs:
        try:
            _, err = p.communicate(timeout=max(5, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            err = b'timeout'
        if os.path.exists(b):
            try:
                with open(b) as f:
                    for r in json.load(f):
                        out[r['id']] = r
            except ValueError:
                pass
        if p.returncode:
            sys.stderr.write('concrete runner: rc=%s %s\n' % (p.returncode, err.decode(errors='replace')[-800:]))
    return out


def close_tree(a, b, tol=2e-5):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return all(close_tree(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))
    return a == b


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def unexplored(name, why):
    return {'scenario': name, 'failures': [], 'witness': [], 'proved': 0, 'paths': 0, 'errors': [why], 'samples': [],
            'decisions': 0, 'complete': False, 'functions': [], 'stats': {}, 'wall_s': 0.0}


def replay_jobs(pid, r, tier):
    jobs = []
    for k, w in enumerate(r['witness']):
        jobs.append(dict(w, id='w:%s:%d' % (r['scenario'], k), harness=pid.lower(), scenario=r['scenario'], tier=tier))
    for k, f in enumerate(r['failures']):
        for c, cand in enumerate(f['candidates']):
            jobs.append(dict(cand, id='f:%s:%d:%d' % (r['scenario'], k, c), harness=pid.lower(),
                             scenario=r['scenario'], tier=tier, group='f:%s:%d' % (r['scenario'], k),
                             stop_on_fail=True))
    return jobs


def _worker(wr, a):
    try:
        r = explore_scenario(a)
        wr.send(r)
    except BaseException as e:
        wr.send(unexplored(a[1], '%s: %s' % (type(e).__name__, e)))
    wr.close()
    sys.stdout.flush()
    os._exit(0)


def stop(running):
    for p, rd in running.values():
        p.kill()
    for p, rd in running.values():
        p.join(5)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    limits = LIMITS[tier]
    t0 = time.time()
    h = importlib.import_module('harness.' + pid.lower())
    names = [n for n, _, _ in h.scenarios(tier) if only is None or n == only]
    args = [(pid, n, tier, seed, limits) for n in names]
    results = []
    ctx = mp.get_context('fork')
    jobs = int(os.environ.get('SYMX_JOBS', '8'))
    known = [k for k in load_known() if k['property'] == pid]
    early = {}      # replays of counterexamples made while other scenarios are still being explored
    # one process per scenario, results come back through a pipe (a pool can deadlock when it is terminated)
    waiting, running = list(args), {}
    try:
        while waiting or running:
            while waiting and len(running) < jobs:
                a = waiting.pop(0)
                rd, wr = ctx.Pipe(duplex=False)
                p = ctx.Process(target=_worker, args=(wr, a), daemon=True)
                p.start()
                wr.close()
                running[a[1]] = (p, rd)
            if time.time() - t0 > limits['total_s']:
                break
            ready = set(wait([rd for _, rd in running.values()], timeout=1.0))
            for n in [n for n, (_, rd) in running.items() if rd in ready]:
                p, rd = running.pop(n)
                try:
                    r = rd.recv()
                except EOFError:
                    r = unexplored(n, 'the process that explored this scenario ended')
                rd.close()
                p.join(5)
                results.append(r)
                if r['failures'] and (running or waiting):
                    js = [j for j in replay_jobs(pid, r, tier) if j['id'].startswith('f:')]
                    got = run_concrete(js, '%s.%s.%s' % (pid, tier, n), 120)
                    early.update(got)
                    bad = [c for c in got.values() if c['status'] == 'fail' and not any(
                        k['scenario'] == n and c['fails'][0][0].startswith(k['label']) for k in known)]
                    if bad and not os.environ.get('SYMX_ALL'):
                        for m in list(running) + [a[1] for a in waiting]:   # a violation is certain: the rest is not needed
                            results.append(unexplored(m, 'not explored: a violation was found first'))
                        stop(running)
                        waiting, running = [], {}
                        break
        for n in list(running) + [a[1] for a in waiting]:
            results.append(unexplored(n, 'time limit'))
    finally:
        stop(running)
    results.sort(key=lambda r: names.index(r['scenario']))

    # ------------------------------------------------------------- replay on the real code
    jobs = [j for r in results for j in replay_jobs(pid, r, tier)]
    conc = run_concrete([j for j in jobs if j['id'] not in early], pid + '.' + tier, 240 if tier == 'quick' else 1200)
    conc.update(early)
    byid = {j['id']: j for j in jobs}

    # mismatch: the encoding is wrong somewhere (error exit); inconclusive: the solver could not decide a query, or
    # its counterexample is one of an uninterpreted function only (no verdict on that part)
    violations, inconclusive, validated, mismatch, undecided = [], [], 0, [], set()
    hit_known = {}
    for r in results:
        for e in r['errors']:
            inconclusive.append('%s: %s' % (r['scenario'], e))
            undecided.add(r['scenario'])
        if not r['complete'] and not r['errors'] and len(r['failures']) < 8:
            inconclusive.append('%s: exploration ended after %d paths' % (r['scenario'], r['paths']))
        for k, w in enumerate(r['witness']):
            j = 'w:%s:%d' % (r['scenario'], k)
            c = conc.get(j)
            if c is None:
                mismatch.append(j + ': not run')
            elif c['status'] == 'error':
                mismatch.append('%s: scenario error in replay: %s' % (j, c.get('traceback', '')[-300:]))
            elif c['status'] == 'fail':
                violations.append((r['scenario'], c['fails'][0][0], c['fails'][0][1], byid[j]))
            elif c['status'] == 'pass':
                if close_tree([list(o) for o in w['expect']], c['outs']):
                    validated += 1
                else:
                    mismatch.append('%s: encoding and real code differ: %s' % (
                        j, _first_diff(w['expect'], c['outs'])))
        for k, f in enumerate(r['failures']):
            done = False
            for ci in range(len(f['candidates'])):
                j = 'f:%s:%d:%d' % (r['scenario'], k, ci)
                c = conc.get(j)
                if c is not None and c['status'] == 'fail':
                    violations.append((r['scenario'], c['fails'][0][0], c['fails'][0][1], byid[j]))
                    done = True
                    break
            if not done and f['verdict'] != 'unsupported':
                t = '%s: %s: solver answered %s (%s), not reproduced on the real code' % (
                    r['scenario'], f['label'], f['verdict'], f['info'])
                if f['verdict'] == 'sat' and not f['abstract']:
                    mismatch.append(t)
                else:
                    inconclusive.append(t)
            undecided.add(r['scenario'])
    real = []
    for v in violations:
        m = [k for k in known if k['scenario'] == v[0] and v[1].startswith(k['label'])]
        if m:
            hit_known[m[0]['what']] = m[0]
        else:
            real.append(v)

    # ------------------------------------------------------------- evidence
    S = {}
    for r in results:
        for k, v in r['stats'].items():
            S[k] = max(S.get(k, 0), v) if k == 'max_query_s' else S.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r['functions'] if not f.endswith(':<module>')))
    cov = {
        'states': sum(r['paths'] for r in results),
        'transitions': sum(r['decisions'] for r in results) + S.get('queries', 0),
        'traces_validated_against_impl': validated,
        'samples': [s for r in results for s in r['samples']][:6],
        'exhaustive': all(r['complete'] for r in results),
        'functions_encoded': funcs,
        'source_sha256': {f: hashlib.sha256(open(os.path.join(REPO, f), 'rb').read()).hexdigest()[:16]
                          for f in sorted(set(x.split(':')[0] for x in funcs))},
        'bounds': getattr(h, 'BOUNDS', {}).get(tier) or getattr(h, 'BOUNDS', {}).get('quick', ''),
        'scenarios': [{'name': r['scenario'], 'paths': r['paths'], 'complete': r['complete'],
                       'assertions_proved': r['proved'], 'wall_s': round(r['wall_s'], 2)} for r in results],
        'assertions_proved': sum(r['proved'] for r in results),
        'solver': 'z3 ' + _z3v(), 'solver_queries': S.get('queries', 0), 'unsat': S.get('unsat', 0),
        'sat': S.get('sat', 0), 'unknown': S.get('unknown', 0), 'branch_queries': S.get('branch_queries', 0),
        'solver_s': round(S.get('solver_s', 0), 3), 'max_query_s': round(S.get('max_query_s', 0), 3),
        'counterexample_replays': sum(1 for j in conc if j.startswith('f:')),
        'known_findings_seen': sorted(hit_known),
        'inconclusive': inconclusive + mismatch,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': getattr(h, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    if only is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios, %d paths, %d assertions proved, %d queries (%d unsat, %d sat, %d unknown), solver '
          '%.1f s, %d witnesses replayed, wall %.1f s' % (
              pid, tier, len(results), cov['states'], cov['assertions_proved'], cov['solver_queries'], cov['unsat'],
              cov['sat'], cov['unknown'], cov['solver_s'], validated, ev['wall_s']))
    for w in sorted(hit_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if real:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        seen = set()
        for n, (sc, label, info, job) in enumerate(real):
            if sc in seen:
                continue
            seen.add(sc)
            path = os.path.join(HERE, 'evidence', 'replay', '%s-%s.json' % (pid, sc))
            job = dict(job, stop_on_fail=False)
            with open(path, 'w') as f:
                json.dump([job], f, indent=1)
            print('  %s: %s: %s' % (sc, label, info))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for m in mismatch[:12]:
        print('ENCODING-MISMATCH %s' % m)
    for m in inconclusive[:12]:
        print('INCONCLUSIVE %s' % m)
    if mismatch or len(undecided) == len(results):
        return 2
    return 0


def _first_diff(a, b):
    for x, y in zip(a, b):
        if not close_tree(list(x), list(y)):
            return '%s: %s vs %s' % (x[0], str(x[1])[:160], str(y[1])[:160])
    return 'length %d vs %d' % (len(a), len(b))


def _z3v():
    import z3
    return z3.get_version_string()


COMMON_ASSUMPTIONS = [
    'arithmetic is exact over the reals: floating-point rounding is outside the claim; float constants stand for the '
    'short decimal / small rational / rational multiple of sqrt(2) or pi they approximate',
    'numpy object-array algebra, networkx and sympy run as they are; PennyLane, scipy.linalg.expm, numpy.linalg.eigh/svd '
    'and random draws are models (symx/), compared with the real ones on every witness replay',
    'code runs under CPython 3.12 in symbolic mode and under the repository interpreter (PyPy 3.9) in replays',
]

if __name__ == '__main__':
    sys.exit(main())
