#!/usr/bin/env python3
"""Checks of the properties of pyorb (see DESIGN.md).

  run.py --property ID [--tier quick|thorough]     decide one property
  run.py --replay FILE                             replay a counterexample
"""
import argparse
import json
import os
import re
import subprocess
import sys
import time

BASE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, BASE)
sys.dont_write_bytecode = True
REPO = os.environ.get('PYORB_REPO', '/repo')
REAL_PY = '/opt/venv/bin/python'
if not os.path.exists(REAL_PY):
    REAL_PY = sys.executable
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


# ------------------------------------------------------------------- replays
def load_real():
    """The unmodified package, from the repository's sources."""
    sys.path.insert(0, REPO)
    import pyorb
    import pyorb.kepler
    import pyorb.orbit
    import pyorb.unit
    assert os.path.realpath(pyorb.__file__).startswith(os.path.realpath(REPO))
    return pyorb


def replay_batch(hname, picks, cands):
    from symx import reg, fctx
    h = reg.get(hname)
    pk = load_real()
    out = []
    for c in cands:
        cx, ex = fctx.run_float(h.fn, pk, picks, c)
        if isinstance(ex, fctx.AssumeFailed):
            out.append(dict(valid=False, failed=[]))
            continue
        failed = [(n, d) for n, ok, d in cx.results if not ok]
        if ex is not None:
            failed.append(('exception', f'{type(ex).__name__}: {ex}'))
        out.append(dict(valid=True, failed=failed[:5], used={
            k: v for k, v in cx.used.items()}))
    return out


def serve():
    req = json.load(sys.stdin)
    real_stdout = sys.stdout
    sys.stdout = sys.stderr
    out = replay_batch(req['harness'], req['picks'], req['inputs'])
    sys.stdout = real_stdout
    json.dump(out, sys.stdout, default=str)


def replay_sub(hname, picks, cands):
    try:
        p = subprocess.run(
            [REAL_PY, '-B', os.path.join(BASE, 'run.py'), '--serve'],
            input=json.dumps(dict(harness=hname, picks=picks, inputs=cands)),
            capture_output=True, text=True, timeout=60)
        return json.loads(p.stdout)
    except Exception as ex:
        return [dict(valid=False, failed=[], error=str(ex))]*len(cands)


def do_replay(path):
    with open(path) as f:
        v = json.load(f)
    out = replay_batch(v['harness'], v['picks'], [v['inputs']])[0]
    print(json.dumps(dict(v, outcome=out), indent=1, default=str))
    if out['valid'] and out['failed']:
        print(f"VIOLATION property={v['property']} replay={path}")
        return 1
    print('not reproduced')
    return 0


# --------------------------------------------------------------------- checks
_PK = {}


def symbolic_package(env):
    from symx import loader
    if env not in _PK:
        hooks = {}
        if env == 'uf':
            from symx import uf
            hooks = uf.hooks()
        elif env == 'kep':
            from symx import stubs
            hooks = stubs.solver()
        _PK[env] = loader.load(True, hooks)
    return _PK[env]


def real_package():
    from symx import loader
    if 'real' not in _PK:
        _PK['real'] = loader.load(False)
    return _PK['real']


class _Hard(BaseException):
    pass


def job(args):
    hname, picks, tier, extra = args
    import resource
    import signal
    from symx import reg, sctx
    from symx import core as C
    sys.setrecursionlimit(20000)
    h = reg.get(hname)
    opts = h.options(tier)
    opts.update(extra)

    def alarm(*a):
        raise C.Deadline()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(opts.get('job_s', 120)) + 60)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        opts['real_pyorb'] = real_package()
        opts['env'] = h.env
        C.RND = None
        if h.env == 'rounding':
            from symx import rnd
            C.RND = rnd
        if h.env == 'uf':
            from symx import uf
            uf.REAL[0] = opts['real_pyorb'].kepler
        pk = symbolic_package(h.env)
        for k in C.STATS:
            C.STATS[k] = 0
        with open(os.devnull, 'w') as dn:
            so, sys.stdout = sys.stdout, dn
            try:
                return sctx.run_job(
                    hname, h.fn, pk, picks, opts,
                    lambda c: replay_sub(hname, picks, c))
            finally:
                sys.stdout = so
    except C.Deadline:
        return dict(harness=hname, picks=picks, failed='hard time limit')
    except BaseException as ex:
        import traceback
        return dict(harness=hname, picks=picks,
                    failed=f'{type(ex).__name__}: {ex}\n'
                           + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)


def known_findings(prop):
    out = []
    p = os.path.join(BASE, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        m = re.match(r'known: property=(\S+) match=(\{.*?\}) :: (.*)', line)
        if m and m.group(1) == prop:
            out.append((json.loads(m.group(2)), m.group(3)))
    return out


def matches(kf, v):
    """A listed finding is one harness, configuration and obligation."""
    if kf.get('harness') != v['harness']:
        return False
    for k, val in kf.get('picks', {}).items():
        if v['picks'].get(k) != val:
            return False
    return re.fullmatch(kf['obligation'], v['obligation']) is not None


def run_property(prop, tier, budget, verbose=False, only=None):
    import multiprocessing as mp
    from symx import reg
    t0 = time.time()
    hs = [h for h in reg.load_all() if h.prop == prop]
    if only:
        hs = [h for h in hs if h.name == only]
    if not hs:
        print(f'no harness for {prop}')
        return 2
    jobs = []
    kfs = known_findings(prop)
    for h in hs:
        o = h.options(tier)
        for p in h.combos(tier):
            jobs.append((o.get('weight', 1), h.name, p))
    jobs.sort(key=lambda j: -j[0])
    ncpu = min(8, os.cpu_count() or 1)
    results = []
    viol = None
    known_seen = {}
    extra = {}
    if kfs:
        extra['max_viol'] = 40
    ctx = mp.get_context('fork')
    # import once, before forking
    import symx.sctx  # noqa
    deadline = t0 + budget
    with ctx.Pool(ncpu, maxtasksperchild=6) as pool:
        its = [pool.apply_async(job, ((n, p, tier, extra),))
               for _, n, p in jobs]
        pend = dict(enumerate(its))
        while pend and viol is None:
            if time.time() > deadline:
                break
            ready = [i for i, r in pend.items() if r.ready()]
            if not ready:
                time.sleep(0.02)
                continue
            for i in ready:
                r = pend.pop(i).get()
                results.append(r)
                if verbose:
                    show(r)
                for v in r.get('violations', []):
                    v = dict(v, harness=r['harness'], picks=r['picks'],
                             property=prop)
                    hit = [d for k, d in kfs if matches(k, v)]
                    if hit:
                        known_seen[hit[0]] = known_seen.get(hit[0], 0) + 1
                    elif viol is None:
                        viol = v
        unfinished = len(pend)
        pool.terminate()
    return finish(prop, tier, t0, results, viol, known_seen, kfs, unfinished,
                  len(jobs))


def show(r):
    if 'failed' in r:
        print(r['harness'], r['picks'], 'FAILED', r['failed'])
        return
    print(f"{r['harness']} {r['picks']} paths={r['paths']} dead={r['dead']} "
          f"obl={r['obligations']} ok={r['discharged']} nf={r['trivial']} "
          f"tol={r['tolerance']} part={r['partial']} "
          f"wit={r['witnesses']}/{r['witness_bad']} "
          f"incl={len(r['inconclusive'])} viol={len(r['violations'])} "
          f"q={r['stats']['queries']} {r['stats']['solver_s']:.1f}s "
          f"wall={r['wall_s']:.1f}s")
    for x in sorted(set(r['inconclusive']))[:6]:
        print('     inconclusive:', x[:300])
    for v in r['violations'][:3]:
        print('     violation:', v)
    for x in r['samples']:
        if x.startswith('witness'):
            print('     ', x)
    if r['assumed']:
        print('     assumed', r['assumed'])


def finish(prop, tier, t0, results, viol, known_seen, kfs, unfinished, njobs):
    ok = [r for r in results if 'failed' not in r]
    bad = [r for r in results if 'failed' in r]

    def tot(k):
        return sum(r[k] for r in ok)

    def st(k):
        return sum(r['stats'][k] for r in ok)
    incl = {}
    for r in ok:
        for x in r['inconclusive']:
            key = f"{r['harness']}: {x}"[:200]
            incl[key] = incl.get(key, 0) + 1
    for r in bad:
        key = f"{r['harness']} {r['picks']}: {r['failed'][:160]}"
        incl[key] = incl.get(key, 0) + 1
    if unfinished:
        incl[f'{unfinished} of {njobs} harness instances not finished'] = 1
    fns = sorted({f for r in ok for f in r['functions']})
    samples = []
    for r in ok[:8]:
        samples.append(f"{r['harness']} {r['picks']}: {r['paths']} paths, "
                       f"{r['discharged']}/{r['obligations']} obligations; "
                       + '; '.join(r['samples'][:3]))
    import symx.meta as meta
    bounds, outside = meta.bounds(prop)
    cov = dict(
        states=tot('paths'),
        transitions=tot('decisions'),
        traces_validated_against_impl=tot('witnesses'),
        samples=samples or ['none'],
        harness_instances=njobs,
        obligations=tot('obligations'),
        obligations_discharged=tot('discharged'),
        discharged_with_equal_normal_forms=tot('trivial'),
        discharged_within_tolerance=tot('tolerance'),
        obligations_decided_on_slices_only=tot('partial'),
        inconclusive=[f'{k} (x{n})' for k, n in sorted(incl.items())][:40],
        inconclusive_total=sum(incl.values()),
        solver_queries=st('queries'),
        solver_seconds=round(st('solver_s'), 2),
        solver_sat=st('sat'), solver_unsat=st('unsat'),
        solver_unknown=st('unknown'),
        witness_mismatches=tot('witness_bad'),
        functions_encoded=fns,
        bounds=bounds,
        outside_bounds=outside,
    )
    vio = []
    path = None
    if viol is not None:
        d = os.path.join(BASE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{prop}.json')
        with open(path, 'w') as f:
            json.dump(viol, f, indent=1, default=str)
        vio = [dict(replay=path, obligation=viol['obligation'],
                    harness=viol['harness'])]
    ev = dict(property=prop, tier=tier,
              seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level='model_checking', coverage=cov,
              wall_s=round(time.time() - t0, 2),
              assumptions=meta.ASSUMPTIONS, violations=len(vio))
    os.makedirs(os.path.join(BASE, 'evidence'), exist_ok=True)
    with open(os.path.join(BASE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {njobs} instances, {tot('paths')} paths, "
          f"{tot('discharged')}/{tot('obligations')} obligations discharged "
          f"({tot('partial')} on slices), {sum(incl.values())} inconclusive, "
          f"{st('queries')} queries, solver {st('solver_s'):.1f}s, "
          f"wall {time.time() - t0:.1f}s")
    for k, n in sorted(incl.items())[:20]:
        print(f'INCONCLUSIVE {k} (x{n})')
    for k, d in kfs:
        print(f'KNOWN-FINDING: property={prop} {d}')
    if viol is not None:
        print(f"  {viol['harness']} {viol['picks']} {viol['obligation']} "
              f"{viol['detail'][:300]} inputs={viol['inputs']}")
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if tot('discharged') == 0:
        print('nothing was decided')
        return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--serve', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.serve:
        return serve()
    if a.replay:
        return do_replay(a.replay)
    budget = a.budget or (420 if a.tier == 'quick' else 820)
    return run_property(a.property, a.tier, budget, a.v, a.only)


if __name__ == '__main__':
    sys.exit(main())
