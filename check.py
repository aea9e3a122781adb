#!/usr/bin/env python3
"""Decides one property: check.py Cnn [--replay FILE]

model checking of the specification -> programs -> the real code -> recorded
traces -> judged by TLC with the operators of the same specification."""
import hashlib
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
FAMILIES = ['fam_io', 'fam_uint', 'fam_num', 'fam_key', 'fam_curve', 'fam_sign', 'fam_merkle', 'fam_cli', 'fam_random', 'fam_par', 'fam_frame']


def reexec():
    """run on the interpreter of the code under test, without touching its caches"""
    if os.environ.get('VERIF_INNER') != '1':
        tmp = tempfile.mkdtemp(prefix='verif-')
        os.environ.update(VERIF_INNER='1', VERIF_TMP=tmp, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'),
                          PYTHONPATH=REPO + os.pathsep + os.path.join(HERE, 'harness'), PYTHONHASHSEED='0', PYTHONWARNINGS='ignore')
        py = PY if os.path.exists(PY) else sys.executable
        import subprocess
        try:
            rc = subprocess.call([py, os.path.abspath(__file__)] + sys.argv[1:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(rc)


def family(prop):
    for f in FAMILIES:
        if os.path.exists(os.path.join(HERE, 'harness', f + '.py')):
            m = importlib.import_module(f)
            if prop in m.PROPS:
                return m
    raise SystemExit('no check for ' + prop)


def main():
    reexec()
    import vlib
    try:
        sys.exit(run(vlib))
    except vlib.Machinery as e:
        print('CHECK-ERROR %s' % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)


def brief(x, n=600):
    t = json.dumps(x, separators=(',', ':'))
    return t if len(t) <= n else t[:n] + '...'


def run(vlib):
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tmp = os.environ['VERIF_TMP']
    import neocore
    if not os.path.abspath(neocore.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise vlib.Machinery('neocore imported from ' + neocore.__file__)
    vlib.ensure_classes()
    fam = family(prop)
    rng = random.Random('%s-%d' % (prop, seed))
    trace_mod, trace_cfg = fam.TRACE, fam.TRACE_CFG
    if hasattr(fam, 'trace'):
        trace_mod, trace_cfg = fam.trace(prop)

    if '--replay' in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        progs, mct, mcs, njobs = [rep['program']], 0, 0, 0
    else:
        # 1. the specification itself
        mct = mcs = 0
        progs = []
        from concurrent.futures import ThreadPoolExecutor
        jobs = fam.mc_jobs(prop, tier)
        njobs = len(jobs)
        with ThreadPoolExecutor(4) as ex:
            for t, s, p in ex.map(lambda j: vlib.model_check(j, tmp), jobs):
                mct += t
                mcs += s
                progs += p
        nmc = len(progs)
        if hasattr(fam, 'expand'):
            progs = fam.expand(prop, tier, progs, rng)
        # 2. boundary and random programs
        progs += fam.programs(prop, tier, rng)
    t1 = time.time()

    # 3. the real code
    if hasattr(fam, 'preload'):
        fam.preload()
    traces = vlib.execute_all(fam.execute, progs, fresh=getattr(fam, 'FRESH', lambda p: False)(prop))
    t2 = time.time()

    # 4. the recorded executions against the specification
    #    corrupted steps ride along: the specification must reject each of them
    bad = []
    if '--replay' not in sys.argv:
        order = [i for i, t in enumerate(traces) if len(t) > 1]
        rng.shuffle(order)
        for i in order[:400]:
            try:
                c = fam.corrupt(traces[i], rng)
            except Exception:
                c = None
            if c:
                bad.append(c)
            if len(bad) >= 24:
                break
    crashed = [(i, 0, 'state cannot be observed: ' + t[0]['crash']) for i, t in enumerate(traces) if t and 'crash' in t[0]]
    todo = [[] if t and 'crash' in t[0] else t for t in traces] + bad
    if hasattr(fam, 'judge'):
        rejects, trt, trs = fam.judge(todo, tmp, len(traces))
    else:
        rejects, trt, trs = vlib.judge(trace_mod, trace_cfg, todo, tmp, real=len(traces))
    t3 = time.time()
    caught = {i for i, j, why in rejects if i >= len(traces) and j == len(bad[i - len(traces)]) - 1}
    rejects = crashed + [r for r in rejects if r[0] < len(traces)]

    known = vlib.known_findings()
    seen, viol = {}, []
    for i, j, why in rejects:
        if why.startswith('known:') and (prop, why[6:]) in known:
            seen.setdefault(why[6:], (i, j))
        else:
            viol.append((i, j, why))
    for key in sorted(seen):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, known[(prop, key)]))

    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    shown = []
    done = set()
    for i, j, why in viol:
        if why in done or len(shown) >= 5:
            continue
        done.add(why)
        path = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha256(json.dumps(progs[i]).encode()).hexdigest()[:12]))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'clause': why, 'event': j, 'step': traces[i][j],
                       'program': progs[i], 'trace': traces[i]}, f)
        shown.append((path, why, traces[i][j]))

    nev = sum(len(t) for t in traces)
    samples = []
    for i in sorted({0, len(progs) // 2, len(progs) - 1} & set(range(len(progs)))):
        samples.append({'program': brief(progs[i]), 'last_event': brief(traces[i][-1:] if traces[i] else [])})
    if '--replay' not in sys.argv:
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': mcs + trs, 'transitions': mct + trt, 'model_states': mcs, 'model_transitions': mct,
                           'model_runs': njobs, 'programs_from_model': nmc,
                           'traces_validated_against_impl': len([t for t in traces if t]), 'events_validated': nev,
                           'corrupted_steps_rejected': len(caught), 'corrupted_steps': len(bad), 'samples': samples,
                           'known_findings_seen': sorted(seen)},
              'assumptions': getattr(fam, 'ASSUMPTIONS', {}).get(prop, []) + [
                  'TLC evaluates the specification; Big.tla and Prims.tla operators are evaluated by java/Big.java and java/Prims.java'],
              'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d model states, %d programs, %d events judged, %d/%d corrupted steps rejected; model %.1fs run %.1fs judge %.1fs'
          % (prop, mcs, len(progs), nev, len(caught), len(bad), t1 - t0, t2 - t1, t3 - t2))
    for path, why, evt in shown:
        print('  %s: %s' % (why, brief(evt, 400)))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, shown[0][0]))
        return 1
    if '--replay' not in sys.argv and (not bad or len(caught) < len(bad)):
        miss = [b for k, b in enumerate(bad) if len(traces) + k not in caught]
        raise vlib.Machinery('corrupted steps were accepted: ' + brief(miss[:2], 3000))
    return 0


if __name__ == '__main__':
    main()
