"""Mutation testing of the checks.  mutate.py WORKDIR FILE...  (or 'all')

Programs of every property are made once, executed on the unchanged code, and then on
every mutant; only recorded executions that differ are judged.  A mutant nothing
distinguishes is run against the stable tests; those that pass them are listed."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = {
    'neocore/BigInteger.py': 'C13 C14', 'neocore/Fixed8.py': 'C12 C11 C01', 'neocore/KeyPair.py': 'C18 C16 C15 C20 C17', 'neocore/UIntBase.py': 'C10 C09 C08 C07 C05',
    'neocore/UInt160.py': 'C08 C10 C07', 'neocore/UInt256.py': 'C08 C10 C07', 'neocore/Utils.py': 'C15', 'neocore/Cryptography/Crypto.py': 'C27 C15 C19 C20 C18',
    'neocore/Cryptography/ECCurve.py': 'C22 C21 C23 C28 C18 C19', 'neocore/Cryptography/Helper.py': 'C27 C15 C18 C17 C29', 'neocore/Cryptography/MerkleTree.py': 'C24 C25',
    'neocore/IO/BinaryReader.py': 'C04 C05 C06 C01 C02 C03 C07 C21', 'neocore/IO/BinaryWriter.py': 'C04 C03 C06 C01 C02 C07 C21', 'neocore/IO/Mixins.py': 'C06', 'neocore/bin/cli.py': 'C26 C29'}
BUDGET = 12.0            # seconds of one process per property


def inner():
    """one process: mutate.py --run WORK PROPS OUT  with PYTHONPATH set"""
    sys.path.insert(0, os.path.join(HERE, 'harness'))
    sys.path.insert(0, HERE)
    import check
    import vlib
    work, props, out = sys.argv[2:5]
    os.environ['VERIF_TMP'] = tmp = tempfile.mkdtemp(prefix='mut-')
    res = {}
    try:
        for prop in props.split():
            fam = check.family(prop)
            base = os.path.join(work, prop + '.json')
            if not os.path.exists(base):              # make the programs and the reference
                rng = random.Random('%s-1' % prop)
                progs = []
                for j in fam.mc_jobs(prop, 'quick'):
                    progs += vlib.model_check(j, tmp)[2]
                if hasattr(fam, 'expand'):
                    progs = fam.expand(prop, 'quick', progs, rng)
                progs += fam.programs(prop, 'quick', rng)
                random.Random(5).shuffle(progs)
                if hasattr(fam, 'preload'):
                    fam.preload()
                n, t = 0, 0.0
                fresh = getattr(fam, 'FRESH', lambda p: False)(prop)
                while n < len(progs) and t < BUDGET:      # as many as the budget allows
                    t0 = time.time()
                    vlib.execute_all(fam.execute, progs[n:n + 20], jobs=1, fresh=fresh, tmp=tmp)
                    t += time.time() - t0
                    n += 20
                progs = progs[:n]
                a = vlib.execute_all(fam.execute, progs, jobs=1, fresh=fresh, tmp=tmp)
                b = vlib.execute_all(fam.execute, progs, jobs=1, fresh=fresh, tmp=tmp)
                json.dump({'progs': progs, 'sums': [h(x) if h(x) == h(y) else '' for x, y in zip(a, b)]}, open(base, 'w'))
                res[prop] = 'baseline of %d programs, %.1f s' % (len(progs), t)
                continue
            d = json.load(open(base))
            if hasattr(fam, 'preload'):
                fam.preload()
            fresh = getattr(fam, 'FRESH', lambda p: False)(prop)
            try:
                tr = vlib.execute_all(fam.execute, d['progs'], jobs=1, fresh=fresh, tmp=tmp, timeout=200)
            except Exception as e:
                res[prop] = 'DETECTED execution: %s' % str(e)[:80]
                break
            diff = [i for i, t in enumerate(tr) if d['sums'][i] != h(t) and d['sums'][i]]
            loose = [i for i in range(len(tr)) if not d['sums'][i]][:8]
            if not diff and not loose:
                res[prop] = 'same'
                continue
            if any(t and 'crash' in t[0] for i, t in enumerate(tr) if i in diff):
                res[prop] = 'DETECTED crash'
                break
            diff.sort(key=lambda i: len(tr[i]))
            tm, tc = fam.trace(prop) if hasattr(fam, 'trace') else (fam.TRACE, fam.TRACE_CFG)
            rej, _, _ = vlib.judge(tm, tc, [tr[i] for i in diff[:60] + loose], tmp, jobs=1)
            known = vlib.known_findings()
            rej = [r for r in rej if not (r[2].startswith('known:') and (prop, r[2][6:]) in known)]
            if rej:
                res[prop] = 'DETECTED ' + rej[0][2]
                break
            res[prop] = 'accepted %d differing' % len(diff) if diff else 'same'
    except BaseException as e:
        res['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        json.dump(res, open(out, 'w'))


def h(t):
    return hashlib.sha1(json.dumps(t, sort_keys=True).encode()).hexdigest()


def env(repo, tmp):
    return dict(os.environ, PYTHONPATH=repo + ':' + os.path.join(HERE, 'harness'), PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=tmp + '/pyc', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
                VERIF_INNER='1', VERIF_REPO=repo, VERIF_TMP=tmp, VERIF_SEED='1', VERIF_TIER='quick')


def run(work, repo, props, limit=900):
    fd, out = tempfile.mkstemp(dir=work, suffix='.out')
    os.close(fd)
    tmp = tempfile.mkdtemp(prefix='mutenv-')
    try:
        p = subprocess.Popen([PY, os.path.abspath(__file__), '--run', work, props, out], env=env(repo, tmp), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            return {'DETECTED': 'DETECTED timeout'}
        s = open(out).read()
        return json.loads(s) if s else {'error': 'no result'}
    finally:
        os.unlink(out)
        shutil.rmtree(tmp, ignore_errors=True)


def stable(repo):
    want = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
    w = tempfile.mkdtemp(prefix='mutt-')
    try:
        e = dict(env(repo, w), PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONPATH=repo)
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=repo, env=e, capture_output=True, text=True, timeout=400)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    import mutants
    from concurrent.futures import ThreadPoolExecutor
    work, files = sys.argv[1], sys.argv[2:]
    os.makedirs(work, exist_ok=True)
    every = 1
    if files[0].startswith('-'):
        every = int(files.pop(0)[1:])
    if files == ['all']:
        files = list(FILES)
    props = sorted({p for f in files for p in FILES[f].split()})
    with ThreadPoolExecutor(7) as ex:
        for p, r in zip(props, ex.map(lambda p: run(work, '/repo', p) if not os.path.exists(os.path.join(work, p + '.json')) else {}, props)):
            if r:
                print(p, r, flush=True)
    jobs = []
    for f in files:
        base, ms = mutants.mutants(open(os.path.join('/repo', f)).read())
        jobs += [(f, n, m) for n, m in enumerate(ms) if n % every == 0]
    log = open(os.path.join(work, 'log.jsonl'), 'a')

    def one(j):
        f, n, (line, what, text) = j
        d = tempfile.mkdtemp(prefix='mutrepo-')
        try:
            for x in os.listdir('/repo'):
                if x not in ('.git', 'docs', 'venv'):
                    (shutil.copytree if os.path.isdir('/repo/' + x) else shutil.copy)('/repo/' + x, os.path.join(d, x))
            with open(os.path.join(d, f), 'w') as o:
                o.write(text)
            r = run(work, d, FILES[f])
            det = next((p + ' ' + v for p, v in r.items() if v.startswith('DETECTED')), None)
            rec = {'file': f, 'n': n, 'line': line, 'what': what, 'det': det, 'res': r}
            if det is None:
                rec['tests'] = stable(d)
            return rec
        except Exception as e:
            return {'file': f, 'n': n, 'line': line, 'what': what, 'det': None, 'res': {'error': repr(e)}}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    c = {'detected': 0, 'tests only': 0, 'SURVIVED': 0}
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '7'))) as ex:
        for rec in ex.map(one, jobs):
            k = 'detected' if rec['det'] else 'tests only' if not rec.get('tests', True) else 'SURVIVED'
            c[k] += 1
            log.write(json.dumps(rec) + '\n')
            log.flush()
            if k != 'detected':
                print(k, rec['file'], rec['n'], 'line', rec['line'], rec['what'], rec['res'], flush=True)
    print(c)


if __name__ == '__main__':
    if sys.argv[1] == '--run':
        inner()
    else:
        main()
