"""Runs the check of every planted change (or of the ids given) against it in a scratch clone
and merges what caught what into tools/catch.json."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(d for d in os.listdir(os.path.join(HERE, 'seeded')) if os.path.isdir(os.path.join(HERE, 'seeded', d)))


def one(i):
    s = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(os.path.join(s, 'meta.json')))['property']
    d = tempfile.mkdtemp(prefix='catch-')
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    try:
        if subprocess.run(['git', '-C', d, 'apply', os.path.join(s, 'patch.diff')]).returncode:
            return i, prop, None, 'does not apply'
        r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d), timeout=900)
        v = [l for l in r.stdout.splitlines() if l.startswith('  ')]
        return i, prop, r.returncode, v[0].strip()[:160] if v else r.stdout[-300:]
    finally:
        shutil.rmtree(d)


res = {}
with ThreadPoolExecutor(int(os.environ.get("CATCH_JOBS", "3"))) as ex:
    for i, prop, rc, why in ex.map(one, ids):
        res[i] = {'property': prop, 'exit': rc, 'first': why}
        print('%-24s %s exit %s %s' % (i, prop, rc, why), flush=True)
print('%d of %d caught' % (sum(r['exit'] == 1 for r in res.values()), len(res)))
p = os.path.join(HERE, 'tools', 'catch.json')
old = json.load(open(p)) if os.path.exists(p) else {}
old.update(res)
json.dump({k: old[k] for k in sorted(old) if os.path.isdir(os.path.join(HERE, 'seeded', k))}, open(p, 'w'), indent=1)
