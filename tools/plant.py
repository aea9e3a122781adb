"""Makes seeded/<id>/ from a list of planted changes and confirms each: it applies, lies on
lines of the original repository, the stable tests pass, the demonstration tells it apart.
usage: plant.py SPECS.py [ids...]; SPECS.py defines BUGS = [dict(id, prop, file, edits=[(old, new)], needs, breaks, demo)]"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def tests(d):
    out = os.path.join(d, '.junit.xml')
    env = dict(ENV, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONPATH=d, PYTHONHASHSEED='0')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '-o', 'junit_family=xunit2', '--junitxml=' + out, 'tests'],
                   cwd=d, env=env, capture_output=True, timeout=600)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(out).iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    os.remove(out)
    return STABLE - ok


def original_lines(d, f):
    """the removed lines of the change all come from the base commit"""
    r = subprocess.run(['git', '-C', d, 'diff', '-U0', f], capture_output=True, text=True).stdout
    bad = []
    for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', r, re.M):
        a, n = int(m.group(1)), int(m.group(2) or 1)
        for i in range(a, a + n):
            b = subprocess.run(['git', '-C', d, 'blame', '-l', '-s', '-L', '%d,%d' % (i, i), 'HEAD', '--', f], capture_output=True, text=True).stdout
            if b.lstrip('^').split()[0][:12] != BASE[:12]:
                bad.append(i)
    return bad


def one(b):
    out = os.path.join(HERE, 'seeded', b['id'])
    d = tempfile.mkdtemp(prefix='plant-')
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %d matches in %s: %r' % (b['id'], s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
        new = [i for f in {e[0] for e in b['edits']} for i in original_lines(d, f)]
        miss = tests(d)
        if miss:
            return '%s: tests fail: %s' % (b['id'], sorted(miss)[:2])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'demo.sh'), 'w').write(b.get('sh', DEMO))
        if 'demo' in b:
            open(os.path.join(out, 'demo.py'), 'w').write(b['demo'].strip() + '\n')
        open(os.path.join(out, 'patch.diff'), 'w').write(patch)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        rc1 = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
        subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
        rc0 = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
        if rc0.returncode or not rc1.returncode:
            shutil.rmtree(out)
            return '%s: demo exits %d unchanged, %d changed: %s' % (b['id'], rc0.returncode, rc1.returncode, (rc0.stderr + rc1.stderr)[-600:])
        return '%s: ok%s' % (b['id'], ' BUT repaired lines %s' % new if new else '')
    finally:
        shutil.rmtree(d)


specs = runpy.run_path(sys.argv[1])['BUGS']
want = sys.argv[2:]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, [b for b in specs if not want or b['id'] in want]):
        print(r, flush=True)
