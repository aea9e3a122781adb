"""Each repair taken back in a scratch worktree: the checks must report it again."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jobs = {}
for l in open(os.path.join(HERE, 'known_findings.txt')):
    m = re.match(r'fixed: property=(C\d\d) (\w+) ', l)
    if m:
        jobs.setdefault(m.group(2), []).append(m.group(1))


def one(job):
    c, props = job
    d = '/tmp/rv-' + c
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', d, 'HEAD'], check=True)
    out = []
    try:
        r = subprocess.run(['git', '-C', d, '-c', 'user.email=a', '-c', 'user.name=a', 'revert', '--no-commit', c], capture_output=True, text=True)
        if r.returncode:
            return '%s does not revert alone: %s' % (c, r.stderr.strip().splitlines()[:1])
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d), timeout=900)
            v = [l for l in r.stdout.splitlines() if l.startswith('  ')]
            out.append('%s %s exit %d %s' % (c, p, r.returncode, v[0][:150] if v else r.stdout[-300:]))
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', d])
    return '\n'.join(out)


with ThreadPoolExecutor(4) as ex:
    for o in ex.map(one, sorted((c, p) for c, p in jobs.items() if len(sys.argv) < 2 or c in sys.argv[1:])):
        print(o, flush=True)
