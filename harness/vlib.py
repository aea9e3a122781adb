"""Shared machinery of the checks: TLC runs, execution of programs on the real
code in worker processes, trace validation, evidence, verdicts."""
import fcntl
import json
import logging
import multiprocessing
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
CLS = os.path.join(VERIF, 'build', 'cls')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


class Machinery(Exception):
    """the check itself failed; says nothing about the code"""


def ensure_classes():
    """compile java/*.java into build/cls unless that is up to date"""
    os.makedirs(CLS, exist_ok=True)
    srcs = [os.path.join(VERIF, 'java', f) for f in sorted(os.listdir(os.path.join(VERIF, 'java'))) if f.endswith('.java')]
    with open(os.path.join(VERIF, 'build', '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(CLS, '.stamp')
        key = '\n'.join(open(s).read() for s in srcs)
        if os.path.exists(stamp) and open(stamp).read() == key:
            return
        r = subprocess.run(['javac', '-nowarn', '-cp', TLA, '-d', CLS] + srcs, capture_output=True, text=True)
        if r.returncode:
            raise Machinery('javac failed: ' + r.stderr)
        with open(stamp, 'w') as f:
            f.write(key)


def run_tlc(module, cfg, tmp, env=None, workers=1, heap='2g', timeout=800, extra=()):
    """run TLC on spec/<module>.tla with the given configuration text; returns its output"""
    d = tempfile.mkdtemp(prefix=module + '-', dir=tmp)
    cfgp = os.path.join(d, module + '.cfg')
    with open(cfgp, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-cp', TLA + ':' + CLS, 'tlc2.TLC', '-deadlock', '-workers', str(workers),
           '-metadir', d, '-config', cfgp, '-noGenerateSpecTE'] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on ' + module)
    out = r.stdout + r.stderr
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out


def unquote(line):
    """a string printed by TLC's PrintT -> its text"""
    line = line.strip()
    if len(line) >= 2 and line[0] == '"' and line[-1] == '"':
        return line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
    return line


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def model_check(job, tmp):
    """job: dict(module, cfg, workers). TLC must find no error; returns (transitions, states, programs)"""
    rc, out = run_tlc(job['module'], job['cfg'], tmp, workers=job.get('workers', 2), heap=job.get('heap', '3g'),
                      env=job.get('env'), extra=job.get('extra', ()), timeout=job.get('timeout', 800))
    m = STATS.findall(out)
    if rc != 0 or not m:
        raise Machinery('the specification %s does not satisfy its own properties:\n%s' % (job['module'], '\n'.join(l for l in out.splitlines() if 'PROG' not in l[:8])[-3000:]))
    progs = []
    for line in out.splitlines():
        t = unquote(line)
        if t.startswith('PROG '):
            progs.append(json.loads(t[5:]))
    return int(m[-1][0]), int(m[-1][1]), progs


# ---------------------------------------------------------------- real code

class OpTimeout(BaseException):
    pass


def _alarm(*_):
    raise OpTimeout()


class deadline:
    """bounds one operation of the code under test"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def quiet_process(mem_gb=3):
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(5000)
    logging.disable(logging.CRITICAL)
    if mem_gb:
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)


def call(fn, limit=10.0):
    """run one operation; (result, None) or (None, exception name)"""
    try:
        with deadline(limit):
            return fn(), None
    except OpTimeout:
        return None, 'TIMEOUT'
    except SystemExit as e:
        return None, 'SystemExit'
    except BaseException as e:
        return None, type(e).__name__


MAX_TIMEOUTS = 12


def _exec(executor, prog):
    """an exception outside the operations themselves: what they left behind cannot be observed"""
    try:
        return executor(prog)
    except Exception as e:
        import traceback
        return [{'op': 'Unobservable', 'crash': ('%s: %s' % (type(e).__name__, e))[:300],
                 'at': traceback.format_exc()[-1500:], 'r': {'k': 'crash', 'v': [], 'c': []}}]


def _run_one(executor, prog, fresh):
    if not fresh:
        return _exec(executor, prog)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(_exec(executor, prog), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def _worker(executor, programs, order, nxt, touts, path, fresh):
    quiet_process()
    with open(path, 'w') as f:
        while True:
            with nxt.get_lock():
                k = nxt.value
                nxt.value += 1
            if k >= len(order):
                break
            i = order[k]
            if touts.value > MAX_TIMEOUTS:
                ev = []                      # enough evidence; the rest is not run
            else:
                ev = _run_one(executor, programs[i], fresh)
                n = sum(1 for e in ev if e['r']['k'] == 'timeout' and not e.get('quick'))
                if n:
                    with touts.get_lock():
                        touts.value += n
            f.write('%d %s\n' % (i, json.dumps(ev, separators=(',', ':'))))
    os._exit(0)


def execute_all(executor, programs, jobs=JOBS, fresh=False, timeout=600, tmp=None):
    """programs -> list of event lists, run in forked worker processes; with fresh
    every program runs in a process of its own that has executed nothing else"""
    out = [None] * len(programs)
    if not programs:
        return out
    tmp = tmp or os.environ['VERIF_TMP']
    ctx = multiprocessing.get_context('fork')
    nxt, touts = ctx.Value('i', 0), ctx.Value('i', 0)
    order = list(range(len(programs)))
    order.sort(key=lambda i: -len(programs[i]))
    procs = []
    sys.stdout.flush()
    for k in range(min(jobs, len(programs))):
        path = os.path.join(tmp, 'run%d-%d.json' % (os.getpid(), k))
        pr = ctx.Process(target=_worker, args=(executor, programs, order, nxt, touts, path, fresh))
        pr.start()
        procs.append((pr, path))
    end = time.time() + timeout
    for pr, path in procs:
        pr.join(max(1, end - time.time()))
    late = [pr for pr, _ in procs if pr.is_alive()]
    for pr in late:
        pr.kill()
        pr.join()
    for pr, path in procs:
        with open(path) as f:
            for line in f:
                if line.endswith('\n'):
                    i, ev = line.split(' ', 1)
                    out[int(i)] = json.loads(ev)
        os.remove(path)
    missing = [i for i, e in enumerate(out) if e is None]
    if missing:
        raise Machinery('%d programs were not executed%s, e.g. %s' % (
            len(missing), ' (timeout)' if late else ' (a worker died)', json.dumps(programs[missing[0]])[:1000]))
    return out


# ---------------------------------------------------------------- traces

def judge(module, cfg, traces, tmp, jobs=JOBS, heap='3g', timeout=800, real=None):
    """traces: list of event lists (each starts with an event that resets the state).
    Returns (rejects, transitions, states); rejects: list of (trace index, event index, clause)."""
    idx = [i for i, t in enumerate(traces) if t]
    if not idx:
        return [], 0, 0
    blobs = {i: ''.join(json.dumps(e, separators=(',', ':')) + '\n' for e in traces[i]) for i in idx}
    weight = {i: len(blobs[i]) + 400 * len(traces[i]) + sum(e.get('w', 0) for e in traces[i]) for i in idx}
    n = max(1, min(jobs, len(idx)))
    shards = [[] for _ in range(n)]
    load = [0] * n
    for i in sorted(idx, key=lambda i: -weight[i]):
        k = load.index(min(load))
        shards[k].append(i)
        load[k] += weight[i]

    def run(k):
        rej, skip = [], set()
        for _ in range(10):
            path = os.path.join(tmp, 'trace%d-%d.ndjson' % (k, random.Random(os.urandom(8)).getrandbits(40)))
            where = []
            with open(path, 'w') as f:
                for i in sorted(shards[k]):
                    if i not in skip:
                        f.write(blobs[i])
                        where += [(i, j) for j in range(len(traces[i]))]
            if not where:
                return rej, 0, 0
            rc, out = run_tlc(module, cfg, tmp, env={'TRACE': path}, heap=heap, timeout=timeout)
            os.remove(path)
            m = re.search(r'CONSUMED (\d+)', out)
            if rc == 0 and m and int(m.group(1)) == len(where):
                break
            # an observation outside the domain of the specification: the step it could not evaluate
            at = re.findall(r'^/\\ l = (\d+)$', out, re.M)
            if 'OutOfMemory' in out or 'StackOverflow' in out or not at or not 1 <= int(at[-1]) <= len(where):
                raise Machinery('TLC could not process the trace (%s):\n%s' % (module, out[-3000:]))
            i, j = where[int(at[-1]) - 1]
            rej.append((i, j, 'the observed outcome is not one the specification knows'))
            skip.add(i)
            if len([t for t in skip if t < (len(traces) if real is None else real)]) >= 2:
                return rej, 0, 0             # enough: these are violations already
        else:
            raise Machinery('TLC could not process the trace (%s):\n%s' % (module, out[-3000:]))
        for line in out.splitlines():
            t = unquote(line)
            if t.startswith('REJECT '):
                _, l, why = t.split(' ', 2)
                rej.append(where[int(l) - 1] + (why,))
        s = STATS.findall(out)[-1]
        return rej, int(s[0]), int(s[1])

    rejects, tr, st = [], 0, 0
    with ThreadPoolExecutor(n) as ex:
        for r, a, b in ex.map(run, range(n)):
            rejects += r
            tr += a
            st += b
    return sorted(rejects), tr, st


def known_findings():
    """committed list of recorded genuine defects: {(property, key): text}"""
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(C\d+) key=(\S+) (.*)', line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out
