"""Threads (C30): programs of the other parts run side by side on the real code under
schedules of MCPar.tla, switching between lines of the library.  As a machine the library
is then the product of one machine per thread: what each thread saw is judged by the
machine of the part it works with."""
import importlib
import json
import os
import random
import sys
import threading
import time

from canon import NONE, V, vbytes, vint, vstr
import vlib

TRACE = TRACE_CFG = ''
PROPS = ['C30']
ASSUMPTIONS = {'C30': ['threads are switched between lines of the library and of the bitcoin package, not inside the C code either calls']}
FAMS = {'io': 'fam_io', 'uint': 'fam_uint', 'num': 'fam_num', 'key': 'fam_key', 'curve': 'fam_curve', 'sign': 'fam_sign', 'merkle': 'fam_merkle'}
PARTS, USES = 2, 2


def FRESH(prop):
    return True


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    return [dict(module='MCPar', workers=1, cfg='''CONSTANTS Threads = %d
 Parts = 2
 Uses = 2
 EmitEvery = %d
INIT Init
NEXT Next
INVARIANTS Isolated Note Emit
POSTCONDITION Refuted
''' % c) for c in ([(2, 1), (3, 9)] if t else [(2, 1), (3, 31)])]


# ------------------------------------------------------------- programs

def signing(rng):
    """keys, signatures and their verification, all ways to call them"""
    fs = importlib.import_module('fam_sign')
    keys = [fs.privkey(rng) for _ in range(8)]
    qs = [fs.pmul(d) for d in keys]
    forms = [fs.key_forms(rng, q) for q in qs]
    out = []
    for _ in range(80):
        p, nk, made = [fs.step('Reset')], 0, []
        for _ in range(rng.choice((1, 1, 2, 3, 4))):
            i = rng.randrange(8)
            m = fs.message(rng)
            c = rng.random()
            if c < 0.25:
                p.append(fs.step('NewKey', [vbytes(keys[i].to_bytes(32, 'big'))]))
                nk += 1
            elif c < 0.65 or not made:
                p.append(fs.step(rng.choice(('Sign', 'Sign', 'SignInst')), [vstr(m.hex()), vstr('%064x' % keys[i])]))
                made.append((i, m))
            elif c < 0.7:
                p.append(fs.step('Default'))
            if made and rng.random() < 0.7:
                j = rng.randrange(len(made))
                i, m = made[j]
                f = rng.choice(fs.msg_forms(rng, m))
                k = fs.key(rng.randrange(1, nk + 1), rng.choice(('33', 'pt'))) if nk and rng.random() < 0.2 else rng.choice(forms[i] + forms[i][:1] * 2)
                p.append(fs.step(rng.choice(('Verify', 'Verify', 'VerifyInst')), [f[0], fs.sig(j + 1), k, vint(f[1])]))
        if len(p) > 1:
            out.append(p)
    return out


def encryption(rng):
    fk = importlib.import_module('fam_key')
    out = []
    for _ in range(12):
        k = fk.privkey(rng)
        pw = rng.choice(('a', 'pass', '\u00e9', 'TestingOneTwoThree'))
        out.append([fk.step('Reset'), fk.step('NewKey', '', 0, [vbytes(k)]), fk.step('ExportNEP2', '', 1, [vstr(pw)]),
                    fk.step('FromNEP2', '', 0, [fk.ref(1), vstr(pw if rng.random() < 0.7 else pw + '!')])])
    return out


def pools(rng):
    out = {k: [] for k in FAMS}
    skip = {'S2A', 'A2S', 'Foreign', 'Restart', 'Read2000256List', 'Write2000256List', 'ReadHashes', 'random_key'}
    for k, props in (('io', 'C01 C02 C03 C04 C05 C06'), ('uint', 'C08 C09 C10'), ('num', 'C11 C12 C13 C14'), ('key', 'C15 C16 C18 C27'),
                     ('curve', 'C21 C22 C23 C28'), ('merkle', 'C24 C25')):
        m = importlib.import_module(FAMS[k])
        for p in props.split():
            got = []
            for prog in m.programs(p, 'quick', random.Random(rng.random())):
                if {s['op'] for s in prog} & skip or len(json.dumps(prog)) > (4000 if p == 'C28' else 12000):
                    continue
                if k == 'merkle' and len(prog[0].get('hs') or []) > 20:
                    continue
                got.append(prog[:14])
            rng.shuffle(got)
            out[k] += got[:300]
    out['key'] += encryption(rng)
    out['sign'] = signing(rng)
    for k in FAMS:
        if not out[k]:
            raise vlib.Machinery('no programs for threads of ' + k)
    return out


def named(rng, k):
    """short work of k threads on one and the same named curve, with operands of their own"""
    fc = importlib.import_module('fam_curve')
    nm = rng.choice(('secp256r1', 'secp256k1', 'secp256k1'))
    c = fc.NAMED[nm]
    ops = [rng.choice(('PMul', 'PMul', 'PAdd', 'PSub', 'PNeg', 'POrder', 'Encode', 'Decode', 'OnCurve')) for _ in range(rng.choice((1, 1, 2)))]
    out = []
    for _ in range(k):
        P, Q = fc.rpoint(rng, c), fc.rpoint(rng, c)
        p = [fc.env(nm), fc.mk(P), fc.mk(Q)]
        for op in ops:
            if op == 'PMul':
                p.append(fc.step('PMul', 1, [fc.O(rng.choice((1, 2))), vint(rng.choice((3, 5, 6, 7, 11, 13, 27, rng.randrange(2, 300))))]))
            elif op in ('PAdd', 'PSub'):
                p.append(fc.step(op, 1, [fc.O(1), fc.O(2)]))
            elif op == 'POrder':
                p.append(fc.step(rng.choice(('PLt', 'PLe', 'PGt', 'PGe', 'PEq', 'PNe')), 1, [fc.O(1), fc.O(2)]))
            elif op == 'Encode':
                p.append(fc.step('Encode', 1, [fc.O(1), vint(rng.randrange(2))]))
            elif op == 'Decode':
                e = rng.choice((fc.comp, fc.unc))(P)
                p.append(fc.step('DecodeHex', 1, [vstr(e.hex())]))
            else:
                p.append(fc.step(op, 1, [fc.O(1)]))
        out.append(p)
    return out


MIX = ['sign', 'sign', 'key', 'key', 'io', 'io', 'uint', 'num', 'curve', 'merkle']


def expand(prop, tier, progs, rng):
    pool = pools(rng)
    at = {f: {} for f in FAMS}                     # operation -> programs that perform it
    for f in FAMS:
        for q in pool[f]:
            for n, s in enumerate(q):
                at[f].setdefault(s['op'], []).append((q, n))
    turn = {f: rng.sample(sorted(at[f]), len(at[f])) for f in FAMS}
    t = tier == 'thorough'
    out = []
    rng.shuffle(progs)
    for i in range(1500 if t else 320):
        k = 2 if rng.random() < 0.8 else 3
        f = MIX[i % len(MIX)]
        turn[f].append(turn[f].pop(0))
        fams, ps, x = [], [], rng.random()
        for j in range(k):
            if j and x < 0.2:                     # the very same work
                fams.append(f)
                ps.append(ps[0])
            elif j == 0 or x < 0.8:               # the same operation
                fams.append(f)
                q, n = rng.choice(at[f][turn[f][0]])
                ps.append(q[:n + 1 + (0 if rng.random() < 0.7 else rng.randrange(4))])
            else:
                fams.append(rng.choice(MIX))
                ps.append(rng.choice(pool[fams[-1]])[:rng.choice((3, 5, 8, 14))])
        scheds = [s for s in progs[i % 50::50] if max(s) == k][:8 if t else 3]
        out.append([{'op': 'Threads', 'fams': fams, 'progs': ps, 'scheds': scheds, 'one': 150 if t else 36, 'two': 120 if t else 24, 'ms': 20000 if t else 2600, 'seed': rng.getrandbits(32),
                     'other': rng.random() < 0.6, 'fine': rng.random() < 0.2}])
    for i in range(300 if t else 48):
        k = 2 if i % 4 else 3
        out.append([{'op': 'Threads', 'fams': ['curve'] * k, 'progs': named(rng, k), 'scheds': [s for s in progs[i % 50::50] if max(s) == k][:8 if t else 3],
                     'one': 150 if t else 24, 'two': 120 if t else 16, 'ms': 20000 if t else 2000, 'seed': rng.getrandbits(32), 'other': rng.random() < 0.3, 'fine': rng.random() < 0.2}])
    return out


def programs(prop, tier, rng):
    return []


# ------------------------------------------------------------- execution

def preload():
    import pkgutil
    import neocore
    for m in pkgutil.walk_packages(neocore.__path__, 'neocore.'):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    import hashlib
    import ecdsa
    k = ecdsa.SigningKey.from_secret_exponent(5, ecdsa.NIST256p, hashlib.sha256)     # the tables that package makes at first use
    k.get_verifying_key().verify(k.sign(b'a'), b'a')
    import neoitems                            # noqa: F401
    import neoalias_a                          # noqa: F401
    import neoalias_b                          # noqa: F401
    for m in FAMS.values():
        importlib.import_module(m)


END = 1 << 60
TOOL = 4


class Turns:
    """lets one thread run at a time and switches between lines of the library"""

    def __init__(self, n, turns, fine, places=None):
        import bitcoin
        import neocore
        self.dirs = (os.path.dirname(neocore.__file__) + os.sep, os.path.dirname(bitcoin.__file__) + os.sep)
        self.ids = {}
        self.turns, self.fine, self.places = list(turns), fine, places
        self.mutex = threading.Lock()
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.cur, self.left, self.ticks, self.turn = None, 0, 0, 0

    def advance(self):
        """(with the mutex) the next thread to run"""
        while self.turns:
            t, lines = self.turns.pop(0)
            if t in self.alive:
                self.cur, self.left = t, lines
                break
        else:
            if not self.alive:
                self.cur = None
                return
            self.cur, self.left = min(self.alive), END
        self.sem[self.cur].release()

    def tick(self, me):
        with self.mutex:
            self.ticks += 1
            if self.cur == me:
                self.left -= 1
                if self.left > 0:
                    return
                self.advance()
        self.wait(me)

    def wait(self, me):
        while True:
            self.sem[me].acquire()
            with self.mutex:
                if self.cur == me:
                    return

    def finish(self, me):
        with self.mutex:
            self.alive.discard(me)
            if self.cur == me:
                self.advance()

    def stuck(self):
        """the running thread waits for another one: let another one run"""
        with self.mutex:
            rest = sorted(self.alive - {self.cur})
            if rest:
                self.turn += 1
                self.cur, self.left = rest[self.turn % len(rest)], 200
                self.sem[self.cur].release()

    # every line (with fine, every instruction) of the library calls tick
    def enter(self, code, offset):
        f = code.co_filename
        if f.startswith(self.dirs) and code.co_name != '<module>':
            e = sys.monitoring.events
            sys.monitoring.set_local_events(TOOL, code, e.LINE | (e.INSTRUCTION if self.fine and 'bitcoin' not in f else 0))
        return sys.monitoring.DISABLE

    def at(self, code, where):
        me = self.ids.get(threading.get_ident())
        if me is not None:
            if self.places is not None:
                self.places.append((code, where))
            self.tick(me)

    def watch(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'threads')
        m.register_callback(TOOL, m.events.PY_START, self.enter)
        m.register_callback(TOOL, m.events.LINE, self.at)
        m.register_callback(TOOL, m.events.INSTRUCTION, self.at)
        m.set_events(TOOL, m.events.PY_START)


def part(fam, prog):
    m = importlib.import_module(FAMS[fam])
    return m.segment(prog, [])[0] if fam == 'sign' else m.execute(prog)


def plain(fn, limit=10.0):
    try:
        return fn(), None
    except BaseException as e:
        return None, type(e).__name__


def side_by_side(fams, progs, turns, fine, limit=600, places=None, enough=1 << 60):
    """what each thread recorded, or why they did not end: nothing happens any more ('dead'), many
    times as many lines as they need one after the other ('spins'), or it only takes long ('slow')"""
    n = len(fams)
    sched = Turns(n, turns, fine, places)
    res = [None] * n

    def body(i):
        sched.wait(i)
        sched.ids[threading.get_ident()] = i
        try:
            res[i] = part(fams[i], progs[i])
        except Exception as e:
            res[i] = '%s: %s' % (type(e).__name__, e)
        finally:
            del sched.ids[threading.get_ident()]
            sched.finish(i)
    sched.watch()
    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in ths:
        t.start()
    with sched.mutex:
        sched.advance()
    end, seen, since, last = time.time() + limit, -1, time.time(), time.time()
    while any(t.is_alive() for t in ths):
        next(t for t in ths if t.is_alive()).join(0.02)
        if sched.ticks != seen:
            seen, since = sched.ticks, time.time()
            last = since
            if seen > enough:
                return 'spins'
        elif time.time() - since > 0.4:
            sched.stuck()
            since = time.time()
        if time.time() - last > 40:
            return 'dead'
        if time.time() > end:
            return 'slow'
    return res


def forked(fn):
    """fn's result, computed by a copy of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def points(fam, prog, fine):
    """where this work can be interrupted: its number of lines and, for every place in the
    code it passes, when it does so first, last and some time"""
    places = []
    if isinstance(side_by_side([fam], [prog], [], fine, 8, places), str):
        return None
    at = {}
    for i, p in enumerate(places):
        at.setdefault(p, []).append(i + 1)
    return len(places), [[v[0] for v in at.values()], [x for v in at.values() for x in (v[-1], v[len(v) // 2])]]


def schedules(p, pts, rng):
    n = len(pts)
    ms = 12 + sum(x[0] * 0.008 for x in pts) + sum({'Verify': 25, 'VerifyInst': 25, 'ExportNEP2': 120, 'FromNEP2': 120}.get(s['op'], 0) for q in p['progs'] for s in q)
    share = min(1.0, p['ms'] / ms / (n * p['one'] + p['two'] + len(p['scheds'])))
    one, two = max(3, int(share * p['one'])), max(4, int(share * p['two']))

    def pick(i, k):
        first, more = pts[i][1]
        if len(first) <= k:
            return sorted(set(first + rng.sample(more, min(len(more), k - len(first)))))
        return sorted(rng.sample(first, k))
    for i in range(n):                             # one preemption
        for x in pick(i, one):
            rest = [j for j in range(n) if j != i]
            rng.shuffle(rest)
            yield [(i, x)] + [(j, END) for j in rest]
    for _ in range(two):                      # two
        i, j = rng.sample(range(n), 2)
        x, y = (rng.choice(rng.choice(pts[t][1]) or [1]) for t in (i, j))
        yield [(i, x), (j, y), (i, END), (j, END)]
    for s in p['scheds']:                          # those of the model: a thread's first steps (setting
        seen, turns = {}, []                       # registers) are a few lines each, the others share the rest
        for t in s:
            k = seen[t] = seen.get(t, 0) + 1
            lines = rng.choice((1, 1, 2, 3, 5, 8)) if k <= PARTS and rng.random() < 0.8 else 1 + int(pts[t - 1][0] * rng.uniform(0.02, 1.3) / USES)
            if turns and turns[-1][0] == t - 1:
                turns[-1][1] += lines
            else:
                turns.append([t - 1, lines])
        yield turns


def execute(program):
    import bitcoin
    vlib.call = plain
    p = program[0]
    n = len(p['fams'])
    if p['other']:
        bitcoin.change_curve(*importlib.import_module('fam_sign').CURVES[0])
    pts = [forked(lambda: points(p['fams'][i], p['progs'][i], p['fine'])) for i in range(n)]
    if None in pts:                                # takes too long alone
        return []
    rng = random.Random(p['seed'])
    seen, tried = {}, 0
    enough = 100 * sum(x[0] for x in pts) + 1000000
    for turns in schedules(p, pts, rng):
        res = forked(lambda: side_by_side(p['fams'], p['progs'], turns, p['fine'], enough=enough))
        tried += 1
        if res == 'slow':
            break
        if res is None:
            raise RuntimeError('no answer from %s' % turns)
        if isinstance(res, str):
            return [{'op': 'Threads', 'turns': turns, 'r': V('timeout'), 'why': res}]
        for i, r in enumerate(res):
            if isinstance(r, str):
                raise RuntimeError('%s in thread %d of %s' % (r, i, turns))
            seen.setdefault((i, json.dumps(r)), (turns, r))
    out = [{'op': 'Threads', 'lines': [x[0] for x in pts], 'schedules': tried, 'r': NONE}]
    for k, ((i, _), (turns, r)) in enumerate(sorted(seen.items(), key=lambda x: x[0][0])[:12 * n]):
        out += [{'op': 'E', 'th': k + 1, 'f': p['fams'][i], 'e': e, 'r': {'k': 'none'}, 'turns': turns, 'w': e.get('w', 0)} for e in r]
    return out


def corrupt(events, rng):
    ths = sorted({e['th'] for e in events[1:]})
    if not ths:
        return None
    t = rng.choice(ths)
    mine = [e for e in events[1:] if e['th'] == t]
    m = importlib.import_module(FAMS[mine[0]['f']])
    c = m.corrupt([e['e'] for e in mine], rng)
    if not c:
        return None
    return [events[0]] + [{'op': 'E', 'th': t, 'f': mine[0]['f'], 'e': e, 'r': {'k': 'none'}, 'w': e.get('w', 0)} for e in c]


def judge(traces, tmp, real):
    """each thread's events by the machine of its part; recorded findings of the parts are
    reported under the properties of the parts"""
    rejects, tr, st = [], 0, 0
    for fam in FAMS:
        m = importlib.import_module(FAMS[fam])
        subs, where, n = [], [], 0
        for i, t in enumerate(traces):
            for th in sorted({e['th'] for e in t[1:] if e['f'] == fam}):
                js = [j for j, e in enumerate(t) if j and e['th'] == th]
                subs.append([t[j]['e'] for j in js])
                where.append((i, js))
                n += i < real
        if subs:
            r, a, b = vlib.judge(m.TRACE, m.TRACE_CFG, subs, tmp, real=n)
            rejects += [(where[k][0], where[k][1][j], why) for k, j, why in r if not why.startswith('known:') or where[k][0] >= real]
            tr, st = tr + a, st + b
    rejects += [(i, 0, 'threads block one another') for i, t in enumerate(traces) if t and t[0]['r']['k'] == 'timeout']
    return sorted(rejects), tr, st
