"""Where generated keys come from (C29): programs for NeoRandom.tla and their execution
under a stand-in for the operating system's randomness, clock and process id."""
import copy
import fcntl
import json
import os
import random
import subprocess
import sys

from canon import V
import vlib

TRACE = 'TraceRandom'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C29']
ASSUMPTIONS = {'C29': ['the operating system serves getrandom, getentropy and /dev/urandom with unpredictable bits',
                       'a generator fed from elsewhere than these, the clock, the process id or the random module is not repeatable here and only its keys are judged']}
HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = os.path.join(vlib.VERIF, 'build', 'rnd.so')


def ensure_shim():
    src = os.path.join(vlib.VERIF, 'c', 'rnd.c')
    os.makedirs(os.path.dirname(SHIM), exist_ok=True)
    with open(os.path.join(vlib.VERIF, 'build', '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = open(src).read()
        if os.path.exists(SHIM) and os.path.exists(SHIM + '.src') and open(SHIM + '.src').read() == key:
            return
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-U_FORTIFY_SOURCE', '-o', SHIM, src, '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise vlib.Machinery('gcc failed: ' + r.stderr)
        with open(SHIM + '.src', 'w') as f:
            f.write(key)


def preload():
    ensure_shim()


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    return [dict(module='MCRandom', workers=1, cfg='''CONSTANTS W = %d
 Depth = %d
 EmitEvery = %d
INIT Init
NEXT Next
INVARIANTS FreshPasses Note Emit
POSTCONDITION Refuted
''' % c) for c in ([(2, 4, 1), (3, 3, 1), (2, 5, 7)] if t else [(2, 3, 1), (2, 4, 5), (3, 3, 100)])]


def gen(x, flip=False):
    return {'op': 'Gen', 'x': x, 'flip': flip}


def other(op, rng):
    return {'op': op, 'n': rng.choice((1, 1000, 10 ** 9)) if op == 'Tick' else rng.randrange(1, 70)}


def expand(prop, tier, progs, rng):
    """the last generation of each history is the one whose bits are turned over; for wallets
    in few of them, since each of the 256 variants builds a key pair"""
    out, wallets = [], 0
    rng.shuffle(progs)
    for h in progs:
        p = [{'op': 'Reset', 'seed': rng.getrandbits(63)}]
        for i, x in enumerate(h):
            if x in ('random_key', 'wallet'):
                last = i == len(h) - 1
                if last and x == 'wallet':
                    wallets += 1
                    last = wallets <= (300 if tier == 'thorough' else 40)
                p.append(gen(x, last))
            else:
                p.append(other(x, rng))
        out.append(p)
    return out


def programs(prop, tier, rng):
    t = tier == 'thorough'
    out = []
    for _ in range(8 if t else 3):
        for x in ('random_key', 'wallet'):
            out.append([{'op': 'Reset', 'seed': rng.getrandbits(63)}] + [gen(x) for _ in range(330)] + [{'op': 'Span'}])
    for _ in range(200 if t else 40):
        p = [{'op': 'Reset', 'seed': rng.getrandbits(63)}]
        for _ in range(rng.randrange(3, 12)):
            op = rng.choice(('Seed', 'Tick', 'Fork', 'Draw', 'Use', 'Gen', 'Gen', 'Gen', 'Gen'))
            p.append(gen('wallet' if rng.random() < 0.1 else 'random_key', rng.random() < 0.3) if op == 'Gen' else other(op, rng))
        out.append(p + [gen('random_key', True)])
    return out


SERVER = None


def server():
    global SERVER
    if SERVER is None or SERVER.poll() is not None:
        SERVER = subprocess.Popen([sys.executable, os.path.join(HERE, 'random_server.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=dict(os.environ, LD_PRELOAD=SHIM), text=True)
    return SERVER


def execute(program):
    global SERVER
    s = server()

    def ask():
        s.stdin.write(json.dumps(program) + '\n')
        s.stdin.flush()
        return s.stdout.readline()
    r, e = vlib.call(ask, 120.0)
    if e == 'TIMEOUT' or not r:
        s.kill()
        SERVER = None
        if e != 'TIMEOUT':
            raise vlib.Machinery('the server of key generations ended')
        return [{'op': 'Reset', 'r': V('none')}, {'op': 'Gen', 'x': 'random_key', 'r': V('timeout')}]
    return json.loads(r)


def corrupt(events, rng):
    idx = [i for i in range(1, len(events)) if events[i]['op'] == 'Gen']
    if not idx:
        return None
    i = rng.choice(idx)
    ev = copy.deepcopy(events[i])
    ev['again'] = ev['text']
    c = rng.random()
    if c < 0.2:
        ev['taken'] -= 8 if ev['taken'] == 256 else ev['taken'] - 255
    elif c < 0.5 and ev['variants']:
        for k in range(len(ev['variants']) - 255):
            ev['variants'][k] = ev['text']
    elif c < 0.7 and ev['x'] == 'random_key':
        ev['r']['v'] = ev['r']['v'][:-2]
    elif c < 0.85 and ev['x'] == 'wallet':
        ev['r']['c'][1]['v'][20] ^= 1
    else:
        j = next((j for j in idx if j < i and events[j]['x'] == ev['x']), None)
        if j is None:
            return None
        ev['r'] = events[j]['r']
    return events[:i] + [ev]
