"""Runs programs of key generations under the stand-in for the system's randomness
(c/rnd.c): a line of JSON in, a line of JSON out, every program in a process of its own."""
import ctypes
import json
import os
import random
import sys

from canon import V, canon
from fam_cli import wallet

import neocore.Cryptography.Helper as helper
from neocore.bin import cli
from neocore.KeyPair import KeyPair

shim = ctypes.CDLL(os.environ['LD_PRELOAD'])
shim.rnd_arm.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64, ctypes.c_int64, ctypes.c_int64]
shim.rnd_pos.restype = ctypes.c_uint64
T0 = 1700000000 * 10 ** 9
MOST = 1024          # bits of one generation that are turned over


def inside(fn):
    """fn() in a copy of this process"""
    a, b = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(a)
            with os.fdopen(b, 'w') as f:
                json.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(b)
    with os.fdopen(a) as f:
        t = f.read()
    os.waitpid(pid, 0)
    return json.loads(t)


def generate(x, world, flip=-1):
    """(what was returned, its key as text) with the stream at the world's position"""
    shim.rnd_arm(1, world['seed'], world['pos'], flip, world['now'])
    try:
        r = MAKE[x]()
    finally:
        pos = shim.rnd_pos()
        shim.rnd_arm(0, 0, 0, -1, 0)
    return r, pos


def text(r):
    if isinstance(r, dict):
        r = r.get('private_key')
    if isinstance(r, (bytes, bytearray)):
        return bytes(r).decode('latin-1')
    return str(r)


def apart(x, world, flip=-1):
    """the key a copy of this very process makes"""
    state = random.getstate()

    def one():
        random.setstate(state)      # a fork seeds it anew
        try:
            return text(generate(x, world, flip)[0])
        except Exception as e:
            return '!' + type(e).__name__
    return inside(one)


def step(p, world):
    """one generation: first the variants, in copies of this process, then the key itself"""
    x = p['x']
    again = apart(x, world)
    variants = []
    if p.get('flip'):
        state = random.getstate()
        n = inside(lambda: random.setstate(state) or generate(x, world)[1] - world['pos'])
        for k in range(min(8 * n, MOST)):
            variants.append(apart(x, world, 8 * world['pos'] + k))
    r, pos = generate(x, world)
    taken = 8 * (pos - world['pos'])
    world['pos'] = pos
    return {'x': x, 'r': wallet(r) if isinstance(r, dict) else canon(r), 'text': text(r), 'again': again, 'taken': taken, 'variants': variants,
            'w': 3000 * (x == 'wallet')}


def run(program, world):
    events = []
    for i, p in enumerate(program):
        op = p['op']
        ev = {'op': op, 'r': V('none')}
        if op == 'Reset':
            world = {'seed': p['seed'], 'pos': 0, 'now': T0}
            random.seed(p['seed'] & 0xffff)
        elif op == 'Seed':
            random.seed(7)
        elif op == 'Tick':
            world['now'] += p['n']
        elif op == 'Draw':
            shim.rnd_arm(1, world['seed'], world['pos'], -1, world['now'])
            os.urandom(p['n'])
            random.getrandbits(8)
            world['pos'] = shim.rnd_pos()
            shim.rnd_arm(0, 0, 0, -1, 0)
        elif op == 'Use':
            KeyPair(bytes(31) + b'\7').Export()
        elif op == 'Fork':
            return events + [ev] + inside(lambda: run(program[i + 1:], world))
        elif op == 'Gen':
            try:
                ev.update(step(p, world))
            except Exception as e:
                ev.update(x=p['x'], r=V('err'), text='', again='', taken=0, variants=[])
        events.append(ev)
    return events


def reference():
    import hashlib
    import time
    t = '%r %r %r %r' % (os.urandom(32), random.randrange(2 ** 256), time.time(), os.getpid())
    return hashlib.sha256(t.encode()).hexdigest()


MAKE = {'random_key': lambda: helper.random_key(), 'wallet': lambda: cli.create_wallet(), 'reference': reference}


def repeatable():
    """whatever enters the reference is under control here: its key comes out again from the same
    state, and each of the bits it takes decides"""
    ev = step({'x': 'reference', 'flip': True}, {'seed': 99, 'pos': 40, 'now': T0})
    return ev['again'] == ev['text'] and ev['taken'] == 256 and len(set(ev['variants']) - {ev['text']}) == 256


def main():
    if not repeatable():
        sys.exit('the reference generation is not repeatable')
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        p = json.loads(line)
        out.write(json.dumps(inside(lambda: run(p, None)), separators=(',', ':')) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
