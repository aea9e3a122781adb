"""Merkle trees (C24, C25): programs for NeoMerkle.tla and their execution with the
real MerkleTree."""
import copy

from canon import NONE, V, canon, vbytes, vlist
import vlib

TRACE = 'TraceMerkle'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C24', 'C25']


def mc(lo, hi, trims, dup=False, emit=1, workers=1):
    return dict(module='MCMerkle', workers=workers, cfg='''CONSTANTS MinLeaves = %d
 MaxLeaves = %d
 Trims = %d
 Dup = %s
 EmitEvery = %d
INIT Init
NEXT Next
INVARIANTS KeptClosed Laws Emit
PROPERTY RootFixed
''' % (lo, hi, trims, 'TRUE' if dup else 'FALSE', emit))


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    if prop == 'C24':
        return [mc(1, 24 if t else 6, 0, dup=False), mc(1, 6 if not t else 9, 0, dup=True)] if not t else \
            [mc(1, 6, 0), mc(1, 9, 0, dup=True)]
    return [mc(1, 8, 1), mc(2, 5, 2, emit=2), mc(2, 4, 3, emit=11)] + \
        ([mc(9, 11, 1, workers=4, emit=2), mc(5, 7, 2, emit=23, workers=4)] if t else [])


def step(op, t=0, refs=(), flags=()):
    return {'op': op, 't': t, 'refs': list(refs), 'flags': list(flags)}


def hashes_step(rng, n):
    """n hash objects, some equal"""
    hs = []
    for _ in range(n):
        c = rng.random()
        if hs and c < 0.12:
            h = list(rng.choice(hs))
        elif hs and c < 0.25:
            h = list(rng.choice(hs))
            h[rng.randrange(32)] ^= 1 << rng.randrange(8)
        elif c < 0.35:
            h = [rng.choice((0, 255))] * 32
        else:
            h = [rng.getrandbits(8) for _ in range(32)]
        hs.append(h)
    s = step('Hashes', n)
    s['hs'] = hs
    return s


def flags_for(rng, n):
    c = rng.random()
    if c < 0.15:
        f = [0] * n
    elif c < 0.5:                       # few flags
        f = [0] * n
        for _ in range(rng.choice((1, 1, 2, 3))):
            f[rng.randrange(n)] = rng.choice((1, 1, 17, 128, 255))
    elif c < 0.65:
        f = [1] * n
        f[rng.randrange(n)] = 0
    elif c < 0.8:                       # one half
        h = n // 2
        f = [0] * h + [1] * (n - h) if rng.random() < 0.5 else [1] * h + [0] * (n - h)
    else:
        f = [rng.choice((0, 0, 1, 255)) for _ in range(n)]
    c = rng.random()
    if c < 0.25:
        while f and f[-1] == 0:
            f.pop()
    elif c < 0.4:
        f = f[:rng.randrange(n + 1)]
    elif c < 0.5:
        f += [0] * rng.randrange(1, 5)
    return f


def programs(prop, tier, rng):
    t = tier == 'thorough'
    out = []
    if prop == 'C24':
        out.append([step('Hashes', 1), step('Build'), step('ComputeRoot')])
        for n in list(range(1, 36 if not t else 140)) + [47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257] + ([300, 511, 512, 513, 1000, 1023, 1024, 1025] if t else [300]):
            refs = list(range(1, n + 1))
            out.append([hashes_step(rng, n), step('ComputeRoot', 0, refs), step('Build', 0, refs), step('Leaves', 1), step('ComputeRoot', 0, refs)])
        for n in [rng.randrange(301, 1200), rng.randrange(1501, 2048), 2049, rng.randrange(2050, 4096), rng.randrange(4098, 6000)] + ([4095, 4097, 8193, 10001, 16385, 20011] if t else []):
            refs = list(range(1, n + 1))
            out.append([hashes_step(rng, n), step('ComputeRoot', 0, refs)] + ([step('Build', 0, refs)] if n < 2500 else []))
        for _ in range(2000 if t else 220):
            m = rng.randrange(1, 9)
            p = [hashes_step(rng, m)]
            k = 0
            for _ in range(rng.randrange(2, 7)):
                c = rng.random()
                refs = [rng.randrange(1, m + 1) for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 13)))]
                if c < 0.4:
                    p.append(step('Build', 0, refs))
                    k += bool(refs)
                elif c < 0.75:
                    p.append(step('ComputeRoot', 0, refs))
                elif k:
                    p.append(step('Leaves', rng.randrange(1, k + 1)))
            out.append(p)
    else:
        for n in list(range(1, 40 if not t else 100)) + [64, 65]:
            for _ in range(6 if t else 3):
                refs = list(range(1, n + 1))
                p = [hashes_step(rng, n), step('Build', 0, refs)]
                for _ in range(rng.choice((1, 2, 2, 3))):
                    f = flags_for(rng, n)
                    p.append(step('Trim', 1, flags=f))
                    if rng.random() < 0.4:
                        p.append(step('Trim', 1, flags=f))
                    if rng.random() < 0.5:
                        p.append(step('Leaves', 1))
                out.append(p)
            # each single flag
            if n <= 20:
                for i in range(n):
                    refs = list(range(1, n + 1))
                    out.append([hashes_step(rng, n), step('Build', 0, refs), step('Trim', 1, flags=[0] * i + [1]), step('Leaves', 1)])
        for n in (127, 128, 129, 200, 255, 256, 257, 300) + ((400, 511, 512, 513, 600) if t else ()):      # large trees
            refs = list(range(1, n + 1))
            p = [hashes_step(rng, n), step('Build', 0, refs)]
            for _ in range(2):
                f = [0] * n
                for i in rng.sample(range(n), 3) + [rng.choice((n - 1, n - 2, 128 % n, 127 % n, 255 % n, 256 % n))]:
                    f[i] = rng.choice((1, 128, 255))
                p.append(step('Trim', 1, flags=f))
                p.append(step('Leaves', 1))
            out.append(p)
            f = [1] * n
            for i in rng.sample(range(n), 4):
                f[i] = 0
            out.append([hashes_step(rng, n), step('Build', 0, refs), step('Trim', 1, flags=f), step('Leaves', 1)])
        for _ in range(1500 if t else 150):       # several trees over shared hash objects
            m = rng.randrange(2, 8)
            p = [hashes_step(rng, m)]
            k = []
            for _ in range(rng.randrange(3, 9)):
                if not k or rng.random() < 0.35:
                    n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8))
                    p.append(step('Build', 0, [rng.randrange(1, m + 1) for _ in range(n)]))
                    k.append(n)
                else:
                    j = rng.randrange(len(k))
                    p.append(step('Trim', j + 1, flags=flags_for(rng, k[j])) if rng.random() < 0.8 else step('Leaves', j + 1))
            out.append(p)
    return out


def dump(node, parent):
    has = node.LeftChild is not None or node.RightChild is not None
    c = [canon(node.Hash)]
    same = 0
    if has:
        if node.LeftChild is None or node.RightChild is None:
            return V('broken')
        same = int(node.LeftChild is node.RightChild)
        c.append(dump(node.LeftChild, node))
        if not same:
            c.append(dump(node.RightChild, node))
    return V('node', [int(bool(node.IsLeaf())), int(bool(node.IsRoot())), int(node.Parent is parent), same], c)


def execute(program):
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.UInt256 import UInt256
    hs, trees, events = [], [], []
    for n, p in enumerate(program):
        op = p['op']
        if op == 'Hashes':
            data = p.get('hs') or [[i] * 32 for i in range(1, p['t'] + 1)]
            hs = [UInt256(data=bytes(d)) for d in data]
            events.append({'op': op, 'a': [vbytes(d) for d in data], 'r': NONE, 'w': 400 * len(data)})
            continue
        lst = [hs[i - 1] for i in p['refs']]
        orig = list(lst)
        flags = bytes(p['flags'])
        if n % 3 == 1:
            flags = bytearray(flags)
        elif n % 3 == 2:
            flags = list(flags)

        def run():
            if op == 'Build':
                trees.append(MerkleTree(lst))
                return None
            if op == 'ComputeRoot':
                return MerkleTree.ComputeRoot(lst)
            if op == 'Leaves':
                return list(trees[p['t'] - 1].ToHashArray())
            if op == 'Trim':
                trees[p['t'] - 1].Trim(flags)
                return None
        r, e = vlib.call(run)
        ev = {'op': op, 't': p['t'], 'refs': p['refs'], 'flags': p['flags'],
              'r': V('timeout') if e == 'TIMEOUT' else V('err') if e else canon(r),
              'hs': [list(h.Data) for h in hs],
              'after': [next((i for i, o in zip(p['refs'], orig) if o is x), 0) for x in lst]}
        ev['trees'] = [V('tree', [t.Depth], [dump(t.Root, None)]) for t in trees]
        ev['w'] = 600 * len(hs)
        events.append(ev)
        if e == 'TIMEOUT' or (e and op == 'Build' and p['refs']):
            break
    return events


def nodes(o):
    out = [o]
    for c in o['c'][1:]:
        if c['k'] == 'node':
            out += nodes(c)
    return out


def corrupt(events, rng):
    idx = list(range(1, len(events)))
    if not idx:
        return None
    i = rng.choice(idx)
    ev = copy.deepcopy(events[i])
    k = rng.random()
    if k < 0.15 and ev['hs']:
        ev['hs'][0][3] ^= 1
    elif k < 0.75 and ev['trees']:
        t = rng.choice(ev['trees'])
        ns = nodes(t['c'][0])
        nd = rng.choice(ns)
        c = rng.random()
        if c < 0.15:
            t['v'][0] += 1
        elif c < 0.4:
            nd['c'][0]['v'][5] ^= 16
        elif c < 0.55:
            nd['v'][2] = 0
        elif c < 0.7:
            nd['v'][0] ^= 1
        elif len(nd['c']) > 1:
            nd['c'] = nd['c'][:1]
        else:
            nd['c'].append(copy.deepcopy(nd))
    elif ev['r']['k'] == 'uint':
        ev['r']['v'][-1] ^= 1
    elif ev['r']['k'] == 'err':
        ev['r'] = NONE
    elif ev['r']['k'] == 'list':
        ev['r']['c'] = ev['r']['c'][1:] if rng.random() < 0.5 else ev['r']['c'] + ev['r']['c'][:1]
    else:
        ev['r'] = V('err')
    return events[:i] + [ev]
