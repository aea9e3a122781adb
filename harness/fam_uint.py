"""Hash values (C07-C10): histories for the heap machine NeoUInt.tla and their
execution with the real UIntBase, UInt160 and UInt256."""
import copy
import io

from canon import NONE, V, canon, uncanon, vbool, vbytes, vint, vlist, vstr
from clothed import clothed
import vlib

TRACE = 'TraceUInt'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C07', 'C08', 'C09', 'C10']


def mc(ops, size=2, alpha='{0, 1, 255}', depth=3, objs=2, emit=1, workers=1):
    return dict(module='MCUInt', workers=workers, cfg='''CONSTANTS Size = %d
 Alpha = %s
 Depth = %d
 MaxObjs = %d
 EmitEvery = %d
 Ops = {%s}
INIT Init
NEXT Next
INVARIANTS SizeFixed TotalOrder Lexicographic HashAgrees ParseInverts Emit
PROPERTY OnlyDeserialize
''' % (size, alpha, depth, objs, emit, ', '.join('"%s"' % o for o in ops)))


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    if prop == 'C07':
        return [mc(['new', 'fmt'], depth=2), mc(['new', 'fmt'], size=3, alpha='{0, 200}', depth=3, emit=7)]
    if prop == 'C08':
        return [mc(['fmt'], depth=2), mc(['fmt', 'deser'], alpha='{9, 175}', depth=3, emit=11)]
    if prop == 'C09':
        return [mc(['cmp'], depth=3), mc(['sort'], alpha='{0, 1, 255}', depth=4, objs=3, emit=3),
                mc(['cmp', 'deser'], alpha='{0, 255}', depth=4, emit=11)] + \
            ([mc(['cmp'], size=3, alpha='{0, 1, 255}', depth=3, workers=4), mc(['sort'], size=2, alpha='{0, 1}', depth=5, objs=4, workers=4)] if t else [])
    return [mc(['buf', 'deser'], depth=4, emit=41), mc(['buf', 'deser', 'fmt'], size=1, alpha='{1, 128}', depth=4, emit=17),
            mc(['new', 'deser', 'cmp', 'fmt'], size=1, alpha='{3, 200}', depth=4, emit=29), mc(['buf', 'new', 'deser', 'use'], size=1, alpha='{3, 200}', depth=4, emit=17)] + \
        ([mc(['buf', 'deser'], alpha='{1, 255}', depth=5, emit=97, workers=4),
          mc(['buf', 'deser', 'cmp', 'fmt', 'sort'], size=1, alpha='{3, 200}', depth=5, emit=397, workers=4)] if t else [])


def step(op, t=0, x='', a=()):
    return {'op': op, 't': t, 'x': x, 'a': list(a)}


def O(i):
    return V('obj', [i])


def B(i):
    return V('buf', [i])


HEX = b'0123456789abcdefABCDEF'


def hexish(b):
    return len(b) > 0 and len(b) % 2 == 0 and all(c in HEX for c in b)


def rdata(rng, n, base=None):
    while True:
        if base is not None and rng.random() < 0.6:       # close to another value
            b = bytearray(base)
            for _ in range(rng.choice((0, 1, 1, 1, 2))):
                i = rng.randrange(n)
                b[i] = rng.choice((b[i] ^ 1, b[i] ^ 128, 0, 255, (b[i] + 1) & 255, rng.getrandbits(8)))
            b = bytes(b)
        else:
            b = rng.choice((bytes(rng.getrandbits(8) for _ in range(n)), bytes(n), b'\xff' * n,
                            bytes([rng.getrandbits(8)]) + bytes(n - 1), bytes(n - 1) + bytes([rng.getrandbits(8)]),
                            bytes(rng.choice((0, 0, 127, 128, 255)) for _ in range(n)),
                            bytes(rng.randrange(48, 123) for _ in range(n))))
        if not hexish(b):
            return b


CLS = {'UInt160': 20, 'UInt256': 32}
WRONG = [vstr('a' * 20), vstr('a' * 32), vint(0), vint(20), vlist([vint(1)] * 20), vlist([vint(0)] * 32), vbool(True), vbytes(b''), vstr('')]


def new(rng, cls=None, n=None, base=None, bufs=()):
    cls = cls or rng.choice(('UInt160', 'UInt160', 'UInt256', 'UIntBase'))
    n = CLS.get(cls) or n or rng.choice((20, 32, 1, 2, 3, 4, 5, 8, 64))
    pre = [vint(n)] if cls == 'UIntBase' else []
    return step('New', 0, cls, pre + [vbytes(rdata(rng, n, base))]), n


def textual(rng, prop):
    cls = rng.choice(list(CLS))
    n = CLS[cls]
    prog = []
    d = rdata(rng, n)
    t = d[::-1].hex()
    t = ''.join(rng.choice((c, c.upper())) for c in t) if rng.random() < 0.5 else rng.choice((t, t.upper()))
    if rng.random() < 0.5:
        t = '0x' + t
    prog.append(step('Parse', 0, cls, [vstr(t)]))
    for op in ('ToString', 'ToString2', 'To0xString', 'ToBytes', 'str', 'ToArray'):
        prog.append(step(op, 1))
    prog.append(step('Parse', 0, cls, [vstr('0x' + d[::-1].hex())]))
    prog.append(step('Eq', 1, '', [O(2)]))
    # malformed neighbours
    i = rng.randrange(len(t) + 1)
    bad = [t[:-1], t[1:], t + '0', '0' + t, t[:i] + rng.choice('gGxX -_+.:\n\tл０é') + t[i + 1:], t[:-2] + rng.choice(('  ', '\n\n', ' f')), '',
           '0x', '0X' + t, 'x' + t, t + ' ', ' ' + t, '0x0x' + t[4:], t[:-2], t + 'ab', '0x' + t[2:] if not t.startswith('0x') else t[2:] + '0x',
           d[::-1].hex()[:-2] + '\u0661\u0662', t.replace('0', 'O', 1), '-' + t[1:], t[:2] + '_' + t[3:]]
    for b in rng.sample(bad, 6) + [clothed(rng, t) for _ in range(3)]:
        prog.append(step('Parse', 0, cls, [vstr(b)]))
    prog.append(step('Parse', 0, 'UInt256' if cls == 'UInt160' else 'UInt160', [vstr(t)]))
    return prog


def comparison(rng):
    n = rng.choice((20, 20, 32, 32, 4, 1, 2, 8))
    prog, k = [], rng.choice((2, 3, 4, 5))
    base = rdata(rng, n)
    for i in range(k):
        cls = rng.choice([c for c in CLS if CLS[c] == n] + ['UIntBase'])
        s, _ = new(rng, cls, n, base)
        prog.append(s)
    for _ in range(8):
        i, j = rng.randrange(k) + 1, rng.randrange(k) + 1
        if rng.random() < 0.12:                                   # one of them is read anew
            prog.append(step('Deserialize', i, '', [vbytes(rdata(rng, n, base))]))
        prog.append(step(rng.choice(('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'CompareTo')), i, '', [O(j)]))
    if rng.random() < 0.4:
        s, m = new(rng)
        prog.append(s)
        for op in rng.sample(('Lt', 'Le', 'Gt', 'Ge', 'CompareTo', 'Eq', 'Ne'), 3):
            a, b = rng.choice(((1, k + 1), (k + 1, 1)))
            prog.append(step(op, a, '', [O(b)]))
    for op in rng.sample(('Eq', 'Ne', 'REq', 'RNe', 'Lt', 'Le', 'Gt', 'Ge', 'CompareTo'), 3):
        v = rng.choice((NONE, vint(0), vint(5), vstr('00'), vbytes(base), vlist([]), V('float', [0, 0, 2000], [vstr('0.0')])))
        if op in ('Eq', 'Ne', 'REq', 'RNe') or v['k'] != 'none' or True:
            prog.append(step(op, rng.randrange(k) + 1, '', [v]))
    refs = [O(rng.randrange(k) + 1) for _ in range(rng.randrange(2, 7))]
    prog.append(step('Sort', 0, '', refs))
    prog.append(step('SetSize', 0, '', refs))
    prog.append(step('Lookup', rng.randrange(k) + 1, '', refs))
    prog.append(step('hash', 1))
    prog.append(step('GetHashCode', k))
    return prog


def history(rng, length):
    prog, sizes, bufs = [], [], []
    texts = []                    # read more than once
    for _ in range(length):
        c = rng.random()
        if c < 0.12 or not sizes:
            cls = rng.choice(('UInt160', 'UInt256', 'UIntBase'))
            n = CLS.get(cls) or rng.choice((1, 3, 4, 5, 20))
            pre = [vint(n)] if cls == 'UIntBase' else []
            k = rng.random()
            if k < 0.5:
                d = rdata(rng, n)
                prog.append(step('Buf', 0, '', [vbytes(d)]))
                bufs.append(n)
                prog.append(step('New', 0, cls, pre + [B(len(bufs))]))
            elif k < 0.57:
                prog.append(step('New', 0, cls, pre))
            elif k < 0.75 and cls != 'UIntBase':
                old = [x for x in texts if len(x) in (2 * n, 2 * n + 2)]
                texts.append(rng.choice(old) if old and rng.random() < 0.6 else rng.choice(('', '0x')) + rdata(rng, n).hex())
                prog.append(step('Parse', 0, cls, [vstr(texts[-1])]))
            elif k < 0.8:
                prog.append(step('ReadNew', 0, cls, [vbytes(rdata(rng, n + 2))]) if cls != 'UIntBase' else step('New', 0, cls, pre))
            else:
                prog.append(step('New', 0, cls, pre + [vbytes(rdata(rng, n))]))
            sizes.append(n)
        elif c < 0.3 and bufs:
            i = rng.randrange(len(bufs))
            n = bufs[i]
            prog.append(step('SetBuf', 0, '', [B(i + 1), vbytes(rdata(rng, n) if rng.random() < 0.7 else rdata(rng, rng.randrange(1, n + 3)))]))
        elif c < 0.55:
            i = rng.randrange(len(sizes))
            n = sizes[i]
            m = rng.choice((n, n, n, n + 1, n + 7, n - 1, 0, rng.randrange(0, n + 1)))
            prog.append(step('Deserialize', i + 1, '', [vbytes(rdata(rng, m) if m else b'')]))
        elif c < 0.7:
            prog.append(step(rng.choice(('ToString', 'ToString2', 'To0xString', 'ToBytes', 'ToArray', 'ScribbleArray', 'Size', 'hash',
                                         'GetHashCode', 'Serialize', 'str')), rng.randrange(len(sizes)) + 1))
        elif c < 0.93:
            i, j = rng.randrange(len(sizes)), rng.randrange(len(sizes))
            prog.append(step(rng.choice(('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'CompareTo')), i + 1, '', [O(j + 1)]))
        elif c < 0.97:
            i = rng.randrange(len(sizes))
            like = [O(j + 1) for j in range(len(sizes)) if sizes[j] == sizes[i]]
            prog.append(rng.choice((step('Alone', i + 1), step('Address', i + 1), step('WriteList', i + 1), step('Tree', 0, '', [rng.choice(like) for _ in range(rng.choice((1, 2, 3, 5)))]),
                                    step('Root', 0, '', [rng.choice(like) for _ in range(rng.choice((1, 2, 3, 5)))]))))
        else:
            refs = [O(rng.randrange(len(sizes)) + 1) for _ in range(4)]
            prog.append(rng.choice((step('SetSize', 0, '', refs), step('Lookup', rng.randrange(len(sizes)) + 1, '', refs), step('Sort', 0, '', refs))))
    return prog


def writing(rng):
    prog = []
    k = 0
    for _ in range(rng.randrange(1, 4)):
        s, n = new(rng)
        prog.append(s)
        k += 1
        prog.append(step('ToArray', k))
        for op in ('Serialize', 'Write'):
            if op == 'Serialize' or s['x'] != 'UIntBase':
                prog.append(step(op, k, s['x']))
        for c in CLS:
            prog.append(step('TypedWrite', 0, c, [O(k)]))
        if rng.random() < 0.5:                                    # the same object, read anew, written again
            prog.append(step('Deserialize', k, '', [vbytes(rdata(rng, n + rng.choice((0, 0, 0, 3))))]))
            for op in rng.sample(('Serialize', 'ToArray', 'Size', 'ToString'), 3):
                prog.append(step(op, k))
            for c in CLS:
                prog.append(step('TypedWrite', 0, c, [O(k)]))
            if rng.random() < 0.3:
                prog += [step('Deserialize', k, '', [vbytes(rdata(rng, n - 1) if n > 1 else b'')]), step('Serialize', k)]
    cls = rng.choice(list(CLS))
    n = CLS[cls]
    prog.append(step('New', 0, cls))
    k += 1
    prog.append(step('Serialize', k))
    d = rdata(rng, n)
    prog.append(step('ReadNew', 0, cls, [vbytes(d + bytes(rng.randrange(3)))]))
    k += 1
    prog.append(step('TypedWrite', 0, cls, [O(k)]))
    for m in rng.sample((0, 1, n - 1, n + 1, 2 * n, 52 - n, 40, 64), 3):
        prog.append(step('New', 0, cls, [vbytes(b'z' * m)]))
    for w in rng.sample(WRONG, 4):
        prog.append(step('New', 0, cls, [w]))
        prog.append(step('TypedWrite', 0, cls, [w]))
    prog.append(step('TypedWrite', 0, cls, [rng.choice((NONE, vbytes(d), vstr(d.hex())))]))
    return prog


def programs(prop, tier, rng):
    k = 6 if tier == 'thorough' else 1
    out = []
    if prop == 'C07':
        out += [writing(rng) for _ in range(200 * k)]
        for n, cls in ((20, 'UInt160'), (32, 'UInt256')):          # every byte value at every position
            for b in range(256):
                d = bytes([b]) * n
                if hexish(d):
                    d = bytes([b]) * (n - 1) + b'\x00'
                prog = [step('New', 0, cls, [vbytes(d)]), step('Serialize', 1), step('TypedWrite', 0, cls, [O(1)]), step('ReadNew', 0, cls, [vbytes(d)]),
                        step('Eq', 1, '', [O(2)])]
                out.append(prog)
            d = bytes(rng.choice(HEX) for _ in range(n))           # known finding
            out.append([step('New', 0, cls, [vbytes(d)]), step('Serialize', 1), step('TypedWrite', 0, cls, [O(1)])])
    elif prop == 'C08':
        out += [textual(rng, prop) for _ in range(400 * k)]
        for cls, n in CLS.items():
            for m in range(0, 2 * n + 6):
                for p in ('', '0x'):
                    out.append([step('Parse', 0, cls, [vstr(p + 'a' * m)])])
    elif prop == 'C09':
        out += [comparison(rng) for _ in range(350 * k)]
        for n, cls in ((20, 'UInt160'), (32, 'UInt256')):          # pairs differing in one byte, every position
            for i in range(n):
                a = bytearray(rdata(rng, n))
                b = bytearray(a)
                prog = [step('New', 0, cls, [vbytes(a)])]
                for k, x in enumerate((1, 2, 4, 8, 16, 32, 64, 128, 255)):
                    b[i] = a[i] ^ x
                    prog.append(step('New', 0, cls, [vbytes(b)]))
                    for op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'CompareTo') if x in (1, 128, 255) else rng.sample(('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'CompareTo'), 2):
                        prog += [step(op, 1, '', [O(k + 2)]), step(op, k + 2, '', [O(1)])]
                out.append(prog)
    else:
        out += [history(rng, rng.randrange(8, 30)) for _ in range(300 * k)]
        for cls in CLS:                                         # the same bytes or text again and again, each value its own
            n = CLS[cls]
            for _ in range(4):
                d = rdata(rng, n)
                makers = [step('Parse', 0, cls, [vstr(d.hex())]), step('Parse', 0, cls, [vstr('0x' + d.hex())]), step('New', 0, cls, [vbytes(d[::-1])]), step('ReadNew', 0, cls, [vbytes(d[::-1])])]
                p, k = [], 0
                for _ in range(5):
                    m = rng.choice(makers)
                    p += [m, m]
                    k += 2
                    p += [step('Alone', k), step('Deserialize', rng.randrange(1, k + 1), '', [vbytes(rdata(rng, n))]), step('Alone', rng.randrange(1, k + 1))]
                out.append(p)
        for cls in ('UInt160', 'UInt256', 'UIntBase'):          # values born empty, altered and re-read
            pre = [vint(20)] if cls == 'UIntBase' else []
            n = CLS.get(cls, 20)
            born = [step('New', 0, cls, pre), step('New', 0, cls, pre), step('New', 0, 'UIntBase', [vint(n)]), step('Parse', 0, cls, [vstr('00' * n)]) if pre == [] else step('New', 0, cls, pre)]
            out.append(born + [step('Alone', i) for i in (1, 2, 3, 4)] + [step('Deserialize', 1, '', [vbytes(rdata(rng, n))]), step('New', 0, cls, pre), step('Alone', 5),
                       step('Deserialize', 2, '', [vbytes(rdata(rng, n - 1))]), step('Alone', 1), step('Eq', 2, '', [O(5)])])
    return out


# ---------------------------------------------------------------- execution

def execute(prog):
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.UIntBase import UIntBase
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.MerkleTree import MerkleTree
    classes = {'UInt160': UInt160, 'UInt256': UInt256, 'UIntBase': UIntBase}
    objs, bufs, events = [], [], []

    def observe(o):
        tag = 20 if type(o) is UInt160 else 32 if type(o) is UInt256 else 0
        try:
            return {'v': [tag] + list(o.Data), 'h': canon(hash(o)), 's': [ord(c) for c in o.ToString()]}
        except Exception:
            return {'v': [tag], 'h': V('err'), 's': []}

    def log(p, r):
        events.append({'op': p['op'], 't': p['t'], 'x': p['x'], 'a': p['a'], 'r': r, 'objs': [observe(o) for o in objs]})

    def arg(a):
        if a['k'] == 'obj':
            return objs[a['v'][0] - 1]
        if a['k'] == 'buf':
            return bufs[a['v'][0] - 1]
        return uncanon(a)

    log(step('Reset'), NONE)
    for p in prog:
        op, t, x = p['op'], p['t'], p['x']

        def run():
            a = [arg(i) for i in p['a']]
            o = objs[t - 1] if t else None
            if op == 'Buf':
                bufs.append(bytearray(a[0]))
            elif op == 'SetBuf':
                a[0][:] = a[1]
            elif op == 'New':
                objs.append(classes[x](*a))
            elif op == 'Parse':
                objs.append(classes[x].ParseString(a[0]))
            elif op == 'ReadNew':
                st = io.BytesIO(a[0])
                objs.append(getattr(BinaryReader(st), 'Read' + x)())
                return st.tell()
            elif op == 'Deserialize':
                st = io.BytesIO(a[0])
                o.Deserialize(BinaryReader(st))
                return st.tell()
            elif op == 'Serialize':
                st = io.BytesIO()
                o.Serialize(BinaryWriter(st))
                return st.getvalue()
            elif op == 'Write':
                st = io.BytesIO()
                getattr(BinaryWriter(st), 'Write' + x)(o)
                return st.getvalue()
            elif op == 'TypedWrite':
                st = io.BytesIO()
                getattr(BinaryWriter(st), 'Write' + x)(a[0])
                return st.getvalue()
            elif op in ('ToString', 'ToString2', 'To0xString', 'ToBytes', 'ToArray', 'GetHashCode', 'CompareTo'):
                return getattr(o, op)(*a)
            elif op == 'ScribbleArray':          # the caller changes the array it was given
                r = o.ToArray()
                v = bytes(r)
                if isinstance(r, bytearray):
                    r[:] = bytes((b + 1) & 255 for b in r)
                return v
            elif op == 'Alone':
                was = o.Data
                if not isinstance(was, bytearray):
                    return [bytes(u.Data) for u in objs if u is not o]
                keep = bytes(was)
                was[:] = bytes(b ^ 255 for b in was)
                try:
                    return [bytes(u.Data) for u in objs if u is not o]
                finally:
                    was[:] = keep
            elif op == 'Address':
                Crypto.ToAddress(o)
            elif op == 'WriteList':
                BinaryWriter(io.BytesIO()).WriteSerializableArray([o, o])
            elif op == 'Tree':
                MerkleTree(a).ToHashArray()
            elif op == 'Root':
                MerkleTree.ComputeRoot(a)
            elif op == 'Size':
                return o.Size
            elif op == 'hash':
                return hash(o)
            elif op == 'str':
                return str(o)
            elif op == 'Eq':
                return o == a[0]
            elif op == 'Ne':
                return o != a[0]
            elif op == 'REq':
                return a[0] == o
            elif op == 'RNe':
                return a[0] != o
            elif op == 'Lt':
                return o < a[0]
            elif op == 'Le':
                return o <= a[0]
            elif op == 'Gt':
                return o > a[0]
            elif op == 'Ge':
                return o >= a[0]
            elif op == 'Sort':
                return [bytes(u.Data) for u in sorted(a)]
            elif op == 'SetSize':
                return len(set(a))
            elif op == 'Lookup':
                return {u: i for i, u in enumerate(a)}.get(o)
            return None
        r, e = vlib.call(run)
        log(p, V('timeout') if e == 'TIMEOUT' else V('err') if e else canon(r))
        if e == 'TIMEOUT':
            break
    return events


def corrupt(events, rng):
    """the whole history up to a step, whose outcome is changed"""
    idx = [i for i in range(1, len(events)) if events[i]['objs'] and events[i]['op'] not in ('Sort', 'Address', 'WriteList', 'Tree', 'Root')]
    if not idx:
        return None
    i = rng.choice(idx)
    ev = copy.deepcopy(events[i])
    r = ev['r']
    k = rng.random()
    if k < 0.3:
        o = rng.choice(ev['objs'])
        o['v'][-1] ^= 1
    elif k < 0.45:
        rng.choice(ev['objs'])['h'] = vint(1 << 33)
    elif r['k'] == 'err':
        ev['r'] = NONE
    elif r['k'] in ('bool', 'int'):
        r['v'] = [0, 1] if r['v'] == [0] else [0]
    elif r['v']:
        r['v'][-1] ^= 3
    else:
        ev['r'] = vint(77)
    return events[:i] + [ev]
