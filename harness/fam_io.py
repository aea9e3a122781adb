"""Binary streams (C01-C06): programs for the specification NeoIO.tla and their
execution with the real BinaryWriter and BinaryReader."""
import io
import math
import struct

from canon import NONE, V, canon, fl, uncanon, vbool, vbytes, vint, vlist, vstr, z
import vlib

TRACE = 'TraceIO'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06']
CLASS = {'UInt160': 'neocore.UInt160.UInt160', 'UInt256': 'neocore.UInt256.UInt256', 'Item': 'neoitems.Item',
         'Bag': 'neoitems.Bag', 'Nil': 'neoitems.Nil'}
# other modules export the same classes under one another's names
ALIAS = {'UInt160': ('neoalias_a.Item', 'neoalias_b.UInt256'), 'UInt256': ('neoalias_a.UInt160', 'neoalias_b.Item'),
         'Item': ('neoalias_a.UInt256', 'neoalias_b.UInt160')}


def mc(profile, depth=1, streams=1, emit=1, cuts=False, workers=1):
    return dict(module='MCIO', workers=workers, cfg='''CONSTANTS Profile = "%s"
 Depth = %d
 Streams = %d
 EmitEvery = %d
 Cuts = %s
INIT Init
NEXT Next
INVARIANTS ReadBack Truncation Limits Emit
''' % (profile, depth, streams, emit, 'TRUE' if cuts else 'FALSE'))


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    if prop == 'C01':
        return [mc('fixed', cuts=False)] + ([mc('fixed', 2, 1, 17, workers=4)] if t else [])
    if prop == 'C02':
        return [mc('varint', cuts=True), mc('varint', 2, 1, 11)] + ([mc('varint', 3, 1, 31)] if t else [])
    if prop == 'C03':
        return [mc('payload', cuts=True)] + ([mc('payload', 2, 1, 23, workers=4)] if t else [])
    if prop == 'C04':
        return [mc('mix', 2, 2, 1), mc('mix', 3, 1, 3)] + ([mc('mix', 3, 2, 7, workers=4), mc('mix', 4, 1, 37, workers=4)] if t else [])
    if prop == 'C05':
        return [mc(p, cuts=True) for p in ('fixed', 'varint', 'payload', 'coll', 'uint')]
    if prop == 'C06':
        return [mc('coll', cuts=True), mc('coll', 2, 2, 1)] + ([mc('coll', 3, 1, 3)] if t else [])


def step(op, a=(), x='', s=1, **kw):
    d = {'op': op, 's': s, 'a': list(a), 'x': x}
    d.update(kw)
    return d


def load(*bs):
    return step('Load', [vbytes(b) for b in bs])


def seek(n=0, s=1):
    return step('Seek', [vint(n)], s=s)


BE = vstr('>')
LE = vstr('<')
INTS = {'Int8': (1, 1), 'UInt8': (1, 0), 'Int16': (2, 1), 'UInt16': (2, 0), 'Int32': (4, 1), 'UInt32': (4, 0),
        'Int64': (8, 1), 'UInt64': (8, 0)}


def rint(rng, bits):
    """an integer of up to `bits` bits, boundaries preferred"""
    c = rng.random()
    if c < 0.35:
        v = (1 << rng.randrange(0, bits + 1)) + rng.choice((-2, -1, 0, 1))
    elif c < 0.5:
        v = rng.choice((0, 1, 255, 256, 252, 253, 254, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1))
    else:
        v = rng.getrandbits(rng.randrange(1, bits + 1))
    return v


def rbytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


def payload(rng, big=False):
    c = rng.random()
    n = rng.choice((0, 1, 2, 3, 4, 7, 8, 16, 20, 32, 40, 64, 100)) if c < 0.7 else rng.choice((251, 252, 253, 254, 255, 256, 300))
    if big and rng.random() < 0.1:
        n = rng.choice((65534, 65535, 65536, 65537))
    k = rng.random()
    if k < 0.3:
        return bytes(rng.choice(b'0123456789abcdefABCDEF') for _ in range(n))
    if k < 0.4:
        return bytes(rng.choice(b'0123456789abcdefg x\x00') for _ in range(n))
    if k < 0.5:
        return bytes(rng.choice((0, 0, 1, 255)) for _ in range(n))
    return rbytes(rng, n)


def text(rng):
    n = rng.choice((0, 1, 2, 3, 4, 5, 8, 12, 20, 40, 63, 64, 126, 127, 130, 252, 253))
    k = rng.random()
    if k < 0.3:
        al = '0123456789abcdefABCDEF'
    elif k < 0.6:
        al = 'abc XYZ0189_-.'
    elif k < 0.8:
        al = 'aé€ß0\x00'
    else:
        al = 'a中\U0001f600́﹏\x7f\x80ÿĀ\uffff'
    return ''.join(rng.choice(al) for _ in range(n))


def rfloat(rng):
    c = rng.random()
    if c < 0.3:
        return struct.unpack('<d', rbytes(rng, 8))[0]
    if c < 0.6:
        return struct.unpack('<f', rbytes(rng, 4))[0]
    if c < 0.8:
        f = struct.unpack('<f', rbytes(rng, 4))[0]
        return math.nextafter(f, rng.choice((-math.inf, math.inf))) if math.isfinite(f) else f
    return rng.choice((0.0, -0.0, 1.5, -2.75, math.inf, -math.inf, 1e-45, 7e-46, 3.4028235677973366e+38,
                       3.4028235677973362e+38, 5e-324, 1.7976931348623157e308, 0.1, rng.uniform(-1e6, 1e6)))


def hexish(b):
    return all(c in b'0123456789abcdefABCDEF' for c in b)


def ruint(rng, n):
    while True:
        b = rng.choice((rbytes(rng, n), bytes(n), b'\xff' * n, bytes([rng.getrandbits(8)]) + bytes(n - 1),
                        bytes(n - 1) + bytes([rng.getrandbits(8)]), b'\x00' + rbytes(rng, n - 1)))
        if not hexish(b):
            return b


def vuint(n, b):
    return V('uint', [n] + list(b))


def ritem(rng):
    return V('item', (), [vint(rng.getrandbits(16)), vbytes(rbytes(rng, rng.choice((0, 1, 3, 10, 40))))])


def hashtext(rng):
    t = (bytes(rng.choice(b'0123456789abcdefABCDEF') for _ in range(32)) if rng.random() < 0.3 else ruint(rng, 32)).hex()
    k = rng.random()
    if k < 0.3:
        t = t.upper()
    return vstr(t) if k < 0.7 else vbytes(t.encode())


def fixed_write(rng):
    """(write step, matching read step)"""
    e = rng.choice(([], [BE], [LE]))
    k = rng.randrange(10)
    if k < 5:
        n = rng.choice(list(INTS))
        w, s = INTS[n]
        v = rint(rng, 8 * w + 1) * rng.choice((1, 1, -1))
        a = vint(v)
        if rng.random() < 0.1:
            a = V('bigint', z(v))
        return step('Write' + n, [a] + e), step('Read' + n, e)
    if k < 7:
        f = rfloat(rng)
        n = rng.choice(('Float', 'Double'))
        a = V('float', fl(f), [vstr(repr(f))])
        if rng.random() < 0.15:
            a = vint(rint(rng, 140) * rng.choice((1, -1)))
        return step('Write' + n, [a] + e), step('Read' + n, e)
    if k == 7:
        return rng.choice(((step('WriteBool', [vbool(rng.random() < 0.5)]), step('ReadBool')),
                           (step('WriteBool', [vint(rng.choice((0, 1, 2, 255, 256)))]), step('ReadBool'))))
    if k == 8:
        return rng.choice(((step('WriteChar', [vbytes(rbytes(rng, rng.choice((0, 1, 1, 1, 2))))]), step('ReadChar')),
                           (step('WriteByte', [vint(rng.randrange(-2, 259))]), step('ReadByte')),
                           (step('WriteByte', [vbytes(rbytes(rng, 1))]), step('ReadByte', [vbool(False)]))))
    v = rint(rng, 65) * rng.choice((1, -1))
    return step('WriteFixed8', [V('fixed8', (), [vint(v)])]), step('ReadFixed8')


def varint_write(rng):
    e = rng.choice(([], [], [LE]))
    v = rint(rng, 66)
    if rng.random() < 0.1:
        v = -v
    a = rng.choice((vint(v), vint(v), V('bigint', z(v))))
    if rng.random() < 0.06:
        a = rng.choice((vstr(str(v)), NONE, V('float', fl(float(v)), [vstr(repr(float(v)))]), vbytes(b'\x01'), vlist([])))
    lim = rng.choice((v, v, v + 1, v - 1, 2 ** 64, 0, 1, rint(rng, 64)))
    r = step('ReadVarInt', [vint(max(0, lim))]) if rng.random() < 0.8 or v >= 2 ** 63 else step('ReadVarInt')
    return step('WriteVarInt', [a] + e), r


ENCS = ['utf-8', 'utf-8', 'ascii', 'latin-1', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32-le']


def payload_write(rng, big=False):
    k = rng.randrange(6)
    lim = rng.choice(([], [], [vint(rng.choice((0, 1, 100, 252, 253, 300)))], [vint(2 ** 64)]))
    if k == 0:
        return step('WriteVarBytes', [vbytes(payload(rng, big))]), step('ReadVarBytes', lim)
    if k == 1:
        return step('WriteVarString', [vstr(text(rng))], rng.choice(ENCS)), step('ReadVarString', lim)
    if k == 2:
        return step('WriteVarString', [vbytes(payload(rng, big))], 'utf-8'), step('ReadVarString', lim)
    if k == 3:
        t = text(rng)
        n = max(0, len(t.encode('utf-8')) + rng.choice((-1, 0, 0, 1, 3, 40)))
        return step('WriteFixedString', [vstr(t), vint(n)]), step('ReadFixedString', [vint(n)])
    if k == 4:
        b = payload(rng, big)
        return step('WriteBytes', [vbytes(b), vbool(False)]), step('ReadBytes', [vint(len(b))])
    b = payload(rng)
    n = len(b) // 2 if hexish(b) and len(b) % 2 == 0 else len(b)
    a = [vbytes(b)] if rng.random() < 0.5 else [vbytes(b), vbool(True)]
    if rng.random() < 0.2:
        a[0] = vstr(''.join(map(chr, b)))
    return step('WriteBytes', a), step('SafeReadBytes', [vint(n)])


def coll_write(rng, big=False):
    k = rng.randrange(6)
    n = rng.choice((0, 1, 2, 3, 5, 9)) if rng.random() < 0.93 or not big else rng.choice((252, 253, 254, 256))
    lim = rng.choice(([], [], [vint(n)], [vint(n - 1 if n else 0)], [vint(n + 1)]))
    if k == 0:
        c = rng.choice(('UInt160', 'UInt256'))
        m = 20 if c == 'UInt160' else 32
        return step('WriteSerializableArray', [vlist([vuint(m, ruint(rng, m)) for _ in range(n)])], c), \
            step('ReadSerializableArray', lim, c)
    if k in (1, 2):
        return step('WriteSerializableArray', [vlist([ritem(rng) for _ in range(n)])], 'Item'), \
            step('ReadSerializableArray', lim, 'Item')
    if k == 5:
        if rng.random() < 0.2:
            m = rng.choice((1, 2, 252, 253, 255, 256, 65535, 65536, 65537, 65536 + 253))
            return step('WriteSerializableArray', [V('nils', z(m))], 'Nil'), step('ReadSerializableArray', rng.choice(([], [vint(m)], [vint(m - 1)])), 'Nil')
        n = min(n, 5)
        return step('WriteSerializableArray', [vlist([V('bag', (), [ritem(rng) for _ in range(rng.choice((0, 1, 2, 3)))]) for _ in range(n)])], 'Bag'), \
            step('ReadSerializableArray', rng.choice(([], [vint(n)])), 'Bag')
    if k == 3 and rng.random() < 0.3:
        return step('WriteSerializableArray', [NONE]), step('ReadSerializableArray', lim, 'UInt160')
    return step('WriteHashes', [vlist([hashtext(rng) for _ in range(n)])]), step('ReadHashes')


def uint_write(rng):
    n = rng.choice((20, 32))
    w = 'WriteUInt160' if n == 20 else 'WriteUInt256'
    r = 'ReadUInt160' if n == 20 else 'ReadUInt256'
    a = vuint(n, ruint(rng, n))
    k = rng.random()
    if k < 0.1:
        a = vuint(52 - n, ruint(rng, 52 - n))
    elif k < 0.15:
        a = rng.choice((vbytes(rbytes(rng, n)), vstr(rbytes(rng, n).hex()), NONE, vint(3), vuint(0, rbytes(rng, n))))
    return step(w, [a]), step(r)


def session(rng, makers, length, streams=1, limits=True):
    """writes on one or several streams interleaved, then everything read back"""
    # some streams hold older content that the writes go over
    old = [rbytes(rng, rng.randrange(1, 90)) if rng.random() < 0.3 else b'' for _ in range(streams)]
    at = [rng.choice((0, len(o) // 2, len(o) // 4)) for o in old]
    prog = [load(*old)] + [seek(at[s], s + 1) for s in range(streams) if old[s]]
    reads = {s: [] for s in range(1, streams + 1)}
    for _ in range(length):
        s = rng.randrange(streams) + 1
        w, r = rng.choice(makers)(rng)
        w['s'] = r['s'] = s
        if not limits and r['op'] in ('ReadVarInt', 'ReadVarBytes', 'ReadVarString', 'ReadSerializableArray'):
            r['a'] = [vint(2 ** 64)] if r['op'] == 'ReadVarInt' or rng.random() < 0.3 else []
        prog.append(w)
        reads[s].append(dict(r, after=len(prog) - 1))
    s = rng.randrange(streams) + 1
    prog.append(step('WriteBytes', [vbytes(rbytes(rng, rng.randrange(0, 6))), vbool(False)], s=s))
    for s in reads:
        prog.append(seek(at[s - 1], s))
    order = [s for s in reads for _ in reads[s]]
    rng.shuffle(order)
    for s in order:
        prog.append(reads[s].pop(0))
    prog.append(step('ReadByte', s=1))
    return prog


READS = ['ReadBool', 'ReadChar', 'ReadFixed8', 'ReadUInt160', 'ReadUInt256', 'ReadString', 'ReadByte'] + ['Read' + n for n in INTS]


def any_read(rng, avail):
    k = rng.randrange(9)
    lim = rng.choice(([], [vint(rng.choice((0, 1, 5, 20, 252, 253, 65535, 2 ** 32, 2 ** 64)))]))
    if k < 3:
        op = rng.choice(READS)
        return step(op, rng.choice(([], [BE])) if op[4:] in INTS else [])
    if k == 3:
        return step(rng.choice(('ReadFloat', 'ReadDouble')), rng.choice(([], [BE])))
    if k == 4:
        return step(rng.choice(('ReadVarInt', 'ReadVarBytes', 'ReadVarString')), lim)
    if k == 5:
        return step(rng.choice(('ReadBytes', 'SafeReadBytes', 'ReadFixedString')),
                    [vint(rng.choice((0, 1, avail, avail + 1, max(0, avail - 1), rng.randrange(0, 60))))])
    if k == 6:
        return step('ReadSerializableArray', lim, rng.choice(('UInt160', 'UInt256', 'Item')))
    if k == 7:
        return step(rng.choice(('ReadVarString', 'ReadVarBytes')), lim)
    return step(rng.choice(READS))


def garbage(rng):
    n = rng.choice((0, 1, 2, 3, 5, 7, 9, 10, 19, 20, 21, 31, 32, 33, 64, 70))
    b = bytearray(rbytes(rng, n))
    if n and rng.random() < 0.5:
        b[0] = rng.choice((0, 1, 2, n - 1, n, 0xfc, 0xfd, 0xfe, 0xff)) & 255
        if b[0] in (0xfd, 0xfe, 0xff) and rng.random() < 0.6:
            for i, x in enumerate(struct.pack('<Q', rng.choice((0, 1, n, n + 5, 2 ** 31, 2 ** 40))), 1):
                if i < n:
                    b[i] = x
    prog = [load(bytes(b))]
    for _ in range(rng.randrange(1, 5)):
        prog.append(any_read(rng, n))
    return prog


HUGE = [2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]


def huge_declared(rng):
    """declared lengths far beyond the stream"""
    out = []
    for h in HUGE:
        e = (b'\xff' + struct.pack('<Q', h)) if h >= 2 ** 32 else (b'\xfe' + struct.pack('<I', h))
        for r in (step('ReadVarBytes'), step('ReadVarString'), step('ReadVarBytes', [vint(h)]), step('ReadVarString', [vint(h)]),
                  step('ReadVarString', [vint(h - 1)]), step('ReadVarInt', [vint(h - 1)]), step('ReadVarInt', [vint(h)]),
                  step('ReadSerializableArray', [], 'UInt160'), step('ReadSerializableArray', [vint(h)], 'Item'),
                  step('ReadSerializableArray', [vint(h - 1)], 'Item')):
            out.append([load(e + rbytes(rng, rng.choice((0, 1, 20, 45)))), r])
    return out


def truncations(rng, n):
    """every cut of a written stream, read with the matching operation"""
    out = []
    makers = [fixed_write, varint_write, payload_write, coll_write, uint_write]
    while len(out) < n:
        w, r = rng.choice(makers)(rng)
        data = _bytes_of(w)
        if data is None or not data or r['op'] == 'ReadHashes':
            continue
        at = sorted({0, 1, len(data) - 1, len(data) // 2, rng.randrange(len(data))} & set(range(len(data))))
        prog = []
        for c in at:
            prog += [load(data[:c]), dict(r)]
        out.append(prog)
    return out


def _bytes_of(w):
    """the bytes a write produces, for building inputs only (nothing is judged with it)"""
    st = io.BytesIO()
    try:
        from neocore.IO.BinaryWriter import BinaryWriter
        args = [uncanon(a) for a in w['a']]
        if w['op'] == 'WriteVarString' and w['x']:
            args.append(w['x'])
        getattr(BinaryWriter(st), w['op'])(*args)
    except Exception:
        return None
    return st.getvalue()


def list2000(rng, known=True):
    hs = [vstr(rbytes(rng, 32).hex()) for _ in range(2000)]
    out = []
    w = step('Write2000256List', [vlist(hs)])
    out.append([load(b''), w])
    data = ''.join(rbytes(rng, 32).hex() for _ in range(2000)).encode()
    out.append([load(data + b'tail'), step('Read2000256List')])
    if known:
        out.append([load(b''), w, seek(0), step('Read2000256List')])
    return out


def bulk(rng, tier):
    """payloads longer than any buffer, each followed by a small value"""
    out = []
    sizes = (4097, 20000, 70000) + ((65536, 131073, 300000) if tier == 'thorough' else ())
    for n in sizes:
        b = rbytes(rng, n)
        t = ''.join(rng.choice('abc0123é') for _ in range(n))
        for w, r in ((step('WriteVarBytes', [vbytes(b)]), step('ReadVarBytes')),
                     (step('WriteVarString', [vbytes(b)], 'utf-8'), step('ReadVarString')),
                     (step('WriteVarString', [vstr(t)], 'latin-1'), step('ReadVarString', [vint(n)])),
                     (step('WriteFixedString', [vstr(t[:200].replace('é', 'e') + 'x' * (n - 500)), vint(n)]), step('ReadFixedString', [vint(n)])),
                     (step('WriteBytes', [vbytes(b), vbool(False)]), step('SafeReadBytes', [vint(n)])),
                     (step('WriteBytes', [vbytes(b), vbool(False)]), step('ReadBytes', [vint(n)]))):
            out.append([load(b''), w, step('WriteUInt8', [vint(9)]), seek(0), r, step('ReadUInt8')])
    return out


NEARHEX = [b'ab cd', b' abcd', b'abcd ', b'abcd\n', b'\nabcd', b'ab\tcd', b'ab\rcd', b'ab\x0bcd', b'0xabcd', b'0Xab', b'12_34', b'+123', b'-123', b'abc', b'a', b'abcg', b'gg', b'ab:cd', b'ab-cd',
           b'AB CD', b'\x00ab', b'ab\x00', b'abcdh', b"b'ab'", b'1e5', b'1.50', b'\xd9\xa1\xd9\xa2', b'\xef\xbc\x91\xef\xbc\x92', b'\xc2\xa0ab', b'  ', b' ', b'\n\n', b'=ab=', b'ab\xff', b'aB0f', b'\\xab']


def nearhex(rng, tier):
    """payloads that some reading of "hexadecimal" admits and some does not"""
    out = []
    more = []
    for _ in range(200 if tier == 'thorough' else 40):
        b = bytearray(rbytes(rng, rng.choice((2, 4, 10, 20, 32))).hex().encode())
        c = rng.choice(b' \n\t_:-xXgG\x00\xff')
        if rng.random() < 0.5:
            b[rng.randrange(len(b))] = c
        else:
            b.insert(rng.randrange(len(b) + 1), c)
            if rng.random() < 0.5:
                b.insert(rng.randrange(len(b) + 1), c)
        more.append(bytes(b))
    for b in NEARHEX + more:
        for a in ([vbytes(b)], [vbytes(b), vbool(True)], [vbytes(b), vbool(False)], [vstr(b.decode('latin-1'))]):
            p = [load(b''), step('WriteBytes', a)]
            if a[0]['k'] == 'bytes':
                h = hexish(b) and len(b) % 2 == 0 and not (len(a) > 1 and a[1] == vbool(False))
                p += [seek(0), step('ReadBytes', [vint(len(b) // 2 if h else len(b))])]
            out.append(p)
    return out


def roundabout(rng):
    """counts in a longer form than needed, read as numbers and as lengths; what follows is read on"""
    out = []
    for n in (0, 1, 5, 40, 252, 253, 254, 255, 256, 65535):
        for e in (b'\xfd' + struct.pack('<H', n), b'\xfe' + struct.pack('<I', n), b'\xff' + struct.pack('<Q', n)):
            data = e + (rbytes(rng, n) if n < 300 else b'') + b'\x07\x08'
            for op, a in (('ReadVarInt', [vint(n)]), ('ReadVarInt', []), ('ReadVarBytes', []), ('ReadVarString', [])):
                if op == 'ReadVarInt' or n < 300:
                    out.append([load(data), step(op, a), step('ReadUInt8'), step('ReadByte'), step('ReadByte')])
            if n in (1, 5):
                out.append([load(e + rbytes(rng, 20 * n) + b'\x07'), step('ReadSerializableArray', [], 'UInt160'), step('ReadUInt8')])
    return out


def programs(prop, tier, rng):
    k = 6 if tier == 'thorough' else 1
    out = []
    if prop == 'C01':
        out += [session(rng, [fixed_write], 12) for _ in range(250 * k)]
    elif prop == 'C02':
        out += [session(rng, [varint_write], 10) for _ in range(250 * k)]
        for v in (252, 253, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1):
            for e in ([], [LE], [BE]):
                out.append([load(b''), step('WriteVarInt', [vint(v)] + e)])
        for e in range(65):
            for d in (-1, 0, 1):
                v = 2 ** e + d
                out.append([load(b''), step('WriteVarInt', [vint(v)]), seek(0), step('ReadVarInt', [vint(v)]),
                            seek(0), step('ReadVarInt', [vint(max(0, v - 1))])])
        out += roundabout(rng)
        # every one- and two-byte prefix followed by anything
        for b in range(256):
            out.append([load(bytes([b]) + rbytes(rng, 9)), step('ReadVarInt', [vint(2 ** 64)]), step('ReadByte')])
    elif prop == 'C03':
        out += [session(rng, [payload_write], 6) for _ in range(300 * k)]
        out += [session(rng, [lambda r: payload_write(r, True)], 2) for _ in range(10 * k)]
        out += bulk(rng, tier) + nearhex(rng, tier)
    elif prop == 'C04':
        mk = [fixed_write, varint_write, payload_write, coll_write, uint_write]
        out += [session(rng, mk, rng.randrange(3, 14), rng.choice((1, 1, 2, 3)), False) for _ in range(260 * k)]
        out += bulk(rng, tier) + roundabout(rng)
    elif prop == 'C05':
        out += huge_declared(rng)
        out += truncations(rng, 300 * k)
        out += [garbage(rng) for _ in range(900 * k)]
        out.append([load(b'\x02' + rbytes(rng, 45)), step('ReadHashes')])                   # known finding
        out.append([load(b'\xff' + struct.pack('<Q', 2 ** 40)), step('ReadHashes', lim=2)])   # known finding
    elif prop == 'C06':
        out += [session(rng, [coll_write], 4, rng.choice((1, 1, 2))) for _ in range(250 * k)]
        out += [session(rng, [lambda r: coll_write(r, True)], 1) for _ in range(20 * k)]
        out += list2000(rng)
        for n in (252, 253, 254):
            out.append([load(b''), step('WriteHashes', [vlist([hashtext(rng) for _ in range(n)])]), seek(0), step('ReadHashes')])
            items = vlist([ritem(rng) for _ in range(n)])
            for m in (n - 1, n):
                out.append([load(b''), step('WriteSerializableArray', [items], 'Item'), seek(0),
                            step('ReadSerializableArray', [vint(m)], 'Item')])
        for _ in range(100 * k):                   # damaged lists: every kind of cut and changed bytes
            w, r = coll_write(rng)
            b = bytearray(_bytes_of(w) or b'\0')
            if r['op'] == 'ReadHashes':
                continue
            if rng.random() < 0.5:
                del b[rng.randrange(len(b)):]
            else:
                b[rng.randrange(len(b))] = rng.getrandbits(8)
            out.append([load(bytes(b)), r])
        out.append([load(b'\x03' + rbytes(rng, 70)), step('ReadHashes')])                   # known finding
    return out


# ---------------------------------------------------------------- execution

def execute(prog):
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    events, streams = [], []

    def state():
        return [{'b': list(s[0].getvalue()), 'p': s[0].tell()} for s in streams]

    def log(p, r):
        events.append({'op': p['op'] if p['op'] != 'Seek' else 'Load', 's': p['s'], 'a': p['a'] if p['op'] not in ('Load', 'Seek') else [],
                       'x': p['x'], 'r': r, 'st': state()})

    for p in prog:
        op = p['op']
        if op == 'Load':
            streams = []
            for a in p['a']:
                st = io.BytesIO(bytes(a['v']))
                streams.append((st, [(BinaryReader(st), BinaryWriter(st)) for _ in range(2)]))
            log(p, NONE)
            continue
        st, pairs = streams[p['s'] - 1]         # several readers and writers over one stream
        rd, wr = pairs[len(events) // 4 % 2]
        if op == 'Seek':
            st.seek(uncanon(p['a'][0]))
            log(p, NONE)
            continue
        if p.get('after') is not None and IsRefused(events, p):
            continue
        try:
            args = [uncanon(a) for a in p['a']]
        except Exception:
            log(p, V('err', [9]))
            continue
        if op == 'ReadSerializableArray':
            names = (CLASS[p['x']],) + ALIAS.get(p['x'], ())
            args.insert(0, names[len(events) % len(names)])
        elif op == 'WriteVarString' and p['x']:
            args.append(p['x'])
        if op in ('WriteBytes', 'WriteVarBytes', 'WriteVarString', 'WriteByte') and len(events) % 3 == 0:
            args = [bytearray(a) if isinstance(a, bytes) else a for a in args]
        fn = getattr(wr if op.startswith('Write') else rd, op)
        r, e = vlib.call(lambda: fn(*args), p.get('lim', 15))
        log(p, V('timeout') if e == 'TIMEOUT' else V('err') if e else canon(r))
        if e == 'TIMEOUT':
            break
    return events


def IsRefused(events, p):
    """reads are only matched with writes that were accepted"""
    i = p['after']
    return i < len(events) and events[i]['r']['k'] == 'err'


def corrupt(events, rng):
    """a copy of one step with a wrong outcome: [state before, wrong event]"""
    idx = [i for i in range(1, len(events)) if events[i]['op'] not in ('Load', 'Read2000256List', 'ReadHashes')
           and events[i]['r']['k'] in ('int', 'bytes', 'uint', 'bool') and len(events[i]['st'][0]['b']) < 5000]
    if not idx:
        return None
    import copy
    i = rng.choice(idx)
    ev = copy.deepcopy(events[i])
    pre = {'op': 'Load', 's': 1, 'a': [], 'x': '', 'r': NONE, 'st': events[i - 1]['st']}
    s = ev['st'][ev['s'] - 1]
    if ev['op'].startswith('Write'):
        if ev['op'] in ('WriteBool', 'WriteByte'):
            return None
        if rng.random() < 0.3 and ev['r']['k'] == 'int':
            ev['r'] = vint(len(s['b']) + 1000)
        else:
            if s['p'] == 0:
                return None
            s['b'][s['p'] - 1] ^= 1
    elif rng.random() < 0.3:
        s['p'] += 1
    elif rng.random() < 0.3:
        s['b'] = s['b'] + [7]
    else:
        r = ev['r']
        if len(r['v']) < 2:
            r['v'] = [0, 5] if r['k'] in ('int', 'bool') else r['v'] + [5]
        else:
            r['v'][-1] ^= 2
            if r['k'] == 'int' and r['v'][-1] == 0:
                r['v'][-1] = 9
    return [pre, ev]
