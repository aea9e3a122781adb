"""Fields, curve points, encodings and textbook ECDSA (C21, C22, C23, C28): programs
for NeoCurve.tla and their execution with the real classes of ECCurve."""
import copy
import io

from canon import NONE, V, canon, unz, vbool, vbytes, vint, vlist, vstr, z
import vlib

TRACE = 'TraceCurve'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C21', 'C22', 'C23', 'C28']

P256 = dict(p=2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, a=-3 % (2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1),
            b=0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
            gx=0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
            gy=0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5,
            n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551)
K256 = dict(p=2 ** 256 - 2 ** 32 - 977, a=0, b=7,
            gx=0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
            gy=0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8,
            n=2 ** 256 - 432420386565659656852420866394968145599)
NAMED = {'secp256r1': P256, 'secp256k1': K256}
# primes of every residue modulo 8, small and large
PRIMES = [3, 5, 7, 11, 13, 17, 19, 23, 29, 41, 97, 193, 257, 65537, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 127 - 1, 2 ** 255 - 19,
          2 ** 224 - 2 ** 96 + 1, 2 ** 448 - 2 ** 224 - 1, 2 ** 521 - 1, P256['p'], P256['n'], K256['p'], K256['n'],
          0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001]


def add(c, P, Q):
    p = c['p']
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if P[1] != Q[1] or P[1] == 0:
            return None
        l = (3 * P[0] * P[0] + c['a']) * pow(2 * P[1], -1, p) % p
    else:
        l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
    x = (l * l - P[0] - Q[0]) % p
    return x, (l * (P[0] - x) - P[1]) % p


def mul(c, k, P):
    acc = None
    while k:
        if k & 1:
            acc = add(c, acc, P)
        P = add(c, P, P)
        k >>= 1
    return acc


def lift(c, x, odd):
    p = c['p']
    y2 = (x ** 3 + c['a'] * x + c['b']) % p
    y = pow(y2, (p + 1) // 4, p)
    if y * y % p != y2:
        return None
    return x, y if y & 1 == odd else (p - y) % p


def rpoint(rng, c):
    k = rng.random()
    if k < 0.25:                              # small or near-prime x: leading zero bytes, boundary
        x = rng.choice((rng.randrange(0, 300), c['p'] - 1 - rng.randrange(300), rng.getrandbits(rng.choice((16, 100, 200, 240, 248))),
                        0xff << (8 * rng.randrange(31)), rng.getrandbits(8) << 247))
    else:
        x = rng.getrandbits(256)
    for d in range(200):
        P = lift(c, (x + d) % c['p'], rng.randrange(2))
        if P:
            return P


def scalar(rng, n):
    k = rng.random()
    if k < 0.3:
        return rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 255, 256))
    if k < 0.5:
        return n + rng.choice((-3, -2, -1, 0, 1, 2))
    if k < 0.7:
        return rng.getrandbits(rng.choice((8, 64, 128, 255)))
    if k < 0.8:
        return rng.choice((1 << rng.randrange(256), (1 << 256) - 1, (1 << 300) + 5, n // 2, n // 2 + 1, 2 * n, 3 * n + 1))
    return rng.randrange(1, n)


def mc(primes, every, mode, workers=1):
    return dict(module='MCCurve', workers=workers, cfg='''CONSTANTS Primes = %s
 Every = %d
 Mode = "%s"
INIT Init
NEXT Next
INVARIANTS Group Field Assoc Repeated Order Lift Ecdsa Emit
''' % (primes, every, mode))


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    if prop == 'C21':
        return [mc('{7, 11, 19}', 5, 'none')]
    if prop == 'C22':
        return [mc('{5}', 1, 'group'), mc('{7}', 1, 'group'), mc('{11, 13}', 9, 'group')] + \
            ([mc('{11, 13}', 1, 'group', 2), mc('{17, 19, 23}', 5, 'group', 2), mc('{29, 31, 37}', 61, 'group', 2)] if t else [])
    if prop == 'C23':
        return [mc('{5, 7}', 1, 'order'), mc('{11, 13}', 13, 'order')] + ([mc('{11, 13}', 1, 'order', 2), mc('{17, 19, 23}', 7, 'order', 2)] if t else [])
    return [mc('{7}', 1, 'ecdsa'), mc('{11}', 3, 'ecdsa'), mc('{13, 19, 23}', 41, 'ecdsa')] + \
        ([mc('{11}', 1, 'ecdsa', 2), mc('{13, 17}', 3, 'ecdsa', 2), mc('{19, 23}', 7, 'ecdsa', 2)] if t else [])


def step(op, e=1, a=()):
    return {'op': op, 'e': e, 'a': list(a)}


def O(i):
    return V('obj', [i])


def envarg(c):
    return V('env', (), [vint(c[k]) for k in ('p', 'a', 'b', 'gx', 'gy', 'n')])


def env(*names):
    s = step('Env', 0, [envarg(NAMED[n] if isinstance(n, str) else n) for n in names])
    s['names'] = [n if isinstance(n, str) else '' for n in names]
    return s


def field_env(p):
    return dict(p=p, a=0, b=0, gx=0, gy=0, n=p)


def mk(P, e=1):
    return step('Infinity', e) if P is None else step('Make', e, [vint(P[0]), vint(P[1])])


def felem(rng, p):
    k = rng.random()
    if k < 0.25:
        return rng.choice((0, 1, 2, 3, p - 1, p - 2, p // 2, p // 2 + 1)) % p
    if k < 0.4:
        return rng.getrandbits(16) % p
    return rng.randrange(p)


FBIN = ['FAdd', 'FSub', 'FMul', 'FDiv', 'FEq', 'FNe']


def field_history(rng, p, length):
    prog, vals = [env(field_env(p))], []

    def fresh(v):
        prog.append(step('FMake', 1, [vint(v)]))
        vals.append(v)
    fresh(felem(rng, p))
    fresh(felem(rng, p))
    while len(prog) < length:
        k = rng.random()
        i, j = rng.randrange(len(vals)), rng.randrange(len(vals))
        x, y = vals[i], vals[j]
        if k < 0.1:
            fresh(felem(rng, p))
        elif k < 0.6:
            op = rng.choice(FBIN)
            a, b = O(i + 1), O(j + 1)
            if rng.random() < 0.35:             # a plain integer on the right ...
                y = rng.choice((felem(rng, p), -felem(rng, p), p, p + 1, 2 * p + 3))
                b = vint(y)
            elif rng.random() < 0.4:            # ... or on the left
                x = rng.choice((felem(rng, p), -felem(rng, p), p, 3 * p - 1))
                a = vint(x)
            if op == 'FDiv' and y % p == 0:
                continue
            prog.append(step(op, 1, [a, b]))
            if op in ('FAdd', 'FSub', 'FMul', 'FDiv'):
                vals.append({'FAdd': x + y, 'FSub': x - y, 'FMul': x * y, 'FDiv': x * pow(y, -1, p) if op == 'FDiv' else 0}[op] % p)
        elif k < 0.72:
            n = rng.choice((0, 1, 2, 3, 10, p - 2, p - 1, p, (p - 1) // 2, rng.getrandbits(64)))
            c = rng.random()
            if c < 0.6:
                prog.append(step('FPow', 1, [O(i + 1), vint(n)]))
                vals.append(pow(x, n, p))
            elif c < 0.8:
                prog.append(step('FPow', 1, [O(i + 1), O(j + 1)]))
                vals.append(pow(x, y, p))
            else:
                n = felem(rng, p)
                prog.append(step('FPow', 1, [vint(n), O(j + 1)]))
                vals.append(pow(n, y, p))
        elif k < 0.82:
            op = rng.choice(('FNeg', 'FInv', 'FIsZero'))
            if op == 'FInv' and x == 0:
                continue
            prog.append(step(op, 1, [O(i + 1)]))
            if op == 'FNeg':
                vals.append(-x % p)
        elif k < 0.92:
            if rng.random() < 0.5:              # make it a square
                x = x * x % p
                fresh(x)
                i = len(vals) - 1
            f = rng.randrange(2)
            prog.append(step('FSqrt', 1, [O(i + 1), vint(f)]))
            break                               # its outcome is not known here: last step using results
        else:
            v = x if rng.random() < 0.5 else x * x % p
            prog.append(step('SqrtCQ', 1, [vint(v)]))
    return prog


def field_tables(primes):
    out = []
    for p in primes:
        for c in range(4):
            prog = [env(field_env(p))] + [step('FMake', 1, [vint(v)]) for v in range(p)]
            if c == 0:
                prog += [step('FZero', 1), step('FOne', 1)]
                for i in range(p):
                    prog += [step('FNeg', 1, [O(i + 1)]), step('FIsZero', 1, [O(i + 1)]), step('SqrtCQ', 1, [vint(i)])]
                    prog += [step('FInv', 1, [O(i + 1)])] if i else []
                for i in range(p):
                    prog += [step('FSqrt', 1, [O(i + 1), vint(i % 2)]), step('FSqrt', 1, [O(i + 1), vint(1 - i % 2)])]
            else:
                for i in range(p):
                    for j in range(p):
                        a, b = (O(i + 1), O(j + 1)) if c == 1 else (vint(i), O(j + 1)) if c == 2 else (O(i + 1), vint(j))
                        prog += [step(op, 1, [a, b]) for op in FBIN if op != 'FDiv' or j]
                        if j % 3 == c % 3:
                            prog.append(step('FPow', 1, [a, b]))
            out.append(prog)
    return out


def point_history(rng, name, length):
    """group operations over shared points of a named curve"""
    c = NAMED[name]
    prog, pts, idx = [env(name)], [], []
    count = [0]

    def put(s, P):
        prog.append(s)
        count[0] += 1
        pts.append(P)
        idx.append(count[0])
    k = rng.random()
    put(mk((c['gx'], c['gy'])), (c['gx'], c['gy']))
    P = rpoint(rng, c)
    put(mk(P), P)
    if rng.random() < 0.5:
        put(mk(None), None)
    if rng.random() < 0.5:
        put(mk((P[0], -P[1] % c['p'])), (P[0], -P[1] % c['p']))
    muls = 0
    while len(prog) < length:
        k = rng.random()
        i, j = rng.randrange(len(pts)), rng.randrange(len(pts))
        if k < 0.35:
            put(step('PAdd', 1, [O(idx[i]), O(idx[j])]), add(c, pts[i], pts[j]))
        elif k < 0.5:
            Q = pts[j] and (pts[j][0], -pts[j][1] % c['p'])
            put(step('PSub', 1, [O(idx[i]), O(idx[j])]), add(c, pts[i], Q))
        elif k < 0.6:
            put(step('PNeg', 1, [O(idx[i])]), pts[i] and (pts[i][0], -pts[i][1] % c['p']))
        elif k < 0.8 and muls < 3:
            muls += 1
            n = scalar(rng, c['n']) * rng.choice((1, 1, 1, -1))
            m = rng.random()
            if m < 0.6:
                s = vint(n)
            else:                              # a value of the group order's field, or of the coordinate field
                n %= c['n']
                prog.append(step('FMake', rng.choice((1, 2)), [vint(n)]))
                count[0] += 1
                s = O(count[0])
            put(step('PMul', 1, [O(idx[i]), s]), mul(c, n % c['n'], pts[i]))
        elif k < 0.86 and muls < 3:
            muls += 1
            n = rng.choice((1, 2, 3, c['n'] - 1, rng.randrange(1, c['n'])))
            prog.append(step('FMake', 2, [vint(n)]))
            count[0] += 1
            put(step('PDiv', 1, [O(idx[i]), O(count[0])]), mul(c, pow(n, -1, c['n']), pts[i]))
        else:
            prog.append(step(rng.choice(('OnCurve', 'IsZero', 'IsInfinity', 'Size')), 1, [O(idx[i])]))
    return prog


def order_history(rng, name):
    c = NAMED[name]
    prog, pts = [env(name)], []
    for _ in range(rng.randrange(3, 7)):
        k = rng.random()
        if pts and k < 0.3 and pts[-1]:
            P = (pts[-1][0], -pts[-1][1] % c['p'])
        elif pts and k < 0.42:
            P = rng.choice(pts)
        elif pts and pts[-1] and k < 0.62:          # a near neighbour: the same leading bits, or the same trailing ones
            x, P = pts[-1][0], None
            s = rng.choice((0, 0, 0, 128, 192, 200, 232, 248))
            for d in range(1, 200):
                P = lift(c, (x + (d << s)) % c['p'], rng.randrange(2))
                if P:
                    break
        elif k < 0.7:
            P = None
        else:
            P = rpoint(rng, c)
        pts.append(P)
        prog.append(mk(P))
    n = len(pts)
    for i in range(n):
        for j in range(n):
            prog += [step(op, 1, [O(i + 1), O(j + 1)]) for op in rng.sample(('PLt', 'PLe', 'PGt', 'PGe', 'PEq', 'PNe'), 3)]
    for _ in range(4):
        o = [rng.randrange(n) for _ in range(rng.randrange(0, 8))] if rng.random() < 0.5 else rng.sample(range(n), n)
        prog.append(step('PSort', 1, [O(i + 1) for i in o]))
    return prog


def be(n, w=32):
    return n.to_bytes(w, 'big')


def comp(P):
    return b'\x00' if P is None else bytes([2 + (P[1] & 1)]) + be(P[0])


def unc(P):
    return b'\x00' if P is None else b'\x04' + be(P[0]) + be(P[1])


def roundtrip(rng, name, P):
    """encode, then decode what was written, in every form"""
    prog = [env(name), mk(P)]
    n = 1
    for op in ('Encode', 'Serialize'):
        for c in (1, 0):
            prog.append(step(op, 1, [O(1), vint(c)]))
            n += 1
            if P is None:
                prog.append(step('DecodeRaw', 1, [O(n)]))
                if op == 'Serialize':
                    prog.append(step('DecodeReader', 1, [O(n)]))
            elif op == 'Encode':
                prog.append(step('DecodeHex', 1, [O(n)]))
                if name == 'secp256r1':
                    prog.append(step('SecHex', 1, [O(n)]))
                    n += 1
            else:
                prog += [step('DecodeRaw', 1, [O(n)]), step('DecodeReader', 1, [O(n)])]
                n += 1
                if name == 'secp256r1':
                    prog += [step('SecRaw', 1, [O(n - 1)]), step('DeserSec', 1, [O(n - 1)]), step('FromBytes', 1, [O(n - 1)])]
                    n += 3
            n += 1
            if P is None and op == 'Serialize':
                n += 1
    prog += [step('Size', 1, [O(1)]), step('IsInfinity', 1, [O(1)])]
    if name == 'secp256r1' and P is not None:
        junk = bytes(rng.getrandbits(8) for _ in range(32))
        for f in (comp(P), unc(P), unc(P)[1:], bytes(rng.getrandbits(8) for _ in range(8)) + unc(P)[1:],
                  unc(P)[1:] + junk, bytes(rng.getrandbits(8) for _ in range(8)) + unc(P)[1:] + junk):
            prog.append(step('FromBytes', 1, [vbytes(f)]))
    return prog


def near(rng, c, P):
    """byte strings near an encoding of P"""
    p = c['p']
    k = rng.random()
    e = rng.choice((comp(P), comp(P), unc(P)))
    if k < 0.2:
        return bytes([rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 255))]) + e[1:]
    if k < 0.3:
        return e[:rng.randrange(len(e) + 1)]
    if k < 0.4:
        return e + bytes(rng.getrandbits(8) for _ in range(rng.choice((1, 1, 2, 32))))
    if k < 0.5:
        return rng.choice((b'\x00', b'\x00\x00', b'\x00' + e[1:], b'\x04' + bytes(64), b'\x02' + bytes(32), b'\x03' + bytes(32), b'\x00' * 65, b''))
    if k < 0.65:                               # coordinates not below the prime
        x = p + rng.choice((0, 1, 2, rng.randrange(0, 5000)))
        for d in range(100):
            Q = lift(c, (x + d) % p, rng.randrange(2))
            if Q and Q[0] + p < 2 ** 256:
                x = Q[0] + p
                return rng.choice((bytes([2 + (Q[1] & 1)]) + be(x), b'\x04' + be(x) + be(Q[1])))
        return b'\x02' + b'\xff' * 32
    if k < 0.72:
        return b'\x04' + be(P[0]) + be((-P[1]) % p)
    if k < 0.8:                                # most x are on no point half of the time
        return bytes([rng.choice((2, 3))]) + be(rng.choice((rng.getrandbits(256), rng.randrange(300), p - 1 - rng.randrange(300))))
    b = bytearray(e)
    b[rng.randrange(1, len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)


def decode_program(rng, name, count):
    c = NAMED[name]
    prog = [env(name)]
    for _ in range(count):
        P = rpoint(rng, c)
        b = near(rng, c, P)
        h = b.hex()
        k = rng.random()
        if k < 0.1 and h:
            h = rng.choice((h[:-1], h + '0', h[:4] + 'zz' + h[6:], h.upper(), ' ' + h))
        ht = vstr(h) if rng.random() < 0.5 else vbytes(h.encode())
        prog.append(step('DecodeHex', 1, [ht]))
        prog.append(step('DecodeRaw', 1, [vbytes(b)]))
        tail = b if rng.random() < 0.6 else b + bytes(rng.getrandbits(8) for _ in range(rng.choice((1, 31, 64))))
        prog.append(step('DecodeReader', 1, [vbytes(tail)]))
        if name == 'secp256r1':
            prog += [step('SecHex', 1, [ht]), step('SecRaw', 1, [vbytes(b)]), step('DeserSec', 1, [vbytes(tail)])]
            f = rng.choice((b, b[1:], b[1:] + bytes(32), bytes(8) + b[1:], bytes(8) + b[1:] + bytes(32)))
            prog.append(step('FromBytes', 1, [vbytes(f)]))
        x = rng.choice((P[0], rng.randrange(500), rng.getrandbits(256) % c['p']))
        prog += [step('Decompress', 1, [vint(x), vint(rng.randrange(2))]), step('DecompressFrom', 1, [vint(x), vint(rng.randrange(2))])]
    return prog


def first_bytes(name, P):
    """every first byte before encodings of each length"""
    prog = [env(name)]
    for b in range(256):
        for e in (comp(P)[1:], unc(P)[1:]):
            if b % 4 != len(e) // 64 * 2 and b > 8 and b % 128 > 8:
                continue
            prog += [step('DecodeReader', 1, [vbytes(bytes([b]) + e)]), step('DecodeRaw', 1, [vbytes(bytes([b]) + e)])]
            if name == 'secp256r1':
                prog.append(step('DeserSec', 1, [vbytes(bytes([b]) + e)]))
        prog.append(step('DecodeRaw', 1, [vbytes(bytes([b]))]))
    return prog


def truncations(name, P):
    prog = [env(name)]
    for e in (comp(P), unc(P)):
        for n in list(range(0, len(e) + 1)):
            prog.append(step('DecodeReader', 1, [vbytes(e[:n])]))
            prog.append(step('DecodeRaw', 1, [vbytes(e[:n])]))
            if name == 'secp256r1':
                prog.append(step('DeserSec', 1, [vbytes(e[:n])]))
    return prog


def lengths(rng, P):
    """raw key bytes of every length"""
    prog = [env('secp256r1')]
    for n in range(0, 112):
        body = (comp(P) + bytes(200))[:n] if n < 64 else (b'\x04' * (n - 64) + unc(P)[1:])
        prog.append(step('FromBytes', 1, [vbytes(body)]))
        prog.append(step('FromBytes', 1, [vbytes((unc(P) + bytes(60))[:n])]))
    return prog


def ecdsa_program(rng, name):
    c = NAMED[name]
    n = c['n']
    d, k = [rng.choice((1, 2, 3, n - 1, n - 2, rng.getrandbits(64) + 1, rng.randrange(1, n), rng.randrange(1, n), rng.randrange(1, n))) for _ in range(2)]
    m, m2 = [rng.choice((0, 1, n - 1, rng.getrandbits(256), rng.randrange(n), rng.randrange(n), n + 5)) for _ in range(2)]
    if (m - m2) % n == 0:
        m2 = m + 1
    R = mul(c, k, (c['gx'], c['gy']))
    r = R[0]
    s = (m + d * r) * pow(k, -1, n) % n
    s2 = (m2 + d * r) * pow(k, -1, n) % n
    if not r % n or not s or not s2:
        return None
    Y = mul(c, d, (c['gx'], c['gy']))
    odd = R[1] & 1
    prog = [env(name), step('Builtin'), step('CalcPub', 1, [vint(d)]), step('Sign', 1, [vint(m), vint(d), vint(k)])]     # 1; 2 3
    k2 = k % (n - 1) + 1
    R2 = mul(c, k2, (c['gx'], c['gy']))
    s3 = (m + d * R2[0]) * pow(k2, -1, n) % n
    t = rng.random()
    if t < 0.3:
        prog += [step('Verify', 1, [vint(m), O(1), O(2), O(3)]),
                 step('Verify', 1, [vint(rng.choice((m + 1, m2, m ^ 1, m + n))), O(1), vint(r), vint(s)]),
                 step('Verify', 1, [vint(m), O(1), vint(r), vint(rng.choice((s + 1, n - s, s ^ (1 << rng.randrange(250)), 0, r)) % n)])]
    elif t < 0.45:
        W = rng.choice(((Y[0], -Y[1] % c['p']), mul(c, d + 1, (c['gx'], c['gy'])), rpoint(rng, c)))
        prog += [mk(W), step('Verify', 1, [vint(m), O(4), O(2), O(3)]), step('Verify', 1, [vint(m), O(1), vint(s), vint(r)]),
                 step('Verify', 1, [vint(m), O(1), vint(0), vint(rng.choice((0, s)))]), step('Verify', 1, [vint(0), O(1), O(2), vint(0)])]
    elif t < 0.65:
        prog += [step('FindPk', 1, [vint(m), O(2), O(3), vint(odd)]), step('Verify', 1, [vint(m), O(4), O(2), O(3)]),
                 step('FindPk', 1, [vint(m), vint(r), vint(s), vint(1 - odd)])]
    elif t < 0.85 or not s3 or not R2[0] % n:
        prog += [step('Sign', 1, [vint(m2), vint(d), vint(k)]), step('Crack1', 1, [O(2), O(3), vint(m), vint(k)]),
                 step('Crack1', 1, [vint(r), vint(s2), vint(m2), vint(k)])]
        prog += [step('Crack2', 1, [O(2), O(3), O(5), vint(m), vint(m2)])] if s != s2 else []
    else:
        prog += [step('Sign', 1, [vint(m), vint(d), vint(k2)]),
                 step('FindPk2', 1, [O(2), O(3), O(4), O(5), vint(odd), vint(R2[1] & 1)])]
    return prog


def programs(prop, tier, rng):
    t = tier == 'thorough'
    out = []
    names = ['secp256r1', 'secp256r1', 'secp256k1']
    if prop == 'C22':
        out += field_tables([3, 5, 7, 11, 13, 17] + ([19, 23, 29, 41] if t else []))
        for _ in range(3000 if t else 400):
            out.append(field_history(rng, rng.choice(PRIMES), rng.randrange(5, 25)))
        for _ in range(1200 if t else 120):
            out.append(point_history(rng, rng.choice(names), rng.randrange(6, 16)))
        for nm in ('secp256r1', 'secp256k1'):
            c = NAMED[nm]
            p = [env(nm), mk((c['gx'], c['gy']))] + [step('PMul', 1, [O(1), vint(s)]) for s in (0, 1, 2, 3, -1, c['n'] - 1, c['n'], c['n'] + 1)]
            q = [env(nm)]
            for _ in range(30):
                P = rpoint(rng, c)
                q += [step('Make', 1, [vint(P[0]), vint((P[1] + rng.choice((0, 0, 1))) % c['p'])])]
            q += [step('OnCurve', 1, [O(i + 1)]) for i in range(30)]
            out += [p, q]
    elif prop == 'C23':
        for _ in range(1500 if t else 150):
            out.append(order_history(rng, rng.choice(names)))
    elif prop == 'C21':
        for nm in ('secp256r1', 'secp256k1'):
            c = NAMED[nm]
            out.append(roundtrip(rng, nm, None))
            for _ in range(2):
                out.append(truncations(nm, rpoint(rng, c)))
            out.append(first_bytes(nm, rpoint(rng, c)))
            Q = P = (c['gx'], c['gy'])
            seen = {}
            for _ in range(3000):              # points with zero bytes at the ends of a coordinate
                Q = add(c, Q, P)
                for sh, is_ in (('x0', Q[0] >> 248 == 0), ('y0', Q[1] >> 248 == 0), ('x_0', Q[0] & 255 == 0), ('y_0', Q[1] & 255 == 0)):
                    if is_ and seen.setdefault((sh, Q[1] & 1), 0) < 2:
                        seen[(sh, Q[1] & 1)] += 1
                        out.append(roundtrip(rng, nm, Q))
        for _ in range(4 if t else 2):
            out.append(lengths(rng, rpoint(rng, P256)))
        for _ in range(1500 if t else 150):
            nm = rng.choice(names)
            out.append(roundtrip(rng, nm, rpoint(rng, NAMED[nm])))
            out.append(decode_program(rng, nm, 4))
    else:
        while len(out) < (600 if t else 64):
            p = ecdsa_program(rng, rng.choice(names))
            if p:
                out.append(p)
    return out


def execute(program):
    from neocore.Cryptography import ECCurve
    from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    ecs, fields, objs, events = [], [], [], []

    def cv(x):
        if isinstance(x, FiniteField.Value):
            i = next((i for i, f in enumerate(fields) if f is x.field), None)
            if i is None:
                i = next((i for i, f in enumerate(fields) if f.p == x.field.p), -1)
            return V('fv', [i + 1], [canon(x.value)])
        if isinstance(x, EllipticCurve.ECPoint):
            i = next((i for i, e in enumerate(ecs) if e.ec is x.curve), None)
            if i is None:
                i = next((i for i, e in enumerate(ecs) if (e.ec.field.p, e.ec.a.value, e.ec.b.value) ==
                          (x.curve.field.p, x.curve.a.value, x.curve.b.value)), -1)
            if i >= 0 and not (x.x.field.p == x.y.field.p == ecs[i].ec.field.p):
                i = -1
            return V('pt', [i + 1], [canon(x.x.value), canon(x.y.value)])
        if isinstance(x, (list, tuple)):
            return vlist([cv(i) for i in x])
        return canon(x)

    for n, p in enumerate(program):
        op, e = p['op'], p['e']
        if op == 'Env':
            names = p.get('names') or [''] * len(p['a'])
            for nm, a in zip(names, p['a']):
                if nm:
                    ecs.append(getattr(ECDSA, nm)())
                else:
                    v = [unz(c['v']) for c in a['c']]
                    ec = EllipticCurve(FiniteField(v[0]), v[1], v[2])
                    ecs.append(ECDSA(ec, ec.point(v[3], v[4]), v[5]))
                fields += [ecs[-1].ec.field, ecs[-1].GFn]
            events.append({'op': op, 'e': 0, 'a': p['a'], 'r': NONE, 'os': [], 'after': []})
            continue
        ed = ecs[e - 1] if not (op.startswith('F') and op not in ('FindPk', 'FindPk2', 'FromBytes')) and op != 'SqrtCQ' else None
        raw = []
        for x in p['a']:
            if x['k'] == 'obj':
                raw.append(objs[x['v'][0] - 1])
            elif x['k'] == 'int':
                raw.append(unz(x['v']))
            elif x['k'] == 'bytes':
                raw.append(bytes(x['v']) if n % 2 else bytearray(x['v']))
            else:
                raw.append(''.join(map(chr, x['v'])))
        a = raw
        extra = []

        def run():
            if op == 'FMake':
                return fields[e - 1].value(a[0] % fields[e - 1].p)
            if op == 'FHex':
                return fields[e - 1].value(a[0])
            if op == 'FZero':
                return fields[e - 1].zero()
            if op == 'FOne':
                return fields[e - 1].one()
            if op == 'FAdd':
                return a[0] + a[1]
            if op == 'FSub':
                return a[0] - a[1]
            if op == 'FMul':
                return a[0] * a[1]
            if op == 'FDiv':
                return a[0] / a[1]
            if op == 'FEq':
                return a[0] == a[1]
            if op == 'FNe':
                return a[0] != a[1]
            if op == 'FPow':
                return a[0] ** a[1]
            if op == 'FNeg':
                return -a[0]
            if op == 'FInv':
                return a[0].inverse()
            if op == 'FIsZero':
                return a[0].iszero()
            if op == 'FSqrt':
                return a[0].sqrt(a[1])
            if op == 'SqrtCQ':
                return ECCurve.sqrtCQ(a[0], fields[e - 1].p)
            ec = ed.ec
            if op == 'Make':
                return ec.point(a[0], a[1])
            if op == 'Infinity':
                return ec.Infinity
            if op == 'PAdd':
                return a[0] + a[1]
            if op == 'PSub':
                return a[0] - a[1]
            if op == 'PNeg':
                return -a[0]
            if op == 'PMul':
                return a[0] * a[1]
            if op == 'PDiv':
                return a[0] / a[1]
            if op == 'PLt':
                return a[0] < a[1]
            if op == 'PLe':
                return a[0] <= a[1]
            if op == 'PGt':
                return a[0] > a[1]
            if op == 'PGe':
                return a[0] >= a[1]
            if op == 'PEq':
                return a[0] == a[1]
            if op == 'PNe':
                return a[0] != a[1]
            if op == 'PSort':
                return sorted(a)
            if op == 'IsZero':
                return a[0].iszero()
            if op == 'IsInfinity':
                return a[0].IsInfinity
            if op == 'OnCurve':
                return a[0].isoncurve()
            if op == 'Size':
                return a[0].Size()
            if op == 'Decompress':
                return ec.decompress(a[0], a[1])
            if op == 'DecompressFrom':
                return ec.decompress_from_curve(a[0], a[1])
            if op == 'Encode':
                return bytes(a[0].encode_point(bool(a[1])))
            if op == 'Serialize':
                st = io.BytesIO()
                a[0].Serialize(BinaryWriter(st), bool(a[1]))
                return st.getvalue()
            if op == 'DecodeHex':
                return ec.decode_from_hex(a[0])
            if op == 'DecodeRaw':
                return ec.decode_from_hex(a[0], unhex=False)
            if op == 'SecHex':
                return ECDSA.decode_secp256r1(a[0]).G
            if op == 'SecRaw':
                return ECDSA.decode_secp256r1(a[0], unhex=False).G
            if op in ('DecodeReader', 'DeserSec'):
                st = io.BytesIO(bytes(a[0]))
                r = (ec.decode_from_reader if op == 'DecodeReader' else ECDSA.Deserialize_Secp256r1)(BinaryReader(st))
                extra.append(vint(st.tell()))
                return r
            if op == 'FromBytes':
                return ECDSA.FromBytes_Secp256r1(a[0]).G
            if op == 'Builtin':
                return [ec.field.p, ec.a.value, ec.b.value, ed.G.x.value, ed.G.y.value, ed.GFn.p]
            if op == 'CalcPub':
                return ed.calcpub(a[0])
            if op == 'Sign':
                return ed.sign(a[0], a[1], a[2])
            if op == 'Verify':
                return ed.verify(a[0], a[1], a[2], a[3])
            if op == 'FindPk':
                return ed.findpk(a[0], a[1], a[2], a[3])
            if op == 'FindPk2':
                return ed.findpk2(*a)
            if op == 'Crack1':
                return ed.crack1(*a)
            if op == 'Crack2':
                return ed.crack2(*a)
            raise AssertionError(op)
        r, err = vlib.call(run)
        ev = {'op': op, 'e': e, 'a': p['a'], 'os': []}
        if err:
            ev['r'] = V('timeout') if err == 'TIMEOUT' else V('err')
        elif isinstance(r, (FiniteField.Value, EllipticCurve.ECPoint)) or op in ('Encode', 'Serialize'):
            objs.append(r)
            ev['os'], ev['r'] = [cv(r)], extra[0] if extra else NONE
        elif op in ('Sign', 'Crack2') and isinstance(r, tuple):
            objs += list(r)
            ev['os'], ev['r'] = [cv(x) for x in r], NONE
        else:
            ev['r'] = cv(r)
        ev['after'] = [cv(x) if q['k'] == 'obj' else NONE for q, x in zip(p['a'], raw)]
        ev['w'] = 3000 if op in ('Verify', 'FindPk', 'FindPk2', 'PMul', 'PDiv', 'CalcPub', 'Sign') else 0
        events.append(ev)
        if err == 'TIMEOUT':
            break
        # a later step may refer to a value that was not produced
        if n + 1 < len(program) and any(x['k'] == 'obj' and x['v'][0] > len(objs) for x in program[n + 1]['a']):
            break
    return events


def corrupt(events, rng):
    idx = [i for i in range(1, len(events)) if events[i]['op'] not in ('FInv',)]
    if not idx:
        return None
    i = rng.choice(idx)
    ev = copy.deepcopy(events[i])
    if ev['op'] in ('FSqrt', 'Decompress') and ev['r']['k'] == 'err':
        return None
    if ev['op'] in ('DecodeHex', 'DecodeRaw'):
        # which encodings the raw decoder accepts off the curve is not specified
        if ev['r']['k'] == 'err':
            return None
        v = [unz(c['v']) for c in events[0]['a'][ev['e'] - 1]['c']]
        x, y = [unz(c['v']) for c in ev['os'][0]['c']]
        if (x ** 3 + v[1] * x + v[2] - y * y) % v[0] and (x or y):
            return None
    refs = [k for k, x in enumerate(ev['a']) if x['k'] == 'obj']
    k = rng.random()
    if refs and k < 0.15:
        j = rng.choice(refs)
        if ev['after'][j]['c']:
            ev['after'][j]['c'][-1] = vint(unz(ev['after'][j]['c'][-1]['v']) + 1)
        else:
            ev['after'][j]['v'] = ev['after'][j]['v'][:-1]
    elif k < 0.25 and ev['r']['k'] != 'err' and ev['op'] != 'FInv':
        ev['r'], ev['os'] = V('err'), []
        if ev['op'] in ('DecodeHex', 'DecodeRaw') or ev['op'] in ('FSqrt', 'Decompress', 'SqrtCQ'):
            return None
    elif ev['os']:
        o = rng.choice(ev['os'])
        if o['k'] == 'bytes':
            o['v'][-1] ^= 1
        else:
            o['c'][-1] = vint(unz(o['c'][-1]['v']) + rng.choice((1, 1, 2 ** 255)))
    elif ev['r']['k'] == 'bool':
        ev['r'] = vbool(len(ev['r']['v']) == 1)
    elif ev['r']['k'] == 'int':
        ev['r'] = vint(unz(ev['r']['v']) + 1)
        if ev['op'] == 'SqrtCQ':
            return None
    elif ev['r']['k'] == 'list' and ev['r']['c']:
        ev['r']['c'] = ev['r']['c'][1:]
    elif ev['r']['k'] == 'err':
        ev['r'], ev['os'] = NONE, []
    else:
        return None
    return events[:i] + [ev]
