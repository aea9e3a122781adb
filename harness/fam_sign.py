"""Signatures (C19) and their independence of history (C20): programs for NeoSign.tla
and their execution with the real library, every process of a history forked afresh."""
import copy
import base64
import hashlib
import json
import os
import re

from canon import NONE, V, canon, unz, vbytes, vint, vstr, vbool, z
from fam_key import N, P, G, padd, pmul, rbytes
from clothed import clothed
import special
import vlib

TRACE = 'TraceSign'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C19', 'C20']
ALL = '{"NewKey", "Default", "Sign", "SignInst", "Verify33"}'


def preload():
    """import (only import) the library, so that every history starts in a process
    that has executed nothing"""
    import neocore.KeyPair
    import neocore.Cryptography.Crypto
    import neocore.Cryptography.ECCurve
    import bitcoin


def mc(depth, procs, emit, foreigns=True, workers=2):
    return dict(module='MCSign', workers=workers, cfg='''CONSTANTS Depth = %d
 Procs = {%s}
 Sets = %s
 EmitEvery = %d
 Foreigns = %s
INIT Init
NEXT Next
INVARIANTS Independent Emit
''' % (depth, ', '.join(map(str, range(procs))), ALL, emit, 'TRUE' if foreigns else 'FALSE'))


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    if prop == 'C20':
        return [mc(2, 1, 1), mc(3, 1, 1 if t else 4), mc(4, 1, 2 if t else 40), mc(5, 1, 40 if t else 500), mc(6 if t else 4, 2, 1), mc(4, 3, 1, workers=4)]
    return [mc(2, 1, 10 ** 9)]


def step(op, a=(), x=''):
    return {'op': op, 'x': x, 'a': list(a)}


def sig(i):
    return V('sig', [i])


def key(i, form):
    return V('key' + form, [i])


def vpt(x, y):
    return V('pt', (), [vint(x), vint(y)])


def c33(q):
    return bytes([2 + q[1] % 2]) + q[0].to_bytes(32, 'big')


def r64(q):
    return q[0].to_bytes(32, 'big') + q[1].to_bytes(32, 'big')


def privkey(rng):
    c = rng.random()
    if c < 0.08:
        return rng.choice(rng.choice(list(special.KEYS.values())))
    if c < 0.15:
        return rng.choice((1, 2, 3, N - 1, N - 2, 2 ** 128, 2 ** 248 - 1))
    if c < 0.3:
        return rng.randrange(1, 1 << rng.choice((8, 100, 240, 248)))
    return rng.randrange(1, N)


def hx(b, rng=None):
    s = b.hex()
    return s.upper() if rng and rng.random() < 0.2 else s


def ksign(rng, m, d, k=None):
    """an ECDSA signature made here, with any nonce"""
    while True:
        k = k or rng.randrange(1, N)
        r = pmul(k)[0] % N
        e = int.from_bytes(hashlib.sha256(m).digest(), 'big')
        s = pow(k, -1, N) * (e + r * d) % N
        if r and s:
            return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
        k = None


MSGS = [b'', b'\0', b'a', b'ab', b'hello', bytes(31), b'\xff' * 32, bytes(range(55)), bytes(56), bytes(range(64)), bytes(65), bytes(range(119)), bytes(200), b'deadbeef', b'00', b'\xaa',
        'caf\xe9'.encode(), '\xfc'.encode(), 'na\xefve \u20ac 5'.encode(), '\u4f60\u597d'.encode(), '\U0001F511 key'.encode(), 'e\u0301'.encode(), '\ufeffx'.encode(),
        b'\xe9', b'a\r\nb', b' ab ', b'0xab', b'abc', b'AB', b'a\0b', b'\n']


def message(rng):
    if rng.random() < 0.1:
        return bytes.fromhex(rng.choice(rng.choice(list(special.MSGS.values()))))
    return rng.choice(MSGS) if rng.random() < 0.5 else rbytes(rng, rng.choice((1, 2, 20, 32, 33, 64, 100, 300)))


def msg_forms(rng, m):
    """(argument, unhex) pairs that stand for the message"""
    out = [(vstr(hx(m, rng)), 1), (vbytes(hx(m).encode()), 1), (vbytes(m), 0)]
    try:
        t = m.decode('utf-8')
        out.append((vstr(t), 0))
    except UnicodeDecodeError:
        pass
    if not is_hex(m):
        out.append((vbytes(m), 1))
    return out


def is_hex(m):
    return len(m) % 2 == 0 and all(c in b'0123456789abcdefABCDEF' for c in m)


def derint(v):
    b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
    return b'\x02' + bytes([len(b)]) + b


def elsewhere(s):
    """a good signature in the forms other programs use"""
    r, t = int.from_bytes(s[:32], 'big'), int.from_bytes(s[32:], 'big')
    b = derint(r) + derint(t)
    der = b'\x30' + bytes([len(b)]) + b
    return [der, der + b'\x01', derint(r)[2:] + derint(t)[2:], b'\x1b' + s, s + b'\x1b', b'\x40' + s, b'\x0c\x40' + s, s.hex().encode(), s[31::-1] + s[:31:-1], s[::-1], s[32:] + s[:32],
            b'\0' + s[:32] + b'\0' + s[32:], s.lstrip(b'\0') if s[0] == 0 else s[:32], base64.b64encode(s), der.hex().encode()]


def key_forms(rng, q):
    return [vbytes(c33(q)), vbytes(r64(q)), vpt(*q)]


def programs(prop, tier, rng):
    t = tier == 'thorough'
    out = []
    R = step('Reset')
    v = lambda m, s, k, u, inst=False: step('VerifyInst' if inst else 'Verify', [m, s, k, vint(u)])
    if prop == 'C19':
        for mh, d, _ in special.SIGS:              # halves of the signature with zero bytes at their ends
            m, q = bytes.fromhex(mh), pmul(d)
            p = [R, step('Sign', [vstr(mh), vstr('%064x' % d)])]
            for kf in key_forms(rng, q):
                mf = rng.choice(msg_forms(rng, m))
                p.append(v(mf[0], sig(1), kf, mf[1]))
            wrong = [bytes([b]) + r64(q) for b in rng.sample((0, 1, 2, 3, 5, 8, 9, 20, 68, 132, 255), 2)] + [bytes([b ^ c33(q)[0]]) + c33(q)[1:] for b in rng.sample((2, 4, 6, 8, 16, 64, 128), 2)]
            for w in wrong:                        # a good key behind a first byte that names no form
                p.append(v(vbytes(m), sig(1), vbytes(w), 0))
            out.append(p)
            for want in ('r', 's'):                # the same with signatures made here
                for _ in range(4 if t else 1):
                    while True:
                        d2, k2 = rng.randrange(1, N), rng.randrange(1, N)
                        s = ksign(rng, m, d2, k2)
                        if s[0 if want == 'r' else 32] == 0 or s[31 if want == 'r' else 63] == 0 or rng.random() < 0.003:
                            break
                    q2 = pmul(d2)
                    out.append([R] + [v(mf[0], vbytes(s), kf, mf[1]) for kf in key_forms(rng, q2) for mf in [rng.choice(msg_forms(rng, m))]])
        for sh, ds in special.KEYS.items():        # coordinates with zero bytes at their ends
            for d in (ds if t else ds[:1]):
                m = message(rng)
                q = pmul(d)
                out.append([R, step('Sign', [vstr(hx(m)), vstr('%064x' % d)]), step('NewKey', [vbytes(d.to_bytes(32, 'big'))])] +
                           [v(mf[0], sig(1), kf, mf[1]) for kf in key_forms(rng, q) + [key(1, '33'), key(1, 'pt')] for mf in [rng.choice(msg_forms(rng, m))]])
        for _ in range(600 if t else 60):          # library signatures in all forms
            d, m = privkey(rng), message(rng)
            q = pmul(d)
            h = hx(d.to_bytes(32, 'big'), rng)
            p = [R, step('Sign', [vstr(hx(m, rng)) if rng.random() < 0.8 else vbytes(hx(m).encode()), vstr(h)]), step('NewKey', [vbytes(d.to_bytes(32, 'big'))])]
            forms = [(mf, kf) for mf in msg_forms(rng, m) for kf in key_forms(rng, q) + [key(1, f) for f in ('33', '64', 'pt')]]
            for mf, kf in rng.sample(forms, min(5, len(forms))):
                p.append(v(mf[0], sig(1), kf, mf[1], rng.random() < 0.3))
            if m:                                  # the digits dressed up are no such message
                for c in (clothed(rng, hx(m)), rng.choice((' ', '\n', '\t')) + hx(m), hx(m) + rng.choice((' ', '\n', '\0', '0', 'h')), '0x' + hx(m), ':'.join(re.findall('..', hx(m)))):
                    p.append(v(rng.choice((vstr(c), vbytes(c.encode('utf-8', 'surrogatepass')))), sig(1), rng.choice(key_forms(rng, q)), rng.randrange(4) > 0))
            out.append(p)
        for _ in range(1500 if t else 150):        # signatures made elsewhere, and alterations
            d, m = privkey(rng), message(rng)
            q = pmul(d)
            s = ksign(rng, m, d, rng.choice((None, None, 1, 2, N - 1)))
            p = [R]
            mf = rng.choice(msg_forms(rng, m))
            kf = rng.choice(key_forms(rng, q))
            p.append(v(mf[0], vbytes(s), kf, mf[1]))
            r_, s_ = int.from_bytes(s[:32], 'big'), int.from_bytes(s[32:], 'big')
            two = lambda a, b: (a % 2 ** 256).to_bytes(32, 'big') + (b % 2 ** 256).to_bytes(32, 'big')
            for _ in range(5):
                c = rng.random()
                if c < 0.12:
                    b = bytearray(s)
                    b[rng.randrange(64)] ^= 1 << rng.randrange(8)
                    p.append(v(mf[0], vbytes(b), kf, mf[1]))
                elif c < 0.2:
                    p.append(v(mf[0], vbytes(two(r_, N - s_)), kf, mf[1]))                # also valid
                elif c < 0.34:
                    b = rng.choice((two(0, s_), two(r_, 0), two(0, 0), two(N, s_), two(r_, N), two(r_ + N, s_) if r_ + N < 2 ** 256 else two(N + 1, s_),
                                    two(r_, s_ + N) if s_ + N < 2 ** 256 else two(r_, 2 ** 256 - 1), two(s_, r_), two(2 ** 256 - 1, 2 ** 256 - 1), two(N - r_, s_), two(1, 1)))
                    p.append(v(mf[0], vbytes(b), kf, mf[1]))
                elif c < 0.46:
                    b = rng.choice((s[:63], s + b'\0', b'', s[:32], s + s, b'\0' + s, s[1:], b'\x30\x44\x02\x20' + s[:32] + b'\x02\x20' + s[32:], rng.choice(elsewhere(s))))
                    p.append(v(mf[0], vbytes(b), kf, mf[1]))
                elif c < 0.52:
                    p.append(v(mf[0], rng.choice((NONE, vint(5), vstr(s.hex()), vstr(''), V('list', (), [vint(i) for i in s]))), kf, mf[1]))
                elif c < 0.66:
                    b = bytearray(m) or bytearray(b'\x01')
                    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                    m2 = rng.choice((bytes(b), m + b'\0', m[:-1], b'\0' + m, m[::-1], hashlib.sha256(m).digest()))
                    f2 = rng.choice(msg_forms(rng, m2))
                    p.append(v(f2[0], vbytes(s), kf, f2[1]))
                elif c < 0.7:
                    p.append(v(vstr(hx(m)), vbytes(s), kf, 0))                                # the hexadecimal digits as the message
                elif c < 0.74:
                    p.append(v(rng.choice((NONE, vint(3), vstr('zz'), vstr('abc'), vstr('\u0416'), vbytes(b'abc'), vstr('\ud800'))), vbytes(s), kf, rng.randrange(2)))
                else:
                    x, y = q
                    other = pmul(privkey(rng))
                    raw, com = r64(q), c33(q)
                    b = bytearray(raw)
                    b[rng.randrange(64)] ^= 1 << rng.randrange(8)
                    com2 = bytearray(com)
                    com2[rng.randrange(1, 33)] ^= 1 << rng.randrange(8)
                    k2 = rng.choice((vbytes(c33(other)), vbytes(r64(other)), vpt(*other), vbytes(bytes([5 - com[0]]) + com[1:]), vbytes(r64((x, P - y))),
                                     vpt(x, P - y), vbytes(b), vbytes(com2), vpt(x, (y + 1) % P), vpt((x + 1) % P, y), vpt(0, 0), vpt(2**256, 5), vpt(2**300, 1), vbytes(bytes(64)), vbytes(bytes(33)),
                                     vbytes(bytes([rng.choice((0, 1, 4, 5, 6, 7, 255))]) + com[1:]), vbytes(com[1:]), vbytes(com + b'\0'), vbytes(raw[:-1]), vbytes(raw + b'\0'),
                                     vbytes(b'\x04' + raw), vbytes(bytes([rng.choice((0, 1, 2, 3, 5, 8, 9, 20, 68, 132, 255))]) + raw), vbytes(b''), NONE, vint(7), vstr(com.hex()), vstr(raw.hex()), vbytes(com.hex().encode()), vbytes(b'\x02' + b'\xff' * 32),
                                     vbytes(b'\x03' + P.to_bytes(32, 'big')), vbytes(raw[32:] + raw[:32]), vbytes(raw[::-1]), vbytes(b'\xff' * 64),
                                     vstr('x' * 33), vstr('x' * 64), vbytes(b'\x02' + bytes(32)), vbytes(b'\x03' + bytes(31) + b'\x05')))
                    p.append(v(mf[0], vbytes(s), k2, mf[1], rng.random() < 0.2))
            out.append(p)
        for _ in range(40 if t else 8):            # good signatures, written differently
            d, m = privkey(rng), message(rng)
            s = ksign(rng, m, d)
            for kf in key_forms(rng, pmul(d)):
                mf = rng.choice(msg_forms(rng, m))
                out.append([R] + [v(mf[0], vbytes(b), kf, mf[1]) for b in elsewhere(s) if len(b) != 64 or rng.random() < 0.5])
        for _ in range(200 if t else 24):          # signatures under related keys and messages
            d, m = privkey(rng), message(rng)
            e = int.from_bytes(hashlib.sha256(m).digest(), 'big')
            a, b = rng.randrange(1, N), rng.randrange(1, N)
            q = pmul(d)
            Rp = padd(pmul(a), pmul(b, q))          # r = x(aG + bQ), s = r/b signs e' = ra/b
            r = Rp[0] % N
            s = r * pow(b, -1, N) % N
            p = [R, v(vstr(hx(m)), vbytes(r.to_bytes(32, 'big') + s.to_bytes(32, 'big')), rng.choice(key_forms(rng, q)), 1)]
            # a key for which a given signature of the message holds
            k = pmul(rng.randrange(1, N))
            r = k[0] % N
            s = rng.randrange(1, N)
            ri = pow(r, -1, N)
            Q2 = padd(pmul(s * ri % N, k), pmul(-e * ri % N))
            for kf in key_forms(rng, Q2):
                p.append(v(vstr(hx(m)), vbytes(r.to_bytes(32, 'big') + s.to_bytes(32, 'big')), kf, 1))
            out.append(p)
        for n in ((4096, 65535, 65536, 65537, 70001) if t else (4097, 65537)):     # long messages
            d, m = privkey(rng), rbytes(rng, n)
            q = pmul(d)
            p = [R, step('Sign', [vstr(hx(m)), vstr(hx(d.to_bytes(32, 'big')))])]
            for m2 in (m, m[:-1] + bytes([m[-1] ^ 1]), m[:n // 2] + bytes([m[n // 2] ^ 128]) + m[n // 2 + 1:], m[:-1], m + b'\0'):
                p.append(v(vbytes(m2), sig(1), vbytes(c33(q)), 0))
                if rng.random() < 0.5:
                    p.append(v(vstr(hx(m2)), sig(1), vbytes(r64(q)), 1))
            out.append(p)
    else:
        # the same results whatever came before, longer histories
        for _ in range(500 if t else 60):
            hist = [rng.choice(['NewKey', 'Default', 'Sign', 'Verify33', 'Verify64', 'VerifyPt', 'Restart', 'Foreign', 'Other', 'SignInst', 'Foreign']) for _ in range(rng.randrange(5, 12))]
            out.append(flesh(hist, rng, True))
        out += long_histories(rng, t)
    return out


def long_histories(rng, t):
    """one process, the same few operations again and again"""
    out = []
    d, m = KEYS[0], HMSG[1]
    q = pmul(d)
    sign = lambda i, op='Sign': step(op, [vstr(HMSG[i % 3].hex()), vstr(KEYS[i % 2].to_bytes(32, 'big').hex())])
    fs = vbytes(ksign(rng, m, d))
    bad = vbytes(ksign(rng, m, d)[:-1] + b'\x07')
    ver = lambda j: step('Verify33' if j % 3 else 'Verify64', [vstr(m.hex()), bad if j % 5 == 4 else fs, vbytes(r64(q) if j % 3 == 0 else c33(q)), vint(1)])
    # signing: every message and key again and again
    p = [step('Reset')]
    for j in range(2100 if t else 540):
        p.append(sign(j % 6 // 1 if j % 7 else 0, 'SignInst' if j % 4 == 3 else 'Sign'))
        if j % 50 == 49:
            p.append(ver(j // 50))
    p += [step('Restart')] + [sign(j) for j in range(6)]
    out.append(p)
    out.append([step('Reset')] + [sign(0)] * (2100 if t else 300) + [sign(1)])
    # key pairs and verifications
    for _ in range(3 if t else 1):
        out.append([step('Reset')] + [step('NewKey', [vbytes(d.to_bytes(32, 'big'))]) for j in range(140 if t else 36)])
        out.append([step('Reset')] + [ver(j) for j in range(140 if t else 36)])
        p = [step('Reset')]
        for j in range(120 if t else 34):
            p += [sign(j), [ver(j), step('NewKey', [vbytes(KEYS[j % 3].to_bytes(32, 'big'))]), step('Default'), step('Other'), step('Foreign', [vint(rng.randrange(len(CURVES)))])][rng.randrange(5)]]
        out.append(p)
    return out


# fixed keys and messages of the histories, so that signatures recur
KEYS = [(0x1234567890abcdef << 190) + 77, 3, N - 5]
HMSG = [b'\xaa\xbb', b'message', b'']


def flesh(hist, rng, vary=False):
    """operation names -> steps; a last process repeats the signatures made"""
    p = [step('Reset')]
    nk, signed = 0, []
    made = 0
    pick = lambda: (rng.randrange(3), rng.randrange(3)) if vary else (0, 0)
    ext = {}
    for op in hist:
        ki, mi = pick()
        d, m = KEYS[ki], HMSG[mi]
        q = pmul(d)
        if op == 'NewKey':
            p.append(step('NewKey', [vbytes(d.to_bytes(32, 'big'))]))
            nk += 1
            last = (ki, nk)
        elif op in ('Sign', 'SignInst'):
            p.append(step(op, [vstr(m.hex()), vstr(d.to_bytes(32, 'big').hex())]))
            signed.append((ki, mi))
            made += 1
        elif op in ('Verify33', 'Verify64', 'VerifyPt'):
            if op == 'VerifyPt':
                if not nk:
                    continue
                ki = last[0]
                q = pmul(KEYS[ki])
            mine = [j + 1 for j, s in enumerate(signed) if s == (ki, mi)]
            s = sig(mine[-1]) if mine and rng.random() < 0.7 else vbytes(ksign(rng, m, KEYS[ki]))
            if s['k'] == 'bytes' and rng.random() < 0.3:
                s['v'][40] ^= 1
            k = vbytes(c33(q)) if op == 'Verify33' else vbytes(r64(q)) if op == 'Verify64' else key(last[1], 'pt')
            p.append(step(op, [vstr(m.hex()), s, k, vint(1)]))
        elif op == 'Restart':
            p.append(step(op))
            nk = 0
        elif op == 'Foreign':
            p.append(step(op, [vint(rng.randrange(len(CURVES)))]))
        else:
            p.append(step(op))
    for ki, mi in sorted(set(signed)):
        p += [step('Restart'), step('Sign', [vstr(HMSG[mi].hex()), vstr(KEYS[ki].to_bytes(32, 'big').hex())])]
        p.append(step('Verify33', [vstr(HMSG[mi].hex()), sig(made + 1), vbytes(c33(pmul(KEYS[ki]))), vint(1)]))
        made += 1
        if not vary:
            break
    return p


def expand(prop, tier, progs, rng):
    return [flesh(h, rng) for h in progs] if prop == 'C20' else []


B = 41058363725152142129326129780047268409114441015993725554835256314039467401291
SLIGHT = [(P, N, P - 3, B, 0x7CF27B188D034F7E8A52380304B51AC3C08969E277F21B35A60B48FC47669978, 0x07775510DB8ED040293D9AC69F7430DBBA7DADE63CE982299E04B79D227873D1),   # twice the generator
          (P, N, P - 3, B, G[0], P - G[1]), (P, N - 2, P - 3, B, G[0], G[1]), (P, N, 0, B, G[0], G[1]), (P, N, P - 3, 7, G[0], G[1]), (P - 2, N, P - 3, B, G[0], G[1])]   # one setting differs
CURVES = [(2 ** 256 - 2 ** 32 - 977, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141, 0, 7,
           0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8),
          (2 ** 192 - 2 ** 64 - 1, 0xffffffffffffffffffffffff99def836146bc9b1b4d22831, 2 ** 192 - 2 ** 64 - 4, 0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1,
           0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012, 0x07192b95ffc8da78631011ed6b24cdd573f977a11e794811),
          (P, N, P - 3, 7, G[0], G[1]),
          (23, 28, 1, 1, 3, 10)] + SLIGHT


def segment(steps, sigs):
    """run the steps of one process; returns events and the signatures made"""
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve
    import bitcoin
    import binascii
    events, keys, points = [], [], {}
    for n, p in enumerate(steps):
        op = p['op']
        if op in ('Reset', 'Restart'):
            events.append({'op': op, 'a': [], 'r': NONE})
            continue
        given, a = [], []
        skip = False
        for v in p['a']:
            k = v['k']
            if k == 'sig':
                if v['v'][0] > len(sigs):
                    skip = True
                    break
                a.append(bytearray(sigs[v['v'][0] - 1]))
                given.append(vbytes(sigs[v['v'][0] - 1]))
            elif k.startswith('key'):
                if v['v'][0] > len(keys):
                    skip = True
                    break
                q = keys[v['v'][0] - 1].PublicKey
                if k == 'keypt':
                    a.append(q)
                    given.append(V('pt', (), [canon(q.x.value), canon(q.y.value)]))
                else:
                    b = binascii.unhexlify(q.encode_point(k == 'key33'))
                    a.append(b if k == 'key33' else b[1:])
                    given.append(vbytes(a[-1]))
            elif k == 'pt':
                x, y = unz(v['c'][0]['v']), unz(v['c'][1]['v'])
                a.append(ECDSA.secp256r1().Curve.point(x, y))
                given.append(v)
            else:
                given.append(v)
                if k == 'bytes':
                    a.append(bytes(v['v']) if n % 3 else bytearray(v['v']))
                elif k == 'str':
                    a.append(''.join(map(chr, v['v'])))
                elif k == 'int':
                    a.append(unz(v['v']))
                elif k == 'list':
                    a.append([unz(c['v']) for c in v['c']])
                else:
                    a.append(None)
        if skip:
            break

        def run():
            if op == 'Foreign':
                bitcoin.change_curve(*CURVES[a[0]])
                return None
            if op == 'Other':
                e = ECDSA.secp256k1()
                e.calcpub(7)
                return None
            if op == 'Default':
                Crypto.Default()
                return None
            if op == 'NewKey':
                return KeyPair(a[0])
            if op == 'Sign':
                return Crypto.Sign(a[0], a[1])
            if op == 'SignInst':
                return Crypto.Default().Sign(a[0], a[1])
            f = Crypto.Default().VerifySignature if op == 'VerifyInst' else Crypto.VerifySignature
            return f(a[0], a[1], a[2]) if a[3] == 1 and n % 2 else f(a[0], a[1], a[2], unhex=bool(a[3]))
        r, e = vlib.call(run)
        ev = {'op': op, 'a': given, 'w': 2500 if op[0] in 'VS' else 1000}
        if e:
            ev['r'] = V('timeout') if e == 'TIMEOUT' else V('err')
        elif op == 'NewKey':
            keys.append(r)
            ev['r'] = V('key', (), [canon(r.PrivateKey), canon(r.PublicKey.x.value), canon(r.PublicKey.y.value)])
        else:
            ev['r'] = canon(r)
            if op in ('Sign', 'SignInst'):
                sigs.append(list(bytes(r)) if isinstance(r, (bytes, bytearray)) else [])
        events.append(ev)
        if e == 'TIMEOUT':
            break
    return events, sigs


def execute(program):
    segs, cur = [], []
    for p in program:
        if p['op'] == 'Restart':
            segs.append(cur)
            cur = []
        cur.append(p)
    segs.append(cur)
    events, sigs = [], []
    for s in segs:
        if len(s) <= 1 and not events and s and s[0]['op'] != 'Reset':
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = segment(s, sigs)
                except Exception as e:
                    import traceback
                    out = {'crash': '%s: %s' % (type(e).__name__, e), 'at': traceback.format_exc()[-1500:]}
                with os.fdopen(w, 'w') as f:
                    json.dump(out, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        out = json.loads(data)
        if isinstance(out, dict):
            raise RuntimeError(out['crash'] + out['at'])
        events += out[0]
        sigs = out[1]
        if out[0] and out[0][-1]['r']['k'] == 'timeout':
            break
    return events


def corrupt(events, rng):
    idx = [i for i in range(1, len(events)) if events[i]['op'] not in ('Restart',) and events[i]['r']['k'] != 'err']
    if not idx:
        return None
    i = rng.choice(idx)
    ev = copy.deepcopy(events[i])
    r = ev['r']
    if ev['op'].startswith('Verify'):
        k, m = ev['a'][2], ev['a'][0]
        if (k['k'] == 'bytes' and len(k['v']) == 65) or (m['k'] == 'str' and ev['a'][3]['v'] == [0, 1] and not is_hex(''.join(map(chr, m['v'])).encode('utf-8', 'replace'))):
            return None
        ev['r'] = V('err') if rng.random() < 0.3 else vbool(len(r['v']) == 1)
    elif ev['op'] in ('Sign', 'SignInst'):
        c = rng.random()
        if c < 0.3:
            ev['r'] = V('err')
        elif c < 0.5:
            r['v'] = r['v'][:-1]
        else:
            r['v'][rng.randrange(64)] ^= 1 << rng.randrange(8)
    elif ev['op'] == 'NewKey' and r['k'] == 'key':
        r['c'][rng.randrange(3)]['v'][-1] ^= 1
    else:
        ev['r'] = V('err')
    return events[:i] + [ev]
