"""Key pairs, addresses, WIF, NEP-2 and hash helpers (C15-C18, C27): programs for
NeoKey.tla and their execution with the real library."""
import copy
import hashlib
import io
import contextlib

from canon import NONE, V, canon, unz, vbytes, vint, vstr, vbool
import special
from clothed import clothed
import vlib

TRACE = 'TraceKey'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C15', 'C16', 'C17', 'C18', 'C27']
N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
P = 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF
G = (0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
     0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5)
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
NEAR = B58 + '0OIl+/ _-'
ASSUMPTIONS = {'C17': ['Unicode NFC is evaluated by the JDK (Unicode 13); passphrases stay within characters both versions know']}


def base58(b):
    n, out = int.from_bytes(b, 'big'), ''
    while n:
        n, d = divmod(n, 58)
        out = B58[d] + out
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + out


def check58(b, bad=0):
    c = bytearray(hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4])
    if bad:
        c[bad % 4] ^= bad
    return base58(bytes(b) + bytes(c))


def padd(a, b):
    if a is None or b is None:
        return a or b
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, P)
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P)
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def pmul(k, a=G):
    r = None
    while k:
        if k & 1:
            r = padd(r, a)
        a = padd(a, a)
        k >>= 1
    return r


def mc58(maxlen, bs, cs):
    return dict(module='MCBase58', workers=1, cfg='''CONSTANTS MaxLen = %d
 ByteSet = {%s}
 CharSet = {%s}
INIT Init
NEXT Next
INVARIANTS BytesBack TextBack CheckBack Checked
''' % (maxlen, bs, cs))


def mc(depth, keys, emit, ops, kinds='{0}', places='{0}', workers=2):
    return dict(module='MCKey', workers=workers, cfg='''CONSTANTS Depth = %d
 MaxKeys = %d
 EmitEvery = %d
 Ops = {%s}
 Kinds = %s
 Places = %s
INIT Init
NEXT Next
INVARIANTS Sound OneToOne OneText AlteredRefused ReadBack Emit
PROPERTY OnlyGrows
''' % (depth, keys, emit, ','.join('"%s"' % o for o in ops.split()), kinds, places))


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    b58 = mc58(4 if t else 3, '0, 1, 57, 58, 255', '48, 49, 50, 65, 73, 122')
    if prop == 'C15':
        return [b58, mc(4, 1, 1 if t else 3, 'key address alter', '{0,1,2,3,4,5}', '{0,1,16,33}' if t else '{0,17,33}'),
                mc(4, 0, 23 if t else 40, 'print alter', '{0,1,2,4}' if t else '{0,1,2}', '{0,1,40}' if t else '{1,40}')]
    if prop == 'C16':
        return [b58, mc(4, 1, 1 if t else 3, 'key wif alter refs', '{0,1,2,3,4,5}', '{0,1,7,33,51}' if t else '{0,7,51}'),
                mc(5 if t else 4, 2, 41 if t else 3, 'key wif refs')]
    if prop == 'C17':
        return [mc(3, 1, 1 if t else 2, 'key nep2 alter', '{0}', '{3}'),
                mc(4, 1, 40 if t else 80, 'key nep2 alter refs', '{0,1,2}', '{3,57}')]
    if prop == 'C18':
        return [mc(3, 3, 1 if t else 3, 'key bad long address', workers=4), mc(4, 1, 7 if t else 20, 'key wif address refs')]
    return [dict(module='MCHelp', workers=1, cfg='''CONSTANTS MaxLen = %d
 Alpha = {%s}
INIT Init
NEXT Next
INVARIANTS XorLaw SwapLaw WidthLaw HexLaw BitLaw HashLaw Emit
''' % (3, '0, 1, 97, 200, 255' if t else '0, 48, 255'))]


def step(op, x='', t=0, a=()):
    return {'op': op, 'x': x, 't': t, 'a': list(a)}


def ref(i):
    return V('ref', [i])


def rbytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


LOOKALIKES = [('o', '0'), ('o', 'O'), ('1', 'I'), ('1', 'l'), ('i', 'l'), ('L', 'l'), ('i', 'I'), ('Q', 'O'), ('o', '\u043e'), ('A', '\u0410'), ('2', '\uff12')]


def near(rng, s, valid=lambda t: True):
    """a text close to s"""
    if rng.random() < 0.2:
        return clothed(rng, s)
    if rng.random() < 0.1:                        # letters that look alike: base58 leaves 0, O, I and l out
        for a, b in rng.sample(LOOKALIKES, len(LOOKALIKES)):
            if a in s:
                return s.replace(a, b, rng.choice((1, -1)))
    s = list(s)
    c = rng.random()
    i = rng.randrange(len(s)) if s else 0
    if c < 0.45:
        s[i] = rng.choice(NEAR)
    elif c < 0.6:
        s.insert(i, rng.choice(NEAR))
    elif c < 0.72:
        del s[i]
    elif c < 0.82 and i + 1 < len(s):
        s[i], s[i + 1] = s[i + 1], s[i]
    elif c < 0.88:
        s.append(rng.choice('\n\t 1z\u3000'))
    elif c < 0.92:
        s.insert(0, rng.choice(' 1A\n'))
    elif c < 0.95:
        s[i] = rng.choice('\u0416\xe9\ud800\U0001F600')
    elif c < 0.98:
        s[i] = s[i].swapcase()
    else:
        s = s[:i]
    return ''.join(s)


def privkey(rng):
    c = rng.random()
    if c < 0.1:
        n = rng.choice(rng.choice(list(special.KEYS.values())))
    elif c < 0.2:
        n = rng.choice((1, 2, 3, 255, 256, 2 ** 128, 2 ** 248 - 1, 2 ** 247, 2 ** 240 + 5, N - 1, N - 2, N // 2, N // 2 + 1, 2 ** 255))
    elif c < 0.4:
        n = rng.randrange(1, 1 << rng.choice((8, 64, 200, 240, 248)))
    else:
        n = rng.randrange(1, N)
    return n.to_bytes(32, 'big')


def hashes(rng):
    c = rng.random()
    if c < 0.15:
        return bytes([rng.choice((0, 1, 255))]) * 20
    if c < 0.3:
        return bytes(rng.randrange(1, 19)) .ljust(20, b'\x7f') if rng.random() < 0.5 else rbytes(rng, 10) + bytes(10)
    return rbytes(rng, 20)


def addr_texts(rng, n):
    """texts around addresses"""
    out = []
    for _ in range(n):
        h = hashes(rng)
        a = check58(b'\x17' + h)
        c = rng.random()
        if c < 0.12:
            out.append(a)
        elif c < 0.5:
            out.append(near(rng, a))
        elif c < 0.62:                        # another version byte, correct checksum
            out.append(check58(bytes([rng.choice((0, 1, 22, 24, 23 ^ 128, 53, rng.randrange(256)))]) + h))
        elif c < 0.72:                        # another length, correct checksum
            out.append(check58(b'\x17' + rbytes(rng, rng.choice((0, 1, 18, 19, 21, 22, 32)))))
        elif c < 0.84:                        # one bit of the checksum or of the payload
            if rng.random() < 0.5:
                out.append(check58(b'\x17' + h, 1 << rng.randrange(8) | rng.randrange(4)))
            else:
                b = bytearray(25)
                b[:] = b'\x17' + h + hashlib.sha256(hashlib.sha256(b'\x17' + h).digest()).digest()[:4]
                b[rng.randrange(25)] ^= 1 << rng.randrange(8)
                out.append(base58(bytes(b)))
        elif c < 0.88:                        # checksum of a single hash / swapped checksum
            b = b'\x17' + h
            d = hashlib.sha256(b).digest()[:4] if rng.random() < 0.5 else hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4][::-1]
            out.append(base58(b + d))
        elif c < 0.92:                        # version byte elsewhere: longer payload that starts or ends like an address
            out.append(rng.choice((check58(b'\0\x17' + h), check58(b'\x17\0' + h), check58(b'\x17' + h + b'\0'))))
        elif c < 0.96:
            out.append(''.join(rng.choice(B58) for _ in range(rng.choice((1, 33, 34, 35)))))
        else:
            out.append(rng.choice(('', '1', 'A', ' ', '\n', 'A' * 34, 'A' + '1' * 33, '1' * 25, '1' * 34, '0' * 34, '\u0410' + a[1:])))
    return out


def hash_texts(rng, n):
    """printed forms of script hashes and texts around them"""
    out = []
    for _ in range(n):
        h = hashes(rng)
        s = rng.choice((h.hex(), '0x' + h.hex(), h.hex().upper(), '0x' + h.hex().upper()))
        c = rng.random()
        if c < 0.4:
            out.append(s)
        elif c < 0.55:
            out.append(s[:-1] if c < 0.45 else s + '0' if c < 0.5 else s[2:])
        elif c < 0.7:
            i = rng.randrange(len(s))
            out.append(s[:i] + rng.choice('gGxX zZ-+_\n\u0663') + s[i + 1:])
        elif c < 0.8:
            out.append(rng.choice(('0X', '0x0x', '00', 'x', ' ', '0x ')) + h.hex())
        elif c < 0.85:
            out.append(s + rng.choice((' ', '\n', '00', '0x')))
        elif c < 0.88:
            out.append(clothed(rng, s))
        elif c < 0.91:
            out.append('0x' + ' '.join(h.hex()[i:i + 2] for i in range(0, 28, 2))[:40])
        else:
            out.append(rng.choice(('', '0x', '0', '00', '0x' + '0' * 39, '0x' + '0' * 41, '0' * 39, '0' * 42, '0x' + '0' * 38, '0' * 64, 'hello', '0x' + 'g' * 40)))
    return out


PASS = ['ab', 'TestingOneTwoThree', 'Satoshi', 'p\xe9', 'pe\u0301', '\u03d2\u0301\0\U00010400\U0001F4A9', '\u03d3\0\U00010400\U0001F4A9',
        '\u1e9b\u0323', '\u017f\u0323\u0307', '\u212bngstr\xf6m', 'A\u030angstro\u0308m', '\xc5ngstr\xf6m', '\uac00\uac01', '\u1100\u1161\u1100\u1161\u11a8',
        'q\u0307\u0323', 'q\u0323\u0307', '  ', 'pass phrase ', ' pass phrase', 'pass phrase', '\u00a0\u00a0', 'Ab', 'AB', 'aB', '\ufb01x', 'fix', '\uff21b',
        '\0\0', 'x' * 100, '\u4e2d\u6587\u5bc6\u7801', '\u2126x', '\u03a9x', 'a\u0301b', '\xe1b', 'a\u0300\u0301', '\xe0\u0301']
EQUIV = [('p\xe9', 'pe\u0301'), ('\u212bngstr\xf6m', 'A\u030angstro\u0308m'), ('\uac00\uac01', '\u1100\u1161\u1100\u1161\u11a8'),
         ('q\u0307\u0323', 'q\u0323\u0307'), ('\u2126x', '\u03a9x'), ('\u1e9b\u0323\u1e9b', '\u017f\u0323\u0307\u1e9b'), ('a\u0301b', '\xe1b')]
DIFF = [('\ufb01x', 'fix'), ('Ab', 'ab'), ('pass phrase ', 'pass phrase'), ('\uff21b', 'Ab'), ('a\u0300\u0301', 'a\u0301\u0300'), ('x\u0131', 'xi'), ('ss!', '\xdf!'),
        ('ab', 'ab\0'), ('ab\n', 'ab'), ('\ufeffab', 'ab'), ('a\0b', 'a'), ('a\0bc', 'a\0bd'), ('ab', 'ab\0c'), ('abc', 'abc\ndef'), ('p' * 64 + 'a', 'p' * 64 + 'b'), ('p' * 72, 'p' * 73),
        ('p' * 128 + 'a', 'p' * 128 + 'b'), ('\u4e2d' * 90 + 'a', '\u4e2d' * 90 + 'b'), ('p' * 1024 + 'a', 'p' * 1024 + 'b'), ('\U0001F4A9x', '\U0001F4AAx'),
        ('abcdefgh' * 9, 'abcdefgh' * 8), ('12', '1 2'), ('x\xady', 'xy'), ('a\u0301', '\u0301a'), ('x\u200bq', 'xq'), ('p\xe9', 'pe')]


def programs(prop, tier, rng):
    t = tier == 'thorough'
    out = []
    R = step('Reset')
    if prop == 'C15':
        for _ in range(400 if t else 60):
            p = [R]
            for s in addr_texts(rng, 10):
                p.append(step(rng.choice(('Valid', 'Valid', 'A2S')), '', 0, [vstr(s)]))
                if rng.random() < 0.3:
                    p.append(step('A2S', '', 0, [vstr(s)]))
            out.append(p)
        for _ in range(200 if t else 30):
            out.append([R] + [step('S2A', '', 0, [vstr(s)]) for s in hash_texts(rng, 10)])
        for _ in range(200 if t else 30):
            p = [R]
            n = 0
            for _ in range(3):
                h = hashes(rng)
                p += [step('ToAddress', rng.choice(('crypto', 'helper')), 0, [vbytes(h)]), step('Valid', '', 0, [ref(n + 1)]), step('A2S', '', 0, [ref(n + 1)]),
                      step('Print', '', 0, [ref(n + 2), vint(0)]), step('Print', '', 0, [ref(n + 2), vint(1)]),
                      step('S2A', '', 0, [ref(n + 3)]), step('S2A', '', 0, [ref(n + 4)])]
                n += 6
            out.append(p)
        for pos in (0, 3):                     # checksums with a zero byte at either end
            for _ in range(8 if t else 2):
                h = next(h for h in iter(lambda: rbytes(rng, 20), None) if hashlib.sha256(hashlib.sha256(b'\x17' + h).digest()).digest()[pos] == 0)
                a = check58(b'\x17' + h)
                out.append([R, step('ToAddress', 'crypto', 0, [vbytes(h)]), step('ToAddress', 'helper', 0, [vbytes(h)]), step('Valid', '', 0, [ref(1)]), step('A2S', '', 0, [ref(2)]),
                            step('S2A', '', 0, [vstr('0x' + h[::-1].hex())])] + [step(op, '', 0, [vstr(near(rng, a))]) for op in ('Valid', 'A2S', 'Valid')])
        # every character of an address replaced
        a = check58(b'\x17' + rbytes(rng, 20))
        for i in range(34):
            cs = rng.sample(B58, 20 if t else 5)
            out.append([R] + [step(op, '', 0, [vstr(a[:i] + ch + a[i + 1:])]) for ch in cs for op in ('Valid', 'A2S')])
        out.append([R] + [step(op, '', 0, [vstr(check58(bytes([v]) + bytes(20)))]) for v in range(256) for op in ('Valid', 'A2S')])
    elif prop == 'C16':
        for _ in range(300 if t else 60):
            p = [R]
            n = 0
            for k in range(2):
                pr = privkey(rng)
                p += [step('NewKey' if rng.random() < 0.5 else 'NewKeyBuf', '', 0, [vbytes(pr)]), step('Export', '', k + 1), step('FromWIF', '', 0, [ref(n + 1)])]
                n += 2
            p += [step('Export', '', 1), step('Export', '', 2)]
            out.append(p)
        for _ in range(500 if t else 70):
            p = [R]
            for _ in range(12):
                pr = privkey(rng) if rng.random() < 0.8 else rng.choice((bytes(32), N.to_bytes(32, 'big'), b'\xff' * 32))
                good = b'\x80' + pr + b'\x01'
                c = rng.random()
                if c < 0.15:
                    s = check58(good)
                elif c < 0.45:
                    s = near(rng, check58(good))
                elif c < 0.55:
                    s = check58(bytes([rng.choice((0x81, 0, 0x7f, 0xef, 0x80 ^ 1 << rng.randrange(8), 128))]) + pr + b'\x01')
                elif c < 0.63:
                    s = check58(b'\x80' + pr + bytes([rng.choice((0, 2, 3, 129, 255))]))
                elif c < 0.7:
                    s = rng.choice((check58(b'\x80' + pr), check58(good + b'\x01'), check58(b'\x80' + pr[:31] + b'\x01'), check58(b'\x80' + pr + b'\0\x01')))
                elif c < 0.85:
                    b = bytearray(good + hashlib.sha256(hashlib.sha256(good).digest()).digest()[:4])
                    b[rng.randrange(38) if rng.random() < 0.5 else rng.randrange(34, 38)] ^= 1 << rng.randrange(8)
                    s = base58(bytes(b))
                elif c < 0.92:
                    s = check58(good, 1 << rng.randrange(8) | rng.randrange(4))
                elif c < 0.96:
                    d = rng.choice((hashlib.sha256(good).digest()[:4], hashlib.sha256(hashlib.sha256(good[1:]).digest()).digest()[:4],
                                    hashlib.sha256(hashlib.sha256(good[:33]).digest()).digest()[:4], hashlib.sha256(hashlib.sha256(good).digest()).digest()[-4:]))
                    s = base58(good + d)
                else:
                    s = rng.choice(('', '1' * 52, 'K' * 52, 'L' * 51, '\u0416' * 52, ' ' * 52, 'z' * 52))
                p.append(step('FromWIF', '', 0, [vstr(s)]))
            out.append(p)
        for sh, ds in special.KEYS.items():
            if sh[0] in 'wxy':
                for d in ds if t else ds[:1]:
                    out.append([R, step('NewKey', '', 0, [vbytes(d.to_bytes(32, 'big'))]), step('Export', '', 1), step('FromWIF', '', 0, [ref(1)])])
        for k in (1, 2 ** 248 - 1, 2 ** 240, 2 ** 255, 256, N - 1, 0xff << 248 if 0xff << 248 < N else N - 256):      # zero bytes at the ends of the key
            out.append([R, step('NewKey', '', 0, [vbytes(k.to_bytes(32, 'big'))]), step('Export', '', 1), step('FromWIF', '', 0, [ref(1)])])
        w = check58(b'\x80' + privkey(rng) + b'\x01')
        for i in range(52):
            out.append([R] + [step('FromWIF', '', 0, [vstr(w[:i] + ch + w[i + 1:])]) for ch in (B58 if t else rng.sample(B58, 8))])
    elif prop == 'C17':
        def export(pr, pw):
            return [R, step('NewKey', '', 0, [vbytes(pr)]), step('ExportNEP2', '', 1, [vstr(pw)])]
        for a, b in EQUIV + [(b, a) for a, b in EQUIV]:
            out.append(export(privkey(rng), a) + [step('FromNEP2', '', 0, [ref(1), vstr(b)])])
        for a, b in DIFF:
            out.append(export(privkey(rng), a) + [step('FromNEP2', '', 0, [ref(1), vstr(b)])])
        for a, b in DIFF if t else rng.sample(DIFF, 8):
            if len(b) > 1:
                out.append(export(privkey(rng), b) + [step('FromNEP2', '', 0, [ref(1), vstr(b)]), step('FromNEP2', '', 0, [ref(1), vstr(a)])])
        for _ in range(40 if t else 8):             # a passphrase dressed up is another passphrase
            pw = rng.choice(('ab', 'Satoshi', 'correct horse', 'p\xe9x'))
            out.append(export(privkey(rng), pw) + [step('FromNEP2', '', 0, [ref(1), vstr(clothed(rng, pw))]), step('FromNEP2', '', 0, [ref(1), vstr(pw)])])
        for pw in (PASS if t else rng.sample(PASS, 8)):
            out.append(export(privkey(rng), pw) + [step('FromNEP2', '', 0, [ref(1), vstr(pw)])])
        for pr in (1, 2 ** 200, 255, N - 1):
            out.append(export(pr.to_bytes(32, 'big'), rng.choice(PASS)) + [step('Export', '', 1), step('FromWIF', '', 0, [ref(2)])])
        for pw in ('', 'a', '\xe9', 'e\u0301', '\ud800\ud801', 'ab\udfff', '\U0001F4A9', '\u1100\u1161'):
            out.append(export(privkey(rng), pw))
            out.append(export(privkey(rng), 'abc') + [step('FromNEP2', '', 0, [ref(1), vstr(pw)])])
        for sh in ('ah0', 'ah_0', 'c0', 'x0even', 'y0') if t else ('ah0', 'ah_0'):      # zero bytes in what enters the derivation
            for d in special.KEYS[sh] if t else special.KEYS[sh][:1]:
                out.append(export(d.to_bytes(32, 'big'), rng.choice(PASS)) + [step('FromNEP2', '', 0, [ref(1), vstr('not it')])])
        # altered payloads under a correct checksum, altered texts
        for _ in range(200 if t else 40):
            pr, pw = privkey(rng), rng.choice(PASS)
            body = bytearray(b'\x01\x42\xe0' + rbytes(rng, 36))
            c = rng.random()
            if c < 0.3:
                body[rng.randrange(3)] ^= 1 << rng.randrange(8)
                s = check58(body)
            elif c < 0.4:
                s = check58(bytes(body) + b'\0') if c < 0.35 else check58(bytes(body[:-1]))
            elif c < 0.5:
                s = check58(b'\x01\x43\xe0' + bytes(36))
            elif c < 0.6:
                s = check58(b'\x01\x42' + bytes([rng.choice((0xc0, 0xe4, 0xe8, 0x20))]) + rbytes(rng, 36))
            elif c < 0.95:
                s = near(rng, check58(body))
                if rng.random() < 0.2:
                    s = check58(body, 1 << rng.randrange(8) | 1)
            else:
                s = rng.choice(('', '1' * 58, '6P' * 29, '6' * 58, '\u0416' * 58, check58(body)[:57]))
            out.append([R, step('FromNEP2', '', 0, [vstr(s), vstr(pw)])])
        import nep2cases
        for s, pw, mods in nep2cases.cases(rng, 60 if t else 12):
            out.append([R] + [step('FromNEP2', '', 0, [vstr(x), vstr(pw)]) for x in mods])
    elif prop == 'C18':
        for _ in range(1500 if t else 160):
            p = [R]
            n = 0
            for _ in range(rng.randrange(1, 4)):
                pr = privkey(rng)
                form = rng.choice((32, 32, 96, 104))
                if form != 32:
                    x, y = pmul(int.from_bytes(pr, 'big'))
                    pr = rbytes(rng, form - 96) + x.to_bytes(32, 'big') + y.to_bytes(32, 'big') + pr
                p.append(step(rng.choice(('NewKey', 'NewKeyBuf')), '', 0, [vbytes(pr)]))
                n += 1
                p.append(step('Address', '', rng.randrange(1, n + 1)))
                if rng.random() < 0.3:
                    p.append(step('NewKey', '', 0, [vbytes(pr[-32:])]))
                    n += 1
                    p.append(step('Address', '', n))
            out.append(p)
        for sh, ds in special.KEYS.items():
            for d in ds:
                pr = d.to_bytes(32, 'big')
                x, y = pmul(d)
                p = [R, step('NewKey', '', 0, [vbytes(pr)]), step('Address', '', 1)]
                for form in (96, 104):
                    p += [step('NewKey', '', 0, [vbytes(bytes(form - 96) + x.to_bytes(32, 'big') + y.to_bytes(32, 'big') + pr)])]
                out.append(p + [step('Address', '', 2), step('Address', '', 3)])
        for k in list(range(0, 20)) + [N - 3, N - 2, N - 1, N, N + 1, N + 2, 2 ** 256 - 1, P, P - 1, 2 ** 255, 2 ** 255 - 1]:
            k %= 2 ** 256
            out.append([R, step('NewKey', '', 0, [vbytes(k.to_bytes(32, 'big'))]), step('Address', '', 1)][:3 if 0 < k < N else 2])
            if k >= N or not k:
                for form in (96, 104):
                    x, y = pmul(k % N) or (0, 0)
                    out.append([R, step('NewKey', '', 0, [vbytes(bytes(form - 96) + x.to_bytes(32, 'big') + y.to_bytes(32, 'big') + k.to_bytes(32, 'big'))])])
        for n in list(range(0, 130)) + [160, 200, 255, 256, 1000]:
            if n not in (32, 96, 104):
                out.append([R, step('NewKey', '', 0, [vbytes(rbytes(rng, n))]), step('NewKeyBuf', '', 0, [vbytes(b'\x01' * n)])])
    elif prop == 'C27':
        XS = ['Crypto.Hash160', 'bin_hash160', 'Crypto.Hash160Bytes', 'bin_hash160Bytes', 'inst.Hash160', 'redeem_to_scripthash', 'Crypto.Hash256', 'bin_dbl_sha256', 'inst.Hash256',
              'double_sha256']
        for n in sorted(set(list(range(0, 70)) + [111, 112, 118, 119, 120, 127, 128, 129, 191, 192, 255, 256, 1000, 4096])):
            b = rbytes(rng, n) if n % 3 else bytes([rng.choice((0, 255, 97))]) * n
            out.append([R] + [step('Hash', x, 0, [vbytes(b)]) for x in XS] + [step('ToScriptHash', '', 0, [vbytes(b), vint(0)]),
                       step('ToScriptHash', '', 0, [vbytes(b.hex().encode()), vint(1)])] + ([step('ToScriptHash', 'str', 0, [vstr(b.hex().upper()), vint(1)])] if n else []))
        for n in (4095, 8192, 65534, 65535, 65536, 65537, 70000, 131073) + ((262145, 1 << 20, (1 << 20) + 1) if t else ()):
            b = rbytes(rng, n)
            out += [[R] + [step('Hash', x, 0, [vbytes(b)]) for x in XS], [R, step('ToScriptHash', '', 0, [vbytes(b), vint(0)]),
                    step('ToScriptHash', '', 0, [vbytes(b.hex().encode()), vint(1)]), step('ToScriptHash', 'str', 0, [vstr(b.hex()), vint(1)])]]
        for _ in range(600 if t else 60):
            p = [R]
            for _ in range(12):
                c = rng.random()
                b = rbytes(rng, rng.choice((0, 1, 2, 3, 20, 32, 33, 35, 64, 100)))
                if c < 0.2:
                    p.append(step('Hash', rng.choice(XS), 0, [vbytes(b)]))
                elif c < 0.3:
                    h = b.hex().encode()
                    if rng.random() < 0.4:
                        h = h[:-1] if rng.random() < 0.5 else h + rng.choice((b'g', b'zz', b' ', b'0'))
                    p.append(step('ToScriptHash', '', 0, [vbytes(h), vint(1)]))
                elif c < 0.36:
                    p.append(step('ToScriptHash', '', 0, [vbytes(b.hex().encode() if rng.random() < 0.5 else b), vint(0)]))
                elif c < 0.5:
                    pk = rbytes(rng, rng.choice((33, 33, 33, 0, 1, 65)))
                    h = pk.hex().encode()
                    p.append(step(rng.choice(('pubkey_to_redeem', 'pubkey_to_pubhash')), '', 0, [vbytes(h if rng.random() < 0.9 else h[1:] + b'')]))
                elif c < 0.65:
                    n = rng.choice((0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 64, rng.getrandbits(160), 2 ** 256 - 1, -1, -256, rng.getrandbits(24)))
                    p.append(step('base256', '', 0, [vint(n), vint(rng.choice((0, 0, 1, 2, 3, 8, 20, 32, 40)))]))
                elif c < 0.8:
                    m = len(b) if rng.random() < 0.7 else rng.choice((0, 1, 2, len(b) + 1, max(0, len(b) - 1), 32))
                    p.append(step('xor', '', 0, [vbytes(b), vbytes(rbytes(rng, m) if rng.random() < 0.9 else b)]))
                elif c < 0.92:
                    p.append(step('swap32', '', 0, [vint(rng.choice((0, 1, 255, 256, 2 ** 24, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40, -1, rng.getrandbits(32), rng.getrandbits(16))))]))
                elif c < 0.97:
                    w = rng.choice((20, 32))
                    p.append(step('bits', '', 0, [vint(rng.choice((0, 1, 123, 2 ** w - 1, 2 ** (w - 1), rng.getrandbits(w)))), vint(w)]))
                else:
                    p.append(step('random_key'))
            out.append(p)
        for ms in special.MSGS.values():       # digests with zero bytes at their ends
            for m in ms:
                b = bytes.fromhex(m)
                out.append([R] + [step('Hash', x, 0, [vbytes(b)]) for x in XS] + [step('ToScriptHash', '', 0, [vbytes(b), vint(0)]), step('ToScriptHash', '', 0, [vbytes(m.encode()), vint(1)])])
        for sh in ('h0', 'h_0', 'x0even', 'x0odd', 'x00', 'y0'):
            for d in special.KEYS[sh]:
                x, y = pmul(d)
                pk = (bytes([2 + y % 2]) + x.to_bytes(32, 'big')).hex().encode()
                out.append([R, step('pubkey_to_redeem', '', 0, [vbytes(pk)]), step('pubkey_to_pubhash', '', 0, [vbytes(pk)])])
        out.append([R] + [step('random_key')] * 20)
    return out


def expand(prop, tier, progs, rng):
    return [[step('Reset')] + p for p in progs]


def alter(t, kind, pos, ch):
    if not t:
        return chr(ch)
    i = pos % len(t)
    if kind == 0:
        return t[:i] + chr(ch) + t[i + 1:]
    if kind == 1:
        return t[:i] + chr(ch) + t[i:]
    if kind == 2:
        return t[:i] + t[i + 1:]
    if kind == 3:
        return t if i + 1 == len(t) else t[:i] + t[i + 1] + t[i] + t[i + 2:]
    if kind == 4:
        return t + chr(ch)
    return t[:i]


def snap(k):
    try:
        x, y = k.PublicKey.x.value, k.PublicKey.y.value
        return V('key', (), [canon(k.PrivateKey), canon(x), canon(y), canon(k.PublicKeyHash), canon(k.PublicKey.encode_point(True))])
    except Exception:
        return V('broken')


def execute(program):
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography import Helper
    from neocore.UInt160 import UInt160
    from neocore.Utils import isValidPublicAddress
    from neocore.IO import BinaryWriter as BW
    from neocore.bin import cli
    from neocore.bin.cli import ConversionError
    events, keys, vals = [], [], []
    fns = {'Crypto.Hash160': Crypto.Hash160, 'bin_hash160': Helper.bin_hash160, 'Crypto.Hash160Bytes': Crypto.Hash160Bytes,
           'bin_hash160Bytes': Helper.bin_hash160Bytes, 'inst.Hash160': lambda m: Crypto.Default().Hash160(m), 'redeem_to_scripthash': Helper.redeem_to_scripthash,
           'Crypto.Hash256': Crypto.Hash256, 'bin_dbl_sha256': Helper.bin_dbl_sha256, 'inst.Hash256': lambda m: Crypto.Default().Hash256(m), 'double_sha256': Helper.double_sha256}

    def arg(x, n):
        if x['k'] == 'ref':
            return vals[x['v'][0] - 1]
        if x['k'] == 'int':
            return unz(x['v'])
        if x['k'] == 'bytes':
            return bytes(x['v'])
        return ''.join(map(chr, x['v']))

    for n, p in enumerate(program):
        op, x, t = p['op'], p['x'], p['t']
        if op == 'Reset':
            keys, vals = [], []
            events.append({'op': op, 'r': NONE})
            continue
        a = [arg(v, n) for v in p['a']]

        def run():
            if op == 'NewKey':
                return KeyPair(a[0])
            if op == 'NewKeyBuf':
                buf = bytearray(a[0])
                k = KeyPair(buf)
                for i in range(len(buf)):
                    buf[i] = 0xaa
                return k
            if op == 'Address':
                return keys[t - 1].GetAddress()
            if op == 'Export':
                return keys[t - 1].Export()
            if op == 'ExportNEP2':
                return keys[t - 1].ExportNEP2(a[0])
            if op == 'FromWIF':
                return KeyPair.PrivateKeyFromWIF(a[0])
            if op == 'FromNEP2':
                return KeyPair.PrivateKeyFromNEP2(a[0], a[1])
            if op == 'Alter':
                return alter(*a)
            if op == 'Give':
                return a[0]
            if op == 'ToAddress':
                return Crypto.ToAddress(UInt160(data=a[0])) if x == 'crypto' else Helper.scripthash_to_address(a[0])
            if op == 'Valid':
                return isValidPublicAddress(a[0])
            if op in ('A2S', 'S2A'):
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        return (cli.address_to_scripthash if op == 'A2S' else cli.scripthash_to_address)(a[0])
                    except ConversionError:
                        return ConversionError
            if op == 'Print':
                return '0x' + a[0][::-1].hex() if a[1] == 1 else a[0].hex()
            if op == 'Hash':
                return fns[x](bytearray(a[0]) if n % 4 == 0 else a[0])
            if op == 'ToScriptHash':
                return Crypto.ToScriptHash(a[0], unhex=bool(a[1]))
            if op == 'pubkey_to_redeem':
                return Helper.pubkey_to_redeem(a[0])
            if op == 'pubkey_to_pubhash':
                return Helper.pubkey_to_pubhash(a[0])
            if op == 'base256':
                return Helper.base256_encode(a[0], a[1])
            if op == 'xor':
                return Helper.xor_bytes(a[0], a[1])
            if op == 'swap32':
                return BW.swap32(a[0])
            if op == 'bits':
                return BW.convert_to_uint160(a[0]) if a[1] == 20 else BW.convert_to_uint256(a[0])
            if op == 'random_key':
                return Helper.random_key()
            raise AssertionError(op)
        r, e = vlib.call(run, 30.0)
        ev = {'op': op, 'x': x, 't': t, 'a': p['a']}
        if e:
            ev['r'] = V('timeout') if e == 'TIMEOUT' else V('err')
        elif op in ('NewKey', 'NewKeyBuf'):
            ev['r'] = NONE
            keys.append(r)
        elif r is ConversionError:
            ev['r'] = V('conv')
        else:
            ev['r'] = canon(r)
            if isinstance(r, (str, bytes, bytearray)):
                vals.append(r if isinstance(r, str) else bytes(r))
        ev['keys'] = [snap(k) for k in keys]
        ev['w'] = 40000 if op in ('ExportNEP2', 'FromNEP2') else 1500 if op == 'NewKey' else 0
        events.append(ev)
        if e == 'TIMEOUT':
            break
        # a later step may refer to something that was not produced
        if n + 1 < len(program) and (program[n + 1]['t'] > len(keys) or any(q['k'] == 'ref' and q['v'][0] > len(vals) for q in program[n + 1]['a'])):
            break
    return events


def corrupt(events, rng):
    idx = [i for i in range(1, len(events)) if events[i]['op'] not in ('bits', 'Alter', 'Give', 'Print')]
    if not idx:
        return None
    i = rng.choice(idx)
    ev = copy.deepcopy(events[i])
    r = ev['r']
    if ev['op'] == 'A2S' and r['k'] in ('conv', 'bytes') and ev['a'][0]['k'] == 'str' and ev['a'][0]['v'][-1:] and chr(ev['a'][0]['v'][-1]).isspace():
        return None
    if ev['op'] == 'ToScriptHash' and (len(ev['a'][0]['v']) == 1 or ev['a'][0]['k'] != 'bytes'):
        return None
    if ev['op'] in ('NewKey', 'NewKeyBuf') and r['k'] == 'none' and len(ev['a'][0]['v']) > 32:
        return None
    if ev['op'] == 'ExportNEP2':
        import unicodedata
        if len(unicodedata.normalize('NFC', ''.join(map(chr, ev['a'][0]['v'])))) < 2:
            return None
    if ev['keys'] and rng.random() < 0.4:
        c = rng.choice(rng.choice(ev['keys'])['c'])
        if c['k'] == 'int':
            c['v'] = vint(unz(c['v']) + 1)['v']
        else:
            c['v'][-1] ^= 1
    elif r['k'] in ('err', 'conv'):
        ev['r'] = rng.choice((vbytes(bytes(32)), vstr('A'), NONE)) if rng.random() < 0.7 or r['k'] == 'err' else V('err')
    elif rng.random() < 0.3:
        ev['r'] = V('err')
    elif r['k'] == 'bool':
        ev['r'] = vbool(len(r['v']) == 1)
    elif r['k'] in ('str', 'bytes') and r['v']:
        j = rng.randrange(len(r['v']))
        r['v'][j] = r['v'][j] ^ 1 if ev['op'] != 'random_key' else 120
    elif r['k'] == 'uint':
        r['v'][-1] ^= 2
    elif r['k'] == 'int':
        ev['r'] = vint(unz(r['v']) + 1)
    else:
        ev['r'] = V('err')
    return events[:i] + [ev]
