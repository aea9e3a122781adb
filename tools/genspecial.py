"""Finds inputs whose results have rare shapes (leading or trailing zero bytes) and writes
harness/special.py.  Uses the harness's own arithmetic, and the signing backend for nonces."""
import hashlib, sys
sys.path.insert(0, 'harness')
from fam_key import N, P, G, padd
out = {}
h256 = lambda b: hashlib.sha256(hashlib.sha256(b).digest()).digest()
h160 = lambda b: hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()
c33 = lambda q: bytes([2 + q[1] % 2]) + q[0].to_bytes(32, 'big')
keys = {}
def add(k, d, n):
    L = keys.setdefault(k, [])
    if len(L) < n: L.append(d)
q = None
for d in range(1, 70000):
    q = padd(q, G) if q else G
    b = c33(q)
    if q[0] < 2**240: add('x00', d, 3)
    elif q[0] < 2**248: add('x0odd' if q[1] % 2 else 'x0even', d, 3)
    if q[1] < 2**240: add('y00', d, 2)
    elif q[1] < 2**248: add('y0', d, 3)
    if q[0] % 256 == 0: add('x_0', d, 2)
    if q[1] % 256 == 0: add('y_0', d, 2)
    if d < 6000:
        s = h160(b'\x21' + b + b'\xac')
        if s[0] == 0: add('h0', d, 3)
        if s[-1] == 0: add('h_0', d, 2)
        c = h256(b'\x17' + s)[:4]
        if c[0] == 0: add('c0', d, 2)
        if c[3] == 0: add('c_0', d, 2)
        import base58
        a = base58.b58encode(b'\x17' + s + c)
        ah = h256(a)[:4]
        if ah[0] == 0: add('ah0', d, 2)
        if ah[3] == 0: add('ah_0', d, 2)
        w = h256(b'\x80' + d.to_bytes(32, 'big') + b'\x01')[:4]
        if w[0] == 0: add('w0', d, 2)
        if w[3] == 0: add('w_0', d, 2)
import bitcoin
sys.path.insert(0, '/repo')
from neocore.Cryptography.Crypto import Crypto
sigs = []
cnt = {}
for i in range(1, 40000):
    m = i.to_bytes(2, 'big'); d = 1 + i % 3
    s = bytes(Crypto.Sign(m.hex(), '%064x' % d))
    t = ('r00' if s[:2] == b'\0\0' else 'r0' if s[0] == 0 else '') + ('s00' if s[32:34] == b'\0\0' else 's0' if s[32] == 0 else '') + ('r_0' if s[31] == 0 else '') + ('s_0' if s[63] == 0 else '')
    if t and cnt.get(t, 0) < 3:
        cnt[t] = cnt.get(t, 0) + 1
        sigs.append((m.hex(), d, t))
    if i > 8000 and 'r0s0' in cnt: break
msgs = {}
for i in range(200000):
    m = i.to_bytes(3, 'big')
    for n, f in (('h160', h160), ('h256', h256), ('sha', lambda b: hashlib.sha256(b).digest())):
        v = f(m)
        for t, c in (('00', v[:2] == b'\0\0'), ('0', v[0] == 0), ('0n', v[0] < 16 and v[0]), ('_0', v[-1] == 0)):
            if c:
                L = msgs.setdefault(n + t, [])
                if len(L) < 2: L.append(m.hex())
with open('harness/special.py', 'w') as f:
    f.write('"""Inputs whose results have rare shapes; made by tools/genspecial.py."""\n')
    f.write('# private keys: leading or trailing zero bytes in x, y, script hash, checksums\nKEYS = %r\n' % keys)
    f.write('# (message, private key, shape of the signature)\nSIGS = %r\n' % sigs)
    f.write('# messages: leading or trailing zero bytes in a digest\nMSGS = %r\n' % msgs)
