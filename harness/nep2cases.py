"""NEP-2 texts around real encryptions, made without the code under test."""
import hashlib
import unicodedata


def encrypt(pr, pw, salt):
    from Crypto.Cipher import AES
    d = hashlib.scrypt(unicodedata.normalize('NFC', pw).encode(), salt=bytes(salt), n=16384, r=8, p=8, dklen=64, maxmem=1 << 26)
    return AES.new(d[32:], AES.MODE_ECB).encrypt(bytes(a ^ b for a, b in zip(pr, d)))


def cases(rng, n):
    """(text, passphrase, [texts to import under it])"""
    import fam_key as fk
    out = []
    for _ in range(n):
        pr, pw = fk.privkey(rng), rng.choice(fk.PASS)
        x, y = fk.pmul(int.from_bytes(pr, 'big'))
        script = b'\x21' + bytes([2 + y % 2]) + x.to_bytes(32, 'big') + b'\xac'
        addr = fk.check58(b'\x17' + hashlib.new('ripemd160', hashlib.sha256(script).digest()).digest())
        salt = hashlib.sha256(hashlib.sha256(addr.encode()).digest()).digest()[:4]
        enc = encrypt(pr, pw, salt)
        good = b'\x01\x42\xe0' + salt + enc
        mods = [fk.check58(good)]
        b = bytearray(good)
        b[rng.randrange(3)] ^= 1 << rng.randrange(8)
        mods.append(fk.check58(b))
        b = bytearray(good)
        b[rng.choice((3, 4, 5, 6))] ^= 1 << rng.randrange(8)         # another address hash
        mods.append(fk.check58(b))
        b = bytearray(good)
        b[rng.randrange(7, 39)] ^= 1 << rng.randrange(8)             # another ciphertext
        mods.append(fk.check58(b))
        mods.append(fk.check58(good, 1 << rng.randrange(8) | rng.randrange(4)))
        mods.append(fk.check58(good[:3] + good[7:] + salt))
        # encrypted for another address hash than the key's own
        for i in (0, 1, 2, 3):
            other = bytearray(salt)
            other[i] ^= 1 << rng.randrange(8)
            mods.append(fk.check58(b'\x01\x42\xe0' + other + encrypt(pr, pw, other)))
        out.append((fk.check58(good), pw, mods))
    return out
