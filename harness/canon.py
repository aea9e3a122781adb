"""Canonical values: how arguments and results of the code under test are written
down for TLC.  A value is {"k": kind, "v": [ints], "c": [values]} (spec/Bytes.tla)."""
import math


def V(k, v=(), c=()):
    return {"k": k, "v": list(v), "c": list(c)}


def z(n):
    """integer -> [sign] + little-endian magnitude digits"""
    m = abs(n)
    return [1 if n < 0 else 0] + list(m.to_bytes((m.bit_length() + 7) // 8, 'little'))


def unz(v):
    n = int.from_bytes(bytes(v[1:]), 'little')
    return -n if v[0] else n


def nat(n):
    return z(n)[1:]


def fl(x):
    if math.isnan(x):
        return [2, 0, 2000]
    s = 1 if math.copysign(1.0, x) < 0 else 0
    if math.isinf(x):
        return [1, s, 2000]
    if x == 0:
        return [0, s, 2000]
    n, d = abs(x).as_integer_ratio()
    e = -(d.bit_length() - 1)
    while n % 2 == 0:
        n //= 2
        e += 1
    return [0, s, e + 2000] + nat(n)


def unfl(v):
    if v[0] == 2:
        return math.nan
    if v[0] == 1:
        return -math.inf if v[1] else math.inf
    m = int.from_bytes(bytes(v[3:]), 'little')
    e = v[2] - 2000
    # exact: canonical values come from doubles
    x = math.ldexp(m, e) if m.bit_length() <= 53 else float(m * 2 ** e)
    return -x if v[1] else x


NONE = V("none")
ERR = V("err")


def vint(n):
    return V("int", z(n))


def vbytes(b):
    return V("bytes", list(b))


def vstr(s):
    return V("str", [ord(c) for c in s])


def vlist(items):
    return V("list", (), items)


def vbool(b):
    return V("bool", [0, 1] if b else [0])


def canon(x, depth=0):
    """value of the real code -> canonical value"""
    from neocore.UIntBase import UIntBase
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    if x is None:
        return NONE
    t = type(x)
    if t is bool:
        return vbool(x)
    if t is BigInteger:
        return V("bigint", z(int(x)))
    if isinstance(x, int):
        return V("int", z(int(x)))
    if isinstance(x, float):
        return V("float", fl(float(x)), [vstr(repr(float(x)))])
    if isinstance(x, (bytes, bytearray)):
        return vbytes(x)
    if isinstance(x, str):
        return vstr(x)
    if depth < 4 and isinstance(x, (list, tuple)):
        if x and all(type(i).__name__ == 'Nil' for i in x):
            return V("nils", z(len(x)))
        return vlist([canon(i, depth + 1) for i in x])
    if isinstance(x, UIntBase):
        tag = 20 if t is UInt160 else 32 if t is UInt256 else 0
        try:
            return V("uint", [tag] + list(x.Data))
        except Exception:
            return V("other")
    if isinstance(x, Fixed8):
        return V("fixed8", (), [canon(getattr(x, 'value', None), depth + 1)])
    if t.__name__ == 'Item' and t.__module__ == 'neoitems':
        return V("item", (), [canon(x.n, depth + 1), canon(x.b, depth + 1)])
    if t.__name__ == 'Bag' and t.__module__ == 'neoitems':
        return V("bag", (), [canon(i, depth + 1) for i in x.items])
    return V("other")


def uncanon(j):
    """canonical value -> argument for the real code (a fresh object)"""
    k, v, c = j["k"], j["v"], j["c"]
    if k == "none":
        return None
    if k == "bool":
        return len(v) > 1
    if k == "int":
        return unz(v)
    if k == "bigint":
        from neocore.BigInteger import BigInteger
        return BigInteger(unz(v))
    if k == "bytes":
        return bytes(v)
    if k == "str":
        return ''.join(map(chr, v))
    if k == "float":
        return unfl(v)
    if k == "list":
        return [uncanon(i) for i in c]
    if k == "uint":
        if v[0] == 20:
            from neocore.UInt160 import UInt160
            return UInt160(bytes(v[1:]))
        if v[0] == 32:
            from neocore.UInt256 import UInt256
            return UInt256(bytes(v[1:]))
        from neocore.UIntBase import UIntBase
        return UIntBase(len(v) - 1, bytes(v[1:]))
    if k == "fixed8":
        from neocore.Fixed8 import Fixed8
        return Fixed8(uncanon(c[0]))
    if k == "item":
        import neoitems
        it = neoitems.Item()
        it.n, it.b = uncanon(c[0]), uncanon(c[1])
        return it
    if k == "bag":
        import neoitems
        it = neoitems.Bag()
        it.items = [uncanon(i) for i in c]
        return it
    if k == "nils":
        import neoitems
        return [neoitems.Nil() for _ in range(unz(v))]
    raise ValueError("no such argument kind: " + k)
