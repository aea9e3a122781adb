"""Fixed-point amounts and big integers (C11-C14): programs for NeoNum.tla and
their execution with the real Fixed8 and BigInteger."""
import copy
import re
from decimal import Decimal
import struct

from canon import NONE, V, canon, fl, uncanon, vbool, vbytes, vint, vlist, vstr, z
from clothed import clothed
import vlib

TRACE = 'TraceNum'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C11', 'C12', 'C13', 'C14']


def mc(mode, kind='fixed8', depth=1, width=1, emit=1, workers=1):
    return dict(module='MCNum', workers=workers, cfg='''CONSTANTS Mode = "%s"
 Kind = "%s"
 Depth = %d
 Width = %d
 EmitEvery = %d
INIT Init
NEXT Next
INVARIANTS Laws Rounding Encodings2 Emit
''' % (mode, kind, depth, width, emit))


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    if prop == 'C11':
        return [mc('arith', 'fixed8', emit=2), mc('hist', 'fixed8', 3, emit=13)] + ([mc('hist', 'fixed8', 4, emit=997, workers=4)] if t else [])
    if prop == 'C12':
        return [mc('texts', depth=5 if t else 4), mc('arith', 'fixed8', emit=5)]
    if prop == 'C13':
        return [mc('arith', 'bigint', emit=2), mc('hist', 'bigint', 3, emit=13)] + ([mc('hist', 'bigint', 4, emit=997, workers=4)] if t else [])
    return [mc('bytes', 'bigint', width=300 if t else 80)]


def step(op, t=0, a=()):
    return {'op': op, 't': t, 'a': list(a)}


def O(i):
    return V('obj', [i])


D = 100000000


def f8(n):
    return V('fixed8', (), [vint(n)])


def big(n):
    return V('bigint', z(n))


def rnum(rng, wide=True):
    c = rng.random()
    if c < 0.25:
        v = rng.choice((0, 1, 2, 3, 5, 7, 10, 99, 255, 256))
    elif c < 0.45:
        v = D * rng.choice((1, 2, 3, 10, 67108863, 10 ** 8)) + rng.choice((-1, 0, 1, 50000000))
    elif c < 0.75:
        v = (1 << rng.randrange(0, 130)) + rng.randrange(-2, 3)
    else:
        v = rng.getrandbits(rng.choice((16, 40, 53, 60, 64, 70, 128, 300 if wide else 64)))
    if wide and rng.random() < 0.06:
        v = rng.choice(((1 << rng.choice((256, 512, 1023, 1024, 2047))) + rng.randrange(-2, 3), rng.getrandbits(rng.choice((255, 256, 257, 600, 1000, 1100, 2100)))))
    return v * rng.choice((1, 1, -1))


F_BIN = ['Add', 'Sub', 'Mul', 'TrueDiv', 'FloorDiv', 'Mod', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge']
F_IN = ['IAdd', 'ISub', 'IMul', 'ITrueDiv', 'IFloorDiv', 'IMod']
B_BIN = ['Add', 'Sub', 'Mul', 'TrueDiv', 'FloorDiv', 'Mod', 'Equals', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge']
CONSTS = ['FD', 'One', 'Satoshi', 'NegativeSatoshi', 'Zero']


def history(rng, kind, length):
    """operations over shared numbers; sizes are kept bounded"""
    prog, mag = [], []          # mag: bits of each number, an upper bound
    mk = f8 if kind == 'fixed8' else big
    for _ in range(2):
        n = rnum(rng)
        prog.append(step('Make', 0, [mk(n)]))
        mag.append(n)
    while len(prog) < length:
        c = rng.random()
        i, j = rng.randrange(len(mag)), rng.randrange(len(mag))
        x, y = mag[i], mag[j]
        if c < 0.12:
            n = rnum(rng)
            prog.append(step('Make', 0, [mk(n)]))
            mag.append(n)
        elif c < 0.22:
            if kind == 'fixed8':
                op = rng.choice(CONSTS)
                mag.append({'FD': D, 'One': D, 'Satoshi': 1, 'NegativeSatoshi': -1, 'Zero': 0}[op])
            else:
                op = rng.choice(('BigZero', 'BigOne'))
                mag.append(0 if op == 'BigZero' else 1)
            prog.append(step(op))
        elif c < 0.35:
            ops = ['Neg', 'Ceil', 'Floor', 'ToInt', 'GetData'] if kind == 'fixed8' else ['Neg', 'Abs', 'Sign', 'ToByteArray', 'str']
            op = rng.choice(ops)
            prog.append(step(op, i + 1))
            if op in ('Neg', 'Ceil', 'Floor', 'Abs'):
                mag.append({'Neg': -x, 'Abs': abs(x), 'Ceil': -(-x // D) * D, 'Floor': x // D * D}[op])
        elif c < 0.42:
            if kind == 'fixed8':
                if x.bit_length() > 400:
                    continue
                e = rng.randrange(0, 6)
                prog.append(step('Make', 0, [mk(e)]))
                mag.append(e)
                prog.append(step(rng.choice(('Pow', 'IPow')), i + 1, [O(len(mag))]))
                mag.append(x ** e)
            else:
                e = rng.choice((0, 1, 2, 7, 8, 31, 32, 63, 64, 65, 130, 255, 256, 257, 300, 511, 512, 1023, 1024, 1100, 2048, rng.randrange(600)))
                if x.bit_length() + e > 3500:
                    continue
                op = rng.choice(('Shl', 'Shr', 'IShl', 'IShr'))
                a = vint(e)
                if rng.random() < 0.4:
                    prog.append(step('Make', 0, [mk(e)]))
                    mag.append(e)
                    a = O(len(mag))
                prog.append(step(op, i + 1, [a]))
                mag.append(x << e if 'Shl' in op else x >> e)
        else:
            op = rng.choice(F_BIN + F_IN if kind == 'fixed8' else B_BIN + F_IN)
            a = O(j + 1)
            if kind == 'bigint' and rng.random() < 0.25:
                y = rnum(rng)
                a = vint(y)
            elif kind == 'bigint' and rng.random() < 0.12:     # truth values are numbers, texts and the like are not
                y = rng.randrange(2)
                a = vbool(bool(y))
                if rng.random() < 0.5:
                    t = rng.choice((str(x), hex(x), '', '1', 'True'))
                    op = rng.choice(('Equals', 'Eq', 'Ne'))
                    a = rng.choice((vstr(t), vbytes(t.encode()), vlist([vint(x)]), NONE))
            elif kind == 'bigint' and rng.random() < 0.08:
                a = rng.choice((O(j + 1), vint(x)))
                op = 'HashEq'
            if op in ('Mul', 'IMul') and x.bit_length() + y.bit_length() > 3000:
                continue
            base = op[1:] if op in F_IN else op
            if y == 0 and base in ('TrueDiv', 'FloorDiv', 'Mod') and kind == 'fixed8':
                continue
            prog.append(step(op, i + 1, [a]))
            if base in ('Add', 'Sub', 'Mul'):
                mag.append(x + y if base == 'Add' else x - y if base == 'Sub' else x * y)
            elif base in ('TrueDiv', 'FloorDiv', 'Mod') and y:
                t = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                mag.append(x % y if base == 'Mod' else x // y if base == 'FloorDiv' or kind == 'bigint' else t)
    return prog


def amount_text(rng):
    """numerals of all shapes, and texts that are none"""
    n = rng.choice((1, 1, 2, 3, 5, 8, 10, 16, 17, 20, 30, 60))
    d = ''.join(rng.choice('0123456789') for _ in range(n)) if rng.random() < 0.8 else rng.choice('0159') * n
    c = rng.random()
    if c < 0.55:
        k = rng.randrange(0, len(d) + 1)
        t = d[:k] + '.' + d[k:]
    elif c < 0.7:
        t = d
    else:
        t = rng.choice(('0.', '.', '000.', '1.')) + '0' * rng.randrange(0, 12) + d
    if rng.random() < 0.25:
        t += rng.choice('eE') + rng.choice(('', '+', '-')) + str(rng.choice((0, 1, 2, 7, 8, 9, 15, 22, 30, 300, 350)))
    if rng.random() < 0.35:
        t = rng.choice('+--') + t
    if rng.random() < 0.15:
        t = rng.choice((' ', '\t', '\n ', '')) + t + rng.choice((' ', '\n', ''))
    if rng.random() < 0.08 and len(t) < 20:
        u, t = t, clothed(rng, t)
        if re.search(r'[eE][+-]?0*[1-9][0-9]{2}', t):
            t = u
        return t
    if rng.random() < 0.2:
        i = rng.randrange(len(t) + 1)
        u = t
        t = t[:i] + rng.choice(('', ' ', '.', '-', '+', 'e', 'x', ',', '0', 'E5', '/', '()', 'inf', 'nan')) + t[i + rng.randrange(2):]
        if re.search(r'[eE][+-]?0*[1-9][0-9]{3}', t):       # exponents beyond the specification's reach
            t = u
    return t


NOT = ['', ' ', '.', '-', '+', '-.', 'e5', '1e', '1e+', '1.2.3', '0x10', '1,5', 'abc', 'inf', '-inf', 'nan', 'Infinity', '-Infinity', 'NaN', '1e5.0',
       '1 2', '- 1', '--1', '+-1', '1-', '1e5e5', 'sNaN', 'nan1', '1/2', '1j', 'True', '()', '1d5', '1f', '1L', 'None', '0b1', '0o7', '1e--1']


def rfloat(rng):
    c = rng.random()
    if c < 0.3:
        return float(rng.randrange(0, 10 ** rng.randrange(1, 12))) / 10 ** rng.randrange(0, 10) * rng.choice((1, -1))
    if c < 0.5:
        return round(rng.uniform(-1e9, 1e9), rng.randrange(0, 9))
    if c < 0.65:
        return rng.choice((0.1, 0.2, 0.3, 0.7, 1.1, 2.675, 0.07, 0.29, 1.15, 4.35, 8.95, 9.95, 0.57, 1e-8, 9e-9, 1.5e-8, 1e22, 1e23, 1e-7, -0.0, 0.0,
                           123456789.12345678, 99999999.99999999, 5e-324, 1e300))
    if c < 0.75:
        return rng.choice((float('inf'), float('-inf'), float('nan')))
    if c < 0.9:
        return rng.uniform(-1, 1) * 10 ** rng.randrange(-12, 18)
    f = struct.unpack('<d', bytes(rng.getrandbits(8) for _ in range(8)))[0]
    return f


def vfloat(x):
    return V('float', fl(x), [vstr(repr(x))])


def vdec(t):
    return V('dec', [ord(c) for c in t])


def rnum12(rng):
    c = rng.random()
    if c < 0.3:
        return rng.choice((0, 1, 9, 10, D - 1, D, D + 1, 10 * D, 12345678, 99999999, 100000001)) * rng.choice((1, -1))
    if c < 0.8:
        return rng.randrange(0, 10 ** rng.randrange(1, 16)) * rng.choice((1, -1))
    if c < 0.9:
        return (6710886400000000 + rng.randrange(-3, 1)) * rng.choice((1, -1))
    return rnum(rng)


def conversions(rng):
    prog, n = [], 0
    for _ in range(8):
        k = rng.randrange(9)
        pos = rng.choice(([], [], [vbool(True)], [vbool(False)]))
        if k < 3:
            t = amount_text(rng)
            prog.append(step('TryParse', 0, [vstr(t) if rng.random() < 0.8 else vbytes(t.encode())] + pos))
        elif k == 3:
            prog.append(step('TryParse', 0, [vstr(rng.choice(NOT))] + pos))
        elif k == 4:
            f = rfloat(rng)
            prog.append(step(rng.choice(('TryParse', 'FromDecimal')), 0, [vfloat(f)]))
        elif k == 5:
            t = amount_text(rng)
            try:
                d = Decimal(t)
                if d.is_finite() and t.isascii() and '_' not in t:
                    prog.append(step(rng.choice(('TryParse', 'FromDecimal')), 0, [vdec(t)]))
            except Exception:
                pass
        elif k == 6:
            i = rnum(rng)
            prog.append(step(rng.choice(('TryParse', 'FromDecimal')), 0, [vint(i)]))
        elif k == 7:
            prog.append(step('FromDecimal', 0, [vstr(amount_text(rng))]))
        else:
            prog.append(step('TryParse', 0, [rng.choice((NONE, vlist([]), vlist([vint(1)])))] + pos))
    return prog


def formats(rng):
    prog = [step('Make', 0, [f8(rnum12(rng))])]
    for op in ('ToString', 'ToNeoJsonString', 'str', 'Ceil', 'Floor', 'ToInt', 'Reparse', 'ReparseJson'):
        prog.append(step(op, 1))
    return prog


def programs(prop, tier, rng):
    k = 6 if tier == 'thorough' else 1
    out = []
    if prop == 'C11':
        out += [history(rng, 'fixed8', rng.randrange(8, 26)) for _ in range(400 * k)]
    elif prop == 'C12':
        out += [conversions(rng) for _ in range(500 * k)]
        out += [formats(rng) for _ in range(400 * k)]
        for e in (50, 308, 309, 400, 4999, 20000, 100000, 990000):      # any magnitude
            d = rng.choice(('', '-')) + str(rng.randrange(1, 10 ** rng.randrange(1, 12)))
            p = [step(o + 'Residue', 0, [v('%s%s%d' % (d, rng.choice(('e', 'E+')), e))]) for o, v in (('TryParse', vstr), ('FromDecimal', vdec))]
            out += [[x] for x in p]
        for p in range(0, 9):                       # every magnitude of eight-decimal amounts
            for v in (1, 9, 12345678, 99999999, 10 ** p, 10 ** p - 1, 10 ** p + 1, 7 * 10 ** p):
                for s in (1, -1):
                    t = '%s%d.%08d' % ('-' if s < 0 else '', v // D, v % D)
                    out.append([step('TryParse', 0, [vstr(t)]), step('FromDecimal', 0, [vfloat(float(t))]),
                                step('FromDecimal', 0, [vdec(t)]), step('Make', 0, [f8(s * v)]), step('ToString', 4),
                                step('ToNeoJsonString', 4), step('Floor', 4), step('Ceil', 4), step('ToInt', 4)])
        for i in range(0, 1000, 1 if k > 1 else 3):  # cents
            out.append([step('FromDecimal', 0, [vfloat(i / 100)]), step('TryParse', 0, [vstr('%.2f' % (i / 100))]),
                        step('FromDecimal', 0, [vfloat(-i / 1000)])])
        out += [[step('TryParse', 0, [vstr(t)]), step('TryParse', 0, [vstr(t), vbool(True)]), step('TryParse', 0, [vbytes(t.encode('utf-8', 'surrogatepass'))])] for t in NOT]
        for n in (6710886400000000, 123456789012345678901, -9223372036854775808, 10 ** 30 + 1, 1 << 1100):   # known finding
            out.append([step('Make', 0, [f8(n)]), step('ToString', 1), step('ToNeoJsonString', 1), step('Reparse', 1), step('Ceil', 1), step('Floor', 1),
                        step('ToInt', 1)])
    elif prop == 'C13':
        out += [history(rng, 'bigint', rng.randrange(8, 26)) for _ in range(400 * k)]
    else:
        for _ in range(500 * k):
            n = rnum(rng)
            if rng.random() < 0.6:
                n = (256 ** rng.randrange(0, 40) * rng.choice((1, 1, 128, 127, 255)) + rng.choice((-1, 0, 1))) * rng.choice((1, -1))
            b = bytes(rng.getrandbits(8) for _ in range(rng.choice((0, 1, 2, 3, 8, 20, 32, 33)))) + rng.choice((b'', b'\0', b'\xff', b'\x80', b'\0\0'))
            out.append([step('Make', 0, [big(n)]), step('ToByteArray', 1), step('ToByteArray', 1, [vbool(True)]), step('ToByteArray', 1, [vbool(False)]),
                        step('Roundtrip', 1), step('FromBytes', 0, [vbytes(b)]), step('FromBytes', 0, [vbytes(b), vbool(True)]),
                        step('FromBytes', 0, [vbytes(b), vbool(False)])])
        for b in range(256):
            out.append([step('FromBytes', 0, [vbytes(bytes([b]) * m), vbool(s)]) for m in (1, 2, 3) for s in (True, False)])
    return out


def expand(prop, tier, progs, rng):
    """each property takes the steps of the model's programs that concern it"""
    text = ('ToString', 'ToNeoJsonString', 'Reparse', 'ReparseJson', 'str')
    if prop == 'C11':
        return [[s for s in p if s['op'] not in text] for p in progs]
    if prop == 'C12':
        return [[s for s in p if s['op'] in text + ('Make', 'TryParse', 'Ceil', 'Floor', 'ToInt')] for p in progs]
    return progs


# ---------------------------------------------------------------- execution

def execute(prog):
    from neocore import BigInteger as bimod
    from neocore.BigInteger import BigInteger
    from neocore.Fixed8 import Fixed8
    import operator as o
    BIN = {'Add': o.add, 'Sub': o.sub, 'Mul': o.mul, 'TrueDiv': o.truediv, 'FloorDiv': o.floordiv, 'Mod': o.mod, 'Pow': o.pow, 'Shl': o.lshift,
           'Shr': o.rshift, 'Eq': o.eq, 'Ne': o.ne, 'Lt': o.lt, 'Le': o.le, 'Gt': o.gt, 'Ge': o.ge, 'IAdd': o.iadd, 'ISub': o.isub,
           'IMul': o.imul, 'ITrueDiv': o.itruediv, 'IFloorDiv': o.ifloordiv, 'IMod': o.imod, 'IPow': o.ipow, 'IShl': o.ilshift, 'IShr': o.irshift}
    objs, events = [], []

    def consts():
        try:
            return [z(int(bimod.ZERO)), z(int(bimod.ONE)), z(Fixed8.D)]
        except Exception:
            return []

    def log(p, r):
        events.append({'op': p['op'], 't': p['t'], 'a': p['a'], 'r': r, 'objs': [canon(x) for x in objs], 'consts': consts()})

    def arg(a):
        if a['k'] == 'obj':
            return objs[a['v'][0] - 1]
        if a['k'] == 'dec':
            return Decimal(''.join(map(chr, a['v'])))
        return uncanon(a)

    log(step('Reset'), NONE)
    for p in prog:
        op, t = p['op'], p['t']

        def run():
            a = [arg(i) for i in p['a']]
            if op in ('FromBytes', 'TryParse') and len(events) % 3 == 0:
                a = [bytearray(i) if isinstance(i, bytes) else i for i in a]
            x = objs[t - 1] if t else None
            if op == 'Make':
                return a[0]
            if op in BIN:
                return BIN[op](x, a[0])
            if op in CONSTS:
                return getattr(Fixed8, op)()
            if op == 'BigZero':
                return bimod.ZERO
            if op == 'BigOne':
                return bimod.ONE
            if op == 'Neg':
                return -x
            if op == 'Abs':
                return abs(x)
            if op == 'HashEq':
                return hash(x) == hash(a[0])
            if op == 'Sign':
                return x.Sign
            if op == 'str':
                return str(x)
            if op == 'Reparse':
                return Fixed8.TryParse(x.ToString())
            if op == 'ReparseJson':
                return Fixed8.TryParse(x.ToNeoJsonString())
            if op == 'Roundtrip':
                return BigInteger.FromBytes(x.ToByteArray(), signed=True)
            if op == 'FromBytes':
                return BigInteger.FromBytes(a[0], signed=a[1]) if len(a) > 1 else BigInteger.FromBytes(a[0])
            if op == 'ToByteArray':
                return x.ToByteArray(signed=a[0]) if a else x.ToByteArray()
            if op == 'TryParse':
                return Fixed8.TryParse(a[0], require_positive=a[1]) if len(a) > 1 else Fixed8.TryParse(a[0])
            if op == 'FromDecimal':
                return Fixed8.FromDecimal(a[0])
            if op == 'TryParseResidue':
                r = Fixed8.TryParse(a[0])
                return r if r is None else r.value % (2 ** 61 - 1)
            if op == 'FromDecimalResidue':
                return Fixed8.FromDecimal(a[0]).value % (2 ** 61 - 1)
            return getattr(x, op)(*a)
        r, e = vlib.call(run)
        if e:
            log(p, V('timeout') if e == 'TIMEOUT' else V('err'))
            if e == 'TIMEOUT':
                break
            continue
        if isinstance(r, (Fixed8, BigInteger)):
            same = [i for i, y in enumerate(objs) if y is r] if op not in CONSTS + ['BigZero', 'BigOne', 'Make'] else []
            if same and op not in ('Make',):
                objs.append(r)
                c = canon(r)
                if isinstance(r, Fixed8):
                    objs.pop()
                    log(p, V('same', [same[0] + 1]))
                else:
                    log(p, V('new'))
            else:
                objs.append(r)
                log(p, V('new'))
        else:
            log(p, canon(r))
    return events


def corrupt(events, rng):
    idx = [i for i in range(1, len(events)) if events[i]['objs'] and events[i]['op'] not in ('FromDecimal', 'Reparse', 'ReparseJson', 'Pow', 'IPow', 'HashEq')
           and (events[i]['r']['k'] in ('new', 'int', 'bool', 'str'))]
    if not idx:
        return None
    i = rng.choice(idx)
    ev = copy.deepcopy(events[i])
    r = ev['r']
    if r['k'] == 'new' or rng.random() < 0.4:
        o = rng.choice(ev['objs']) if r['k'] != 'new' else ev['objs'][-1]
        v = o['v'] if o['k'] == 'bigint' else o['c'][0]['v']
        if len(v) == 1:
            v[:] = [1, 1]
        else:
            v[0] ^= 1
    elif r['k'] == 'str':
        r['v'][-1] = 48 + (r['v'][-1] - 47) % 10 if 48 <= r['v'][-1] < 58 and 46 in r['v'] and 101 not in r['v'] else 120
    else:
        r['v'] = [0, 1] if r['v'] == [0] else [0] if r['k'] == 'bool' else [1 - r['v'][0]] + r['v'][1:]
    return events[:i] + [ev]
