"""What calls leave alone (C31) and what their answers depend on (C32): histories of
MCFrame.tla and random ones over the whole library, judged by NeoFrame.tla."""
import base58
import binascii
import bitcoin.deterministic
import bitcoin.main
import bitcoin.py3specials
import builtins
import copy
import decimal
import faulthandler
import gc
import hashlib
import importlib
import io
import json
import logging
import mpmath
import os
import random
import resource
import scrypt
import signal
import socket
import struct
import sys
import tempfile
import threading
import time
import unicodedata
import warnings

from canon import NONE, V
import fam_par
import fam_sign
import vlib

TRACE = 'TraceFrame'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C31', 'C32']
ASSUMPTIONS = {p: ['values are compared by type and content; of the process the decimal context, the random module, the curve registers, logging, '
                   'warnings, signals, working directory and its files, environment, locale, limits and threads are looked at'] for p in PROPS}
forked = fam_par.forked


def preload():
    fam_par.preload()
    import neocore.bin.cli                     # noqa: F401


def FRESH(prop):
    return True


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    return [dict(module='MCFrame', workers=1, cfg='''CONSTANTS Steps = %d
 Every = %d
INIT Init
NEXT Next
INVARIANTS Frame Note Emit
POSTCONDITION Refuted
''' % c) for c in ([(5, 2), (6, 11)] if t else [(4, 1), (6, 97)])]


# ------------------------------------------------------------- the library's operations

N = fam_sign.N
BUF = 'raw barr raw20 barr20 raw32 barr32 priv bpriv pub33 pub65 sig res'.split()
HEX = 'hexs hexb hex64 privhex pubb pubs'.split()
# literals that may be made up for each kind of argument
KINDS = {'buf': BUF, 'buf20': ['raw20', 'barr20'], 'buf32': ['raw32', 'barr32'], 'privs': ['priv', 'bpriv'], 'hex': HEX, 'pubhex': ['pubb', 'pubs'],
         'rawbytes': ['raw', 'raw20', 'raw32', 'priv', 'pub33'], 'pub': ['pub33', 'pt', 'pub64'], 'barrs': ['barr', 'barr20', 'barr32', 'bpriv', 'sig', 'res'],
         'uint': ['u160', 'u256'], 'textual': ['text', 'dec'], 'numeric': ['num', 'big'], 'parsed': ['dec', 'num', 'text', 'decb', 'fl', 'dd'], 'amount': ['dec', 'dec', 'num64', 'fl', 'dd']}


def lib():
    """name -> (argument kinds, kind of the result, function)"""
    from neocore.BigInteger import BigInteger
    from neocore.Cryptography import Helper as H
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.Fixed8 import Fixed8
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.KeyPair import KeyPair
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Utils import isValidPublicAddress
    from neocore.bin.cli import address_to_scripthash
    import operator as o
    ops = {}

    def op(name, args, result, fn):
        ops[name] = (args.split(), result, fn)

    # the program's own changes to what it holds
    op('Poke', 'barrs num', '', lambda b, n: b.__setitem__(n % len(b), (b[n % len(b)] + 1 + n % 255) % 256))
    op('ListH2', 'hex64 hex64', 'listh', lambda a, b: [a, b])
    op('ListH3', 'hex64 hex64 hex64', 'listh', lambda *a: list(a))
    op('PushListH', 'listh hex64', '', lambda l, t: l.append(t))
    op('Flags3', 'small small small', 'flags', lambda *a: list(a))
    op('PokeList', 'listu u256', '', lambda l, u: l.__setitem__(0, u))
    op('PushList', 'listu u256', '', lambda l, u: l.append(u))
    op('List2', 'u256 u256', 'listu', lambda a, b: [a, b])
    op('List3', 'u256 u256 u256', 'listu', lambda a, b, c: [a, b, c])
    op('List5', 'u256 u256 u256 u256 u256', 'listu', lambda *a: list(a))
    # identifiers
    op('U160', 'buf20', 'u160', lambda b: UInt160(b))
    op('U160Data', 'buf20', 'u160', lambda b: UInt160(data=b))
    op('U256', 'buf32', 'u256', lambda b: UInt256(b))
    op('U160Bad', 'buf', 'u160', lambda b: UInt160(b))
    op('UToArray', 'uint', 'res', lambda u: u.ToArray())
    op('UToString', 'uint', 'text', lambda u: u.ToString())
    op('UToString2', 'uint', 'hexs', lambda u: u.ToString2())
    op('UTo0x', 'uint', 'text', lambda u: u.To0xString())
    op('UToBytes', 'uint', 'hexb', lambda u: u.ToBytes())
    op('UHash', 'uint', 'num', lambda u: u.GetHashCode())
    op('UEq', 'uint uint', '', o.eq)
    op('ULt', 'uint uint', '', o.lt)
    op('UGe', 'uint uint', '', o.ge)
    op('UCompare', 'uint uint', '', lambda a, b: a.CompareTo(b))
    op('UMember', 'uint listu', '', lambda a, b: a in set(b))
    # numbers
    for n, f in (('Add', o.add), ('Sub', o.sub), ('Mul', o.mul), ('Mod', o.mod), ('Div', o.truediv), ('FloorDiv', o.floordiv)):
        op('Big' + n, 'big numeric', 'big', f)
        op('F8' + n, 'f8 f8', 'f8', f)
    for n, f in (('Iadd', o.iadd), ('Isub', o.isub), ('Imul', o.imul), ('Imod', o.imod), ('Idiv', o.itruediv)):
        op('F8' + n, 'f8 f8', 'f8', f)
        op('Big' + n, 'big numeric', 'big', f)
    op('Big', 'num', 'big', lambda n: BigInteger(n))
    op('BigNeg', 'big', 'big', o.neg)
    op('BigAbs', 'big', 'big', abs)
    op('BigShl', 'big unum', 'big', lambda a, n: a << n % 300)
    op('BigShr', 'big unum', 'big', lambda a, n: a >> n % 300)
    op('BigSign', 'big', '', lambda a: a.Sign)
    op('BigEq', 'big numeric', '', lambda a, b: a.Equals(b))
    op('BigToByteArray', 'big', 'raw', lambda a: a.ToByteArray())
    op('BigToByteArrayU', 'big', 'raw', lambda a: a.ToByteArray(signed=False))
    op('BigFromBytes', 'buf', 'big', lambda b: BigInteger.FromBytes(b))
    op('BigFromBytesS', 'buf', 'big', lambda b: BigInteger.FromBytes(b, signed=True))
    op('F8', 'num64', 'f8', lambda n: Fixed8(n))
    op('F8FromDecimal', 'amount', 'f8', lambda s: Fixed8.FromDecimal(s))
    op('F8FromInt', 'num64', 'f8', lambda n: Fixed8.FromDecimal(n))
    op('F8TryParse', 'parsed', 'f8', lambda s: Fixed8.TryParse(s))
    op('F8TryParseP', 'parsed', 'f8', lambda s: Fixed8.TryParse(s, require_positive=True))
    op('F8Neg', 'f8', 'f8', o.neg)
    op('F8Lt', 'f8 f8', '', o.lt)
    op('F8Eq', 'f8 f8', '', o.eq)
    op('F8Ge', 'f8 f8', '', o.ge)
    op('F8Ceil', 'f8', 'f8', lambda a: a.Ceil())
    op('F8Floor', 'f8', 'f8', lambda a: a.Floor())
    op('F8ToInt', 'f8', 'num', lambda a: a.ToInt())
    op('F8ToString', 'f8', 'dec', lambda a: a.ToString())
    op('F8Json', 'f8', 'dec', lambda a: a.ToNeoJsonString())
    op('F8GetData', 'f8', 'num', lambda a: a.GetData())
    for n in ('One', 'Zero', 'Satoshi', 'NegativeSatoshi', 'FD'):
        op('F8' + n, '', 'f8', getattr(Fixed8, n))
    # hashes, scripts, addresses
    op('Hash160', 'buf', 'hexs', lambda b: Crypto.Hash160(b))
    op('Hash160Bytes', 'buf', 'raw20', lambda b: Crypto.Hash160Bytes(b))
    op('Hash256', 'buf', 'raw32', lambda b: Crypto.Hash256(b))
    op('InstHash160', 'buf', 'raw20', lambda b: Crypto.Default().Hash160(b))
    op('InstHash256', 'buf', 'raw32', lambda b: Crypto.Default().Hash256(b))
    op('BinHash160', 'buf', 'hexs', lambda b: H.bin_hash160(b))
    op('DblSha', 'buf', 'hex64', lambda b: H.double_sha256(b))
    op('BinDbl', 'buf', 'raw32', lambda b: H.bin_dbl_sha256(b))
    op('ToScriptHash', 'hex', 'u160', lambda b: Crypto.ToScriptHash(b))
    op('ToScriptHashRaw', 'buf', 'u160', lambda b: Crypto.ToScriptHash(b, unhex=False))
    op('ToAddress', 'u160', 'addr', lambda u: Crypto.ToAddress(u))
    op('HashToAddress', 'buf20', 'addr', lambda b: H.scripthash_to_address(b))
    op('HashToAddressAny', 'buf', 'text', lambda b: H.scripthash_to_address(b))
    op('ValidAddress', 'addr', '', lambda a: isValidPublicAddress(a))
    op('AddressToHash', 'addr', 'raw20', lambda a: address_to_scripthash(a))
    op('Redeem', 'pubb', 'raw', lambda b: H.pubkey_to_redeem(b))
    op('PubHash', 'pubb', 'raw20', lambda b: H.pubkey_to_pubhash(b))
    op('RedeemHash', 'buf', 'raw20', lambda b: H.redeem_to_scripthash(b))
    op('Base256', 'unum', 'res', lambda n: H.base256_encode(n))
    op('Base256W', 'unum', 'res', lambda n: H.base256_encode(n, 40))
    op('Xor', 'raw32 raw32', 'raw32', lambda a, b: H.xor_bytes(a, b))
    op('RandomKey', '', '', lambda: bool(H.random_key()))
    # keys
    op('KeyPair', 'privs', 'kp', lambda b: KeyPair(b))
    op('KeyPairLong', 'pub64priv', 'kp', lambda b: KeyPair(b))
    op('KeyPairBad', 'buf', 'kp', lambda b: KeyPair(b))
    op('GetAddress', 'kp', 'addr', lambda k: k.GetAddress())
    op('Export', 'kp', 'wif', lambda k: k.Export())
    op('FromWIF', 'wif', 'priv', lambda w: KeyPair.PrivateKeyFromWIF(w))
    op('PublicKey', 'kp', 'pt', lambda k: k.PublicKey)
    op('ExportNEP2', 'kp text', 'nep2', lambda k, t: k.ExportNEP2(t))
    op('FromNEP2', 'nep2 text', 'priv', lambda n, t: KeyPair.PrivateKeyFromNEP2(n, t))
    # signatures
    op('Sign', 'hex privhex', 'sig', lambda m, k: Crypto.Sign(m, k))
    op('SignInst', 'hex privhex', 'sig', lambda m, k: Crypto.Default().Sign(m, k))
    op('Verify', 'hex sig pub', '', lambda m, s, p: Crypto.VerifySignature(m, s, p))
    op('VerifyRaw', 'buf sig pub', '', lambda m, s, p: Crypto.VerifySignature(m, s, p, unhex=False))
    op('VerifyInst', 'hex sig pub', '', lambda m, s, p: Crypto.Default().VerifySignature(m, s, p))
    op('Default', '', '', lambda: Crypto.Default())
    # points, fields, textbook signatures
    op('Decode', 'pubhex', 'pt', lambda b: ECDSA.decode_secp256r1(b).G)
    op('DecodeRaw', 'pub33', 'pt', lambda b: ECDSA.decode_secp256r1(b, unhex=False).G)
    op('DecodeFree', 'pubhex', 'pt', lambda b: ECDSA.decode_secp256r1(b, check_on_curve=False).G)
    op('FromBytes', 'pubraw', 'pt', lambda b: ECDSA.FromBytes_Secp256r1(b).G)
    op('Encode', 'pt', 'pubb', lambda p: p.encode_point(True))
    op('EncodeLong', 'pt', 'hexb', lambda p: p.encode_point(False))
    op('PtToString', 'pt', '', lambda p: p.ToString())
    op('PtToBytes', 'pt', '', lambda p: p.ToBytes())
    op('PtStr', 'pt', '', str)
    op('PtAdd', 'pt pt', 'pt', o.add)
    op('PtIadd', 'pt pt', 'pt', o.iadd)
    op('PtSub', 'pt pt', 'pt', o.sub)
    op('PtNeg', 'pt', 'pt', o.neg)
    op('PtMul', 'pt unum', 'pt', o.mul)
    op('PtEq', 'pt pt', '', o.eq)
    op('PtLt', 'pt pt', '', o.lt)
    op('PtGe', 'pt pt', '', o.ge)
    op('PtInf', 'pt', '', lambda p: [p.IsInfinity, p.Size(), p.isoncurve()])
    op('R1', '', 'ec', ECDSA.secp256r1)
    op('K1', '', 'ec', ECDSA.secp256k1)
    op('Gen', 'ec', 'pt', lambda e: e.G)
    op('Infinity', 'ec', 'pt', lambda e: e.ec.Infinity)
    op('CalcPub', 'ec unum', 'pt', lambda e, n: e.calcpub(n))
    op('EcSign', 'ec unum unum unum', 'rs', lambda e, m, d, k: list(e.sign(m, d, k)))
    op('EcVerify', 'ec unum pt rs', '', lambda e, m, q, s: e.verify(m, q, s[0], s[1]))
    op('FindPk', 'ec unum rs', 'pt', lambda e, m, s: e.findpk(m, s[0], s[1], 0))
    op('Crack', 'ec rs unum unum', '', lambda e, s, m, k: e.crack1(s[0], s[1], m, k))
    op('FV', 'prime num', 'fv', lambda p, n: FiniteField(p).value(n))
    op('FVAdd', 'fv fv', 'fv', o.add)
    op('FVSub', 'fv fv', 'fv', o.sub)
    op('FVMul', 'fv fv', 'fv', o.mul)
    op('FVDiv', 'fv fv', 'fv', o.truediv)
    op('FVPow', 'fv unum', 'fv', o.pow)
    op('FVNeg', 'fv', 'fv', o.neg)
    op('FVEq', 'fv fv', '', o.eq)
    op('FVEqInt', 'fv num', '', o.eq)
    op('FVAddInt', 'fv num', 'fv', o.add)
    op('IntSubFV', 'num fv', 'fv', o.sub)
    op('FVInv', 'fv', '', lambda v: v.inverse())
    op('FVSqrt', 'fv', 'fv', lambda v: v.sqrt(0))
    op('FVSqrtCQ', 'fv', '', lambda v: importlib.import_module('neocore.Cryptography.ECCurve').sqrtCQ(v.value, v.field.p))
    op('Curve', 'prime num num', 'crv', lambda p, a, b: EllipticCurve(FiniteField(p), a, b))
    op('CvPoint', 'crv num num', 'tpt', lambda c, x, y: c.point(x, y))
    op('CvDecompress', 'crv small', 'tpt', lambda c, x: c.decompress_from_curve(x, 0))
    op('CvDecompress1', 'crv small', 'tpt', lambda c, x: c.decompress_from_curve(x, 1))
    op('CvFind', 'crv small', 'tpt', lambda c, x: c.decompress(x, 0))
    op('CvOn', 'crv tpt', '', lambda c, p: c.isoncurve(p))
    op('CvAdd', 'tpt tpt', 'tpt', o.add)
    op('CvMul', 'tpt small', 'tpt', o.mul)
    op('CvNeg', 'tpt', 'tpt', o.neg)
    op('CvEq', 'tpt tpt', '', o.eq)
    # trees
    op('Tree', 'listu', 'tree', lambda l: MerkleTree(l))
    op('ComputeRoot', 'listu', 'u256', lambda l: MerkleTree.ComputeRoot(l))
    op('ToHashArray', 'tree', 'listu', lambda t: in_order(t.ToHashArray()))
    op('Trim', 'tree buf', '', lambda t, b: t.Trim(b))
    op('TrimList', 'tree flags', '', lambda t, b: t.Trim(b))
    op('LeafTest', 'tree', '', lambda t: [t.Root.IsLeaf(), t.Root.IsRoot(), t.Depth])
    # streams
    op('W', '', 'w', lambda: BinaryWriter(io.BytesIO()))
    op('R', 'buf', 'r', lambda b: BinaryReader(io.BytesIO(b)))
    op('RofW', 'w', 'r', lambda w: BinaryReader(io.BytesIO(w.stream.getvalue())))
    for n, a in (('WriteByte', 'byte'), ('WriteVarInt', 'unum'), ('WriteVarBytes', 'buf'), ('WriteVarString', 'text'),
                 ('WriteUInt160', 'u160'), ('WriteUInt256', 'u256'), ('WriteUInt32', 'unum'), ('WriteUInt64', 'unum'), ('WriteBool', 'unum'),
                 ('WriteFixed8', 'f8'), ('WriteSerializableArray', 'listu')):
        op(n, 'w ' + a, '', lambda w, x, n=n: getattr(w, n)(x))
    op('WriteBytes', 'w buf', '', lambda w, b: w.WriteBytes(b, unhex=False))
    op('WriteBytesHex', 'w hex', '', lambda w, b: w.WriteBytes(b))
    op('WriteFixedString', 'w text', '', lambda w, s: w.WriteFixedString(s, 24))
    op('WriteHashes', 'w hex64 hex64', '', lambda w, a, b: w.WriteHashes([a, b]))
    op('WriteHashList', 'w listh', '', lambda w, l: w.WriteHashes(l))
    op('WriteList256', 'w listh', '', lambda w, l: w.Write2000256List(l))
    op('ReadHashes', 'r', 'listh', lambda r: r.ReadHashes() if r.stream.getbuffer()[r.stream.tell():r.stream.tell() + 1] < b'\x20' else [])
    op('WriteInt16', 'w num', '', lambda w, n: w.WriteInt16(n, '>'))
    op('WriteInt64', 'w num64', '', lambda w, n: w.WriteInt64(n))
    op('WriteDouble', 'w fl', '', lambda w, n: w.WriteDouble(n))
    op('WriteFloat', 'w fl', '', lambda w, n: w.WriteFloat(n, '>'))
    op('ReadInt16', 'r', 'num64', lambda r: r.ReadInt16('>'))
    op('ReadDouble', 'r', '', lambda r: r.ReadDouble())
    op('ReadString', 'r', 'raw', lambda r: r.ReadString())
    op('ReadChar', 'r', '', lambda r: r.ReadChar())
    op('WritePoint', 'w pt', '', lambda w, p: p.Serialize(w))
    op('WriteUInt', 'w uint', '', lambda w, u: u.Serialize(w))
    for n, k in (('ReadByte', ''), ('ReadBool', ''), ('ReadUInt32', 'unum'), ('ReadUInt64', 'unum'), ('ReadVarInt', 'unum'), ('ReadVarBytes', 'raw'),
                 ('ReadVarString', 'raw'), ('ReadUInt160', 'u160'), ('ReadUInt256', 'u256'), ('ReadFixed8', 'f8')):
        op(n, 'r', k, lambda r, n=n: getattr(r, n)())
    op('CloseW', 'w', '', lambda w: w.stream.close())
    op('CloseR', 'r', '', lambda r: r.stream.close())
    op('ReadBytes', 'r', 'raw', lambda r: r.ReadBytes(5))
    op('SafeReadBytes', 'r', 'raw', lambda r: r.SafeReadBytes(3))
    op('ReadFixedString', 'r', 'raw', lambda r: r.ReadFixedString(4))
    op('ReadArray160', 'r', '', lambda r: r.ReadSerializableArray('neocore.UInt160.UInt160', 20))
    op('ReadArray256', 'r', 'listu', lambda r: r.ReadSerializableArray('neocore.UInt256.UInt256', 20))
    op('ReadPoint', 'r', 'pt', lambda r: ECDSA.Deserialize_Secp256r1(r))
    return ops


def in_order(l):
    l.sort()
    return l


ALTERS = set('''CloseW CloseR Poke PokeList PushList WriteByte WriteBytes WriteBytesHex WriteVarInt WriteVarBytes WriteVarString WriteFixedString WriteUInt160
WriteUInt256 WriteUInt32 WriteUInt64 WriteBool WriteFixed8 WriteSerializableArray WriteHashes WritePoint WriteUInt ReadByte ReadBytes SafeReadBytes ReadVarInt
ReadVarBytes ReadVarString ReadUInt160 ReadUInt256 ReadUInt32 ReadUInt64 ReadBool ReadFixed8 ReadFixedString ReadPoint ReadArray160 ReadArray256 Trim
PushListH TrimList WriteHashList WriteList256 ReadHashes WriteInt16 WriteInt64 WriteDouble WriteFloat ReadInt16 ReadDouble ReadString ReadChar'''.split())
DRAWS = {'RandomKey', 'FVSqrtCQ', 'CvDecompress', 'CvDecompress1'}
SLOW = {'ExportNEP2', 'FromNEP2', 'FindPk', 'EcVerify', 'EcSign', 'RandomKey'}
SLOWER = {'ExportNEP2': 0.12, 'FromNEP2': 0.12}
SMALL = [7, 11, 13, 17, 19, 23, 29, 31, 41]
PRIMES = SMALL + [2 ** 127 - 1, N, 2 ** 255 - 19]


# ------------------------------------------------------------- programs

class Maker:
    def __init__(self, rng, ops):
        self.rng, self.ops = rng, ops
        self.steps, self.kind, self.made = [], [], {}

    def literal(self, k):
        """a value of a kind, often a relative of an earlier one"""
        r = self.rng
        old = self.made.setdefault(k, [])
        if old and r.random() < 0.75:
            v = r.choice(old)
            if r.random() < 0.75:
                v = self.relative(k, v)
        else:
            v = self.anew(k)
        old.append(v)
        return v

    def anew(self, k):
        r = self.rng
        rb = lambda n: bytes(r.getrandbits(8) for _ in range(n))
        if k in ('raw', 'barr', 'res'):
            b = rb(r.choice((300, 2100, 4097, 9000))) if r.random() < 0.03 else rb(r.choice((0, 1, 2, 4, 20, 21, 32, 33, 40, 64, 70))) if r.random() < 0.7 else r.choice((b'\x02', b'\x01' * 3, b'\xfd\x01\x00', b'00', b'hello', b'\xc3\xa9'))
            return {'y': 'bytearray' if k != 'raw' else 'bytes', 'h': (b or (b'\0' if k != 'raw' else b)).hex()}
        if k in ('raw20', 'barr20', 'raw32', 'barr32'):
            n = int(k[-2:])
            return {'y': 'bytes' if k[0] == 'r' else 'bytearray', 'h': r.choice((rb(n), rb(n), bytes(n), rb(4) + bytes(n - 4), bytes(n - 1) + rb(1))).hex()}
        if k in ('priv', 'bpriv', 'privhex'):
            h = '%064x' % fam_sign.privkey(r)
            return {'y': 'str', 'v': h} if k == 'privhex' else {'y': 'bytes' if k == 'priv' else 'bytearray', 'h': h}
        if k in ('pub33', 'pubb', 'pubs', 'pub64', 'pub64priv', 'pubraw', 'pub65'):
            d = fam_sign.privkey(r)
            q = fam_sign.pmul(d)
            c, l = fam_sign.c33(q), fam_sign.r64(q)
            if k in ('pubb', 'pubs'):
                t = r.choice((c.hex(), c.hex(), '04' + l.hex()))
                t = c.hex() if k == 'pubb' else t
                return {'y': 'str', 'v': t} if k == 'pubs' else {'y': 'bytes', 'h': t.encode().hex()}
            b = {'pub33': c, 'pub64': l, 'pub64priv': l + d.to_bytes(32, 'big'), 'pub65': b'\x04' + l}.get(k) or r.choice((c, b'\x04' + l, l, l + d.to_bytes(32, 'big')))
            return {'y': 'bytes', 'h': b.hex()}
        if k in ('hexs', 'hexb', 'hex64'):
            t = rb(32 if k == 'hex64' else r.choice((300, 2100, 4097, 9000)) if r.random() < 0.05 else r.choice((0, 1, 2, 20, 21, 32, 40))).hex()
            return {'y': 'str', 'v': t} if k != 'hexb' else {'y': 'bytes', 'h': t.encode().hex()}
        if k == 'sig':
            return {'y': 'bytearray', 'h': rb(64).hex()}
        if k == 'wif':
            import base58
            b = b'\x80' + fam_sign.privkey(r).to_bytes(32, 'big') + b'\x01'
            return {'y': 'str', 'v': base58.b58encode_check(b).decode()}
        if k == 'nep2':
            return {'y': 'str', 'v': '6PYVPVe1fQznphjbUxXP9KZJqPMVnVwCx5s5pr5axRJ8uHkMtZg97eT5kL'}
        if k == 'addr':
            import base58
            return {'y': 'str', 'v': base58.b58encode_check(b'\x17' + rb(20)).decode()}
        if k == 'text':
            return {'y': 'str', 'v': r.choice(('a', 'ab', 'AB', '\u00e9', 'e\u0301', 'hello', 'pass word', '', '12', ' 12 ', '0012', 'TestingOneTwoThree', 'correct horse battery'))}
        if k in ('dec', 'decb', 'dd'):
            t = r.choice(('1', '1.5', '0.00000001', '-2.25', '123456789.12345678', '1e3', '1E-8', '0.1', '-0', '%d.%08d' % (r.getrandbits(40), r.randrange(10 ** 8)), '0.123456789'))
            return {'y': 'str' if k == 'dec' else 'Decimal', 'v': t} if k != 'decb' else {'y': 'bytes', 'h': t.encode().hex()}
        if k == 'fl':
            return {'y': 'float', 'v': r.choice((1.0, 0.5, 0.1, -2.25, 1e10, 0.0, 3.0))}
        if k == 'small':
            return {'y': 'int', 'v': r.choice((0, 1, 2, 3, 5, r.randrange(40)))}
        if k == 'prime':
            return {'y': 'int', 'v': r.choice(PRIMES)}
        if k == 'byte':
            return {'y': 'int', 'v': r.choice((0, 1, 127, 255, 256, -1))} if r.random() < 0.7 else {'y': 'bytes', 'h': '41'}
        n = r.choice((0, 1, 2, 3, 100, 252, 253, 254, r.randrange(1000), 0xffff, 0x10000, 0xffffffff, 2 ** 32, 2 ** 61 - 1, 2 ** 63 - 1, 10 ** 8, r.getrandbits(64), r.getrandbits(20), r.getrandbits(256)))
        if k == 'unum':
            return {'y': 'int', 'v': n}
        if k == 'num64':
            return {'y': 'int', 'v': (n % 2 ** 63) * r.choice((1, -1))}
        return {'y': 'int', 'v': n * r.choice((1, -1))}

    def relative(self, k, v):
        """like another value in something: part of the content, length, hash, or what it is equal to"""
        r = self.rng
        v = dict(v)
        if k in ('pub33', 'pubb'):
            b = bytes.fromhex(v['h'])
            if k == 'pub33':
                v['h'] = (bytes([5 - b[0]]) + b[1:]).hex()
            else:
                v['h'] = (b'0' + (b'2' if b[1:2] == b'3' else b'3') + b[2:]).hex()
            return v
        if k == 'prime':
            return {'y': 'int', 'v': r.choice(SMALL)}
        if k == 'small':
            return {'y': 'int', 'v': max(0, v['v'] + r.choice((1, -1)))}
        if k in ('wif', 'addr') and v['v'] and r.random() < 0.7:
            i = r.choice((len(v['v']) - 1, r.randrange(1, len(v['v']))))
            a = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
            v['v'] = v['v'][:i] + a[(a.find(v['v'][i]) + 1) % 58] + v['v'][i + 1:]
            return v
        if k in ('wif', 'addr', 'pubs', 'pub64', 'pub65', 'pub64priv', 'pubraw', 'nep2', 'prime'):
            return self.anew(k) if k != 'nep2' else v
        if v['y'] in ('bytes', 'bytearray'):
            b = bytearray.fromhex(v['h'])
            if not b:
                return self.anew(k)
            c = r.random()
            i = r.choice((0, len(b) - 1, r.randrange(len(b))))
            if k == 'priv' or k == 'bpriv':
                i = r.randrange(1, len(b))
            if k == 'hexb':
                b[i] = ord('0123456789abcdef'[(b[i] + 1) % 16])
            elif k == 'decb' or k == 'dd':
                return self.anew(k)
            elif c < 0.2 and k in ('raw', 'barr'):
                b.append(r.choice((0, 1)))
            elif c < 0.3 and k in ('raw', 'barr'):
                b.reverse()
            elif c < 0.4 and len(b) > 1 and k in ('raw', 'barr'):
                b.pop(0)
            else:
                b[i] ^= 1 << r.randrange(8)
            v['h'] = b.hex()
            return v
        if v['y'] == 'str':
            t = v['v']
            if not t:
                return self.anew(k)
            if k in ('hexs', 'hex64', 'privhex'):
                i = r.randrange(1 if k == 'privhex' else 0, len(t))
                t = t[:i] + '0123456789abcdef'[(int(t[i], 16) + 1) % 16] + t[i + 1:]
                if k != 'privhex' and r.random() < 0.3:
                    t = t.upper()
            elif k == 'dec':
                t = r.choice((t + '0' if '.' in t and 'e' not in t.lower() else t + '.0' if 'e' not in t.lower() else t, '-' + t.lstrip('-'), '1' + t.lstrip('-')))
            else:
                t = r.choice((t.upper(), t.lower(), t + ' ', t[:-1] + chr(ord(t[-1]) + 1), t[::-1]))
            v['v'] = t
            return v
        if v['y'] == 'int':
            n = v['v']
            v['v'] = r.choice((n + 1, n ^ 1, -n, n % 2 ** 61, n + 2 ** 61 - 1, n * 256, n >> 8, n + 256, n + 2 ** 32))
            if k in ('unum',):
                v['v'] = abs(v['v'])
            if k == 'num64':
                v['v'] = v['v'] % 2 ** 62
            if k == 'byte':
                v['v'] %= 260
            return v
        return v

    def lit(self, k):
        v = self.literal(k)
        self.steps.append({'op': 'Lit', 'a': [], 'v': v})
        self.kind.append(k)
        return len(self.steps)

    def fit(self, k):
        ks = KINDS.get(k, [k])
        return [i + 1 for i, x in enumerate(self.kind) if x in ks or (k == 'pubraw' and x in ('pub33', 'pub65'))]

    def arg(self, k, fresh=0.3, deep=0):
        """a step that gives an argument of that kind"""
        r = self.rng
        have = self.fit(k)
        if have and r.random() > fresh:
            return r.choice(have[-3:]) if r.random() < 0.7 else r.choice(have)
        ks = KINDS.get(k, [k])
        x = r.choice(ks)
        by = [o for o, (a, res, _) in self.ops.items() if res == x and o not in SLOW and (deep < 2 or not a)]
        if x in LITERALS and (not by or r.random() < 0.75 or deep >= 2):
            return self.lit(x)
        if x == 'sig' or not by:
            return self.lit(x) if x in LITERALS else self.make(r.choice(PLAIN.get(x, by) or by), deep + 1)
        return self.make(r.choice(PLAIN[x] if x in PLAIN and r.random() < 0.6 else by), deep + 1)

    def make(self, o, deep=0, use=None):
        args, res, _ = self.ops[o]
        a = []
        for i, k in enumerate(args):
            if use and use in self.fit(k) and use not in a:
                a.append(use)
            else:
                a.append(self.arg(k, deep=deep))
        self.steps.append({'op': o, 'a': a})
        self.kind.append(res or '-')
        return len(self.steps)

    def twin(self, i):
        """step i once more with one of the literals it is made from exchanged for a relative"""
        s = self.steps[i - 1]
        if s['op'] == 'Lit':
            v = self.relative(self.kind[i - 1], s['v'])
            self.steps.append({'op': 'Lit', 'a': [], 'v': v})
            self.kind.append(self.kind[i - 1])
        else:
            a = list(s['a'])
            if a:
                j = self.rng.randrange(len(a))
                a[j] = self.twin(a[j])
            self.steps.append({'op': s['op'], 'a': a})
            self.kind.append(self.ops[s['op']][1] or '-')
        return len(self.steps)

    def again(self):
        """an earlier step once more, on the same objects, or with one argument exchanged"""
        r = self.rng
        c = [s for s in self.steps if s['op'] != 'Lit']
        if not c:
            return
        s = r.choice(c)
        if s['op'] in SLOWER and r.random() < 0.8:
            return
        a = list(s['a'])
        if a and r.random() < 0.6:
            i = r.randrange(len(a))
            a[i] = self.arg(self.ops[s['op']][0][i], fresh=0.6)
        self.steps.append({'op': s['op'], 'a': a})
        self.kind.append(self.ops[s['op']][1] or '-')


LITERALS = set('''raw barr raw20 barr20 raw32 barr32 priv bpriv privhex pub33 pubb pubs pub64 pub65 pub64priv pubraw hexs hexb hex64 sig wif addr text dec decb dd fl
prime small byte unum num num64 nep2'''.split())
PLAIN = {'u160': ['U160'], 'u256': ['U256'], 'f8': ['F8'], 'big': ['Big'], 'kp': ['KeyPair'], 'pt': ['DecodeRaw', 'FromBytes', 'PublicKey'], 'ec': ['R1', 'K1'],
         'fv': ['FV'], 'crv': ['Curve'], 'tpt': ['CvPoint', 'CvDecompress', 'CvFind'], 'rs': ['EcSign'], 'listu': ['List2', 'List3', 'List5'], 'tree': ['Tree'], 'w': ['W'], 'r': ['R', 'RofW'], 'sig': ['Sign', 'SignInst'],
         'res': ['UToArray', 'Base256']}
OBJECTS = ['barr', 'barr20', 'barr32', 'bpriv', 'listu', 'w', 'r', 'tree', 'kp', 'u160', 'u256', 'f8', 'big', 'pt', 'sig', 'fv', 'hexs', 'raw', 'privhex', 'pub33', 'dec', 'addr', 'ec']


def start(prop, rng):
    return {'op': 'Start', 'prop': prop, 'curve': rng.choice(('', '', 'other', 'r1')), 'prec': rng.choice((0, 0, 0, 4)), 'seed': rng.randrange(3)}


def from_model(prop, hist, rng, ops, o):
    """the shape of a history of the model, its first object of a kind that o works on"""
    m = Maker(rng, ops)
    at = []
    ks = ops[o][0]
    k0 = rng.choice(ks) if ks else 'barr'
    k0 = rng.choice(KINDS.get(k0, [k0]))
    asked = 0
    for h in hist:
        if h['c'] == 'lit':
            at.append(m.arg(k0, fresh=1.0))
            continue
        i = at[h['a'] - 1]
        k = m.kind[i - 1]
        fits = [n for n, (a, res, _) in ops.items() if a and any(k in KINDS.get(x, [x]) for x in a) and n not in SLOWER]
        if h['c'] == 'make':
            c = [n for n in fits if ops[n][1] and n not in ALTERS and ops[n][1] in OBJECTS]
            at.append(m.make(rng.choice(c), use=i) if c else m.arg(k, fresh=0.9))
        elif h['c'] == 'alter' and any(n in ALTERS and k in KINDS.get(ops[n][0][0], [ops[n][0][0]]) for n in fits):
            m.make(rng.choice([n for n in fits if n in ALTERS and k in KINDS.get(ops[n][0][0], [ops[n][0][0]])]), use=i)
        elif o in fits and (not asked or rng.random() < 0.8):
            asked += 1
            m.make(o, use=i)
        elif fits:
            m.make(rng.choice(fits), use=i)
    return [start(prop, rng)] + m.steps


def at_random(prop, rng, ops, todo):
    m = Maker(rng, ops)
    few = rng.sample(sorted(ops), 6) + [todo.pop() if todo else rng.choice(sorted(ops)) for _ in range(3)]
    few = [o for o in few if o not in SLOWER or rng.random() < SLOWER[o]] or ['U256']
    size = rng.randrange(8, 22)
    while len(m.steps) < size:
        if m.steps and rng.random() < 0.4:
            m.again()
        else:
            m.make(rng.choice(few) if rng.random() < 0.85 else rng.choice([o for o in sorted(ops) if o not in SLOW]))
    return [start(prop, rng)] + m.steps


LENGTHS = [1, 2, 3, 19, 20, 21, 31, 32, 33, 40, 55, 56, 63, 64, 65, 70, 119, 128, 252, 253]


def twins(prop, rng, ops, o, lengths):
    """one operation on inputs that have much in common"""
    m = Maker(rng, ops)
    if o.startswith(('Write', 'Read')) and not lengths:
        # streams that end or refuse, then good ones
        x = [m.make('W') if o[0] == 'W' else m.make('R') for _ in range(3)]
        for n in range(rng.randrange(2, 8)):
            if n == 0 and rng.random() < 0.8:
                m_call(m, 'Close' + o[0], [x[0]])
            m.make(o, use=x[0])
        for n in range(5):
            m.make(o if rng.random() < 0.6 else rng.choice([z for z in ops if z in ALTERS and ops[z][0][0] == o[0].lower()]), use=x[1])
            m.make(o, use=x[2])
    elif lengths:
        j = next(j for j, k in enumerate(ops[o][0]) if k in ('buf', 'hex'))
        for n in lengths:
            b = bytes(rng.getrandbits(8) for _ in range(n))
            if ops[o][0][j] == 'hex':
                k = rng.choice(('hexs', 'hexb'))
                v = {'y': 'str', 'v': b.hex()} if k == 'hexs' else {'y': 'bytes', 'h': b.hex().encode().hex()}
            else:
                k = rng.choice(('raw', 'barr'))
                v = {'y': 'bytes' if k == 'raw' else 'bytearray', 'h': b.hex()}
            m.steps.append({'op': 'Lit', 'a': [], 'v': v})
            m.kind.append(k)
            x = len(m.steps)
            a = [x if i == j else m.arg(k) for i, k in enumerate(ops[o][0])]
            m_call(m, o, a)
            for _ in range(2):
                v = m.relative(m.kind[x - 1], m.steps[x - 1]['v'])
                m.steps.append({'op': 'Lit', 'a': [], 'v': v})
                m.kind.append(m.kind[x - 1])
                a[j] = len(m.steps)
                m_call(m, o, a)
    else:
        got = [m.make(o)]
        while len(got) < 7 and len(m.steps) < 34:
            got.append(m.twin(rng.choice((got[0], got[-1]))))
        m_call(m, o, m.steps[got[0] - 1]['a'])
    return [start(prop, rng)] + m.steps


def often(prop, rng, ops, o, n):
    """one operation many times over, on the same arguments or on many different ones"""
    m = Maker(rng, ops)
    first = m.make(o)
    a = m.steps[first - 1]['a']
    if rng.random() < 0.5 or not a:
        for i in range(n):
            m_call(m, o, a)
            if i % 16 == 15:
                m.again()
    else:
        got = first
        for _ in range(n):
            got = m.twin(rng.choice((first, got)))
            if len(m.steps) > 2 * n:
                break
        m_call(m, o, a)
        m_call(m, o, m.steps[got - 1]['a'])
    return [start(prop, rng)] + m.steps


def story(prop, rng, ops, x):
    """questions that need matching arguments, asked in any order and again"""
    m = Maker(rng, ops)
    if x == 'sign':
        ds, ps = [m.lit('priv') for _ in range(2)], []
        hs = [{'y': 'str', 'v': m.steps[d - 1]['v']['h']} for d in ds]
        qs = [fam_sign.pmul(int(h['v'], 16)) for h in hs]
        msgs = [m.lit('hexs') for _ in range(2)]
        sigs, pubs = [], []
        for i in (0, 1):
            m.steps.append({'op': 'Lit', 'a': [], 'v': hs[i]})
            m.kind.append('privhex')
            k = len(m.steps)
            for g in msgs[:2 - i]:
                sigs.append(m_call(m, rng.choice(('Sign', 'SignInst')), [g, k]))
            for q in (qs[i], (qs[i][0], fam_sign.P - qs[i][1])):
                b, kind = rng.choice(((fam_sign.c33(q), 'pub33'), (fam_sign.r64(q), 'pub64')))
                m.steps.append({'op': 'Lit', 'a': [], 'v': {'y': 'bytes', 'h': b.hex()}})
                m.kind.append(kind)
                pubs.append(len(m.steps))
            kp = m_call(m, 'KeyPair', [ds[i]])
            pubs.append(m_call(m, 'PublicKey', [kp]))
        for _ in range(10):
            m_call(m, rng.choice(('Verify', 'VerifyInst')), [rng.choice(msgs), rng.choice(sigs), rng.choice(pubs)])
            if rng.random() < 0.15:
                m_call(m, 'Poke', [rng.choice(sigs), m.lit('unum')])
    elif x == 'nep2':
        ks = [m_call(m, 'KeyPair', [m.lit('priv')]) for _ in range(2)]
        ts = [m.lit('text') for _ in range(2)]
        es = [m_call(m, 'ExportNEP2', [ks[0], ts[0]]), m_call(m, 'ExportNEP2', [rng.choice(ks), rng.choice(ts)])]
        if rng.random() < 0.4:
            for _ in range(2):
                m_call(m, 'FromNEP2', [rng.choice(es), rng.choice(ts)])
        else:                                        # the right passphrase, then ones like it
            m_call(m, 'FromNEP2', [es[0], ts[0]])
            v = m.steps[ts[0] - 1]['v']
            t = v['v']
            for z in rng.sample((t + 's', t + '\0', t[:-1], t.swapcase(), t + ' ', ' ' + t, t[:12] + '?', '?' + t[-12:], t[:8] + t[8:][::-1], t + t), 2):
                m.steps.append({'op': 'Lit', 'a': [], 'v': {'y': 'str', 'v': z}})
                m.kind.append('text')
                m_call(m, 'FromNEP2', [es[0], len(m.steps)])
        m_call(m, 'GetAddress', [ks[0]])
    elif x == 'ask':                                 # one object, asked this and that, again and again
        k = rng.choice('pt kp u160 u256 f8 big fv tree ec tpt crv listu listh r'.split())
        objs = [m.arg(k, fresh=1.0) for _ in range(rng.choice((1, 1, 2)))]
        if m.kind[objs[0] - 1] == k:
            fits = [n for n, (a, _, _) in ops.items() if a and k in KINDS.get(a[0], [a[0]]) and n not in SLOWER]
            asks = [n for n in fits if n not in ALTERS] or fits
            few = rng.sample(asks, min(len(asks), rng.choice((2, 3, 4))))
            for _ in range(12):
                m.make(rng.choice(few) if rng.random() < 0.85 else rng.choice(fits), use=rng.choice(objs))
    elif x == 'dec':                                 # long numbers, whatever the precision
        for _ in range(5):
            n = rng.choice((3, 9, 12, 17, 20, 29, 40))
            t = rng.choice(('', '-')) + str(rng.randrange(10 ** (n - 1), 10 ** n)) + rng.choice(('', '.%08d' % rng.randrange(10 ** 8), '.%012d' % rng.randrange(10 ** 12)))
            y = rng.choice(('str', 'bytes', 'Decimal'))
            m.steps.append({'op': 'Lit', 'a': [], 'v': {'y': 'bytes', 'h': t.encode().hex()} if y == 'bytes' else {'y': y, 'v': t}})
            m.kind.append({'str': 'dec', 'bytes': 'decb', 'Decimal': 'dd'}[y])
            i = len(m.steps)
            got = [m_call(m, o, [i]) for o in rng.sample(('F8TryParse', 'F8TryParse', 'F8TryParseP', 'F8FromDecimal'), 2) if o[2] == 'T' or y != 'bytes']
            for o in rng.sample(('F8ToString', 'F8Json', 'F8Ceil', 'F8Floor', 'F8ToInt', 'F8Neg'), 2):
                m_call(m, o, [rng.choice(got)])
        return [dict(start(prop, rng), prec=rng.choice((0, 4, 4)))] + m.steps
    elif x == 'alias':
        o = rng.choice(('UToArray', 'Base256', 'Base256W', 'Sign', 'ToHashArray', 'ReadArray256') * 2 + tuple(n for n in ops if any(set(KINDS.get(k, [k])) & set(KINDS['barrs']) for k in ops[n][0])
                       and n not in SLOWER))
        args = []
        for k in ops[o][0]:
            b = [z for z in KINDS.get(k, [k]) if z in KINDS['barrs'] and z in LITERALS]
            args.append(m.lit(rng.choice(b)) if b else m.arg(k, fresh=0.9))
            if k == 'unum' and rng.random() < 0.3:
                m.steps[-1]['v'] = {'y': 'int', 'v': 0}
        if o == 'ReadArray256':
            args = [m_call(m, 'R', [m.lit('raw')])]
            m.steps[-2]['v']['h'] = '01' + '%064x' % rng.getrandbits(256) + '00'
        got = []
        for _ in range(4):
            got.append(m_call(m, o, args))
            x = rng.choice(got + args)
            if m.kind[x - 1] in KINDS['barrs'] and (m.kind[x - 1] != 'sig' or x in got):
                m_call(m, 'Poke', [x, m.lit('unum')])
            elif m.kind[x - 1] == 'listu':
                m_call(m, 'PushList', [x, m.arg('u256')])
            elif rng.random() < 0.5:
                m.again()
    elif x == 'tree':
        us = [m.make('U256') for _ in range(rng.choice((2, 3, 4)))]
        ls = [m_call(m, 'List%d' % n, [rng.choice(us) for _ in range(n)]) for n in rng.sample((2, 3, 5), 2)]
        ts = [m_call(m, 'Tree', [rng.choice(ls)]) for _ in range(2)]
        for _ in range(12):
            o = rng.choice('Tree ComputeRoot ToHashArray ToHashArray Trim PokeList PushList'.split())
            a = [rng.choice(ts if o in ('ToHashArray', 'Trim') else ls)]
            if o == 'Trim':
                m.steps.append({'op': 'Lit', 'a': [], 'v': {'y': 'bytearray', 'h': bytes(rng.randrange(2) for _ in range(rng.randrange(0, 9))).hex()}})
                m.kind.append('-')
                a.append(len(m.steps))
            elif o[-4:] == 'List':
                a.append(rng.choice(us))
            i = m_call(m, o, a)
            if o == 'Tree':
                ts.append(i)
    else:
        ws = [m.make('W') for _ in range(2)]
        writes, reads = [[o for o in ops if ops[o][0][:1] == [y] and o in ALTERS] for y in 'wr']
        for _ in range(7):
            m.make(rng.choice(writes), use=rng.choice(ws))
        rs = [m_call(m, 'RofW', [w]) for w in ws + ws[:1]]
        for _ in range(9):
            m.make(rng.choice(writes) if rng.random() < 0.2 else rng.choice(reads), use=rng.choice(ws if rng.random() < 0.2 else rs))
    return [start(prop, rng)] + m.steps


def m_call(m, o, a):
    m.steps.append({'op': o, 'a': list(a)})
    m.kind.append(m.ops[o][1] or '-')
    return len(m.steps)


def expand(prop, tier, progs, rng):
    ops = lib()
    rng.shuffle(progs)
    names = sorted(set(ops) - set(SLOWER) - ALTERS | {'Trim', 'TrimList'})
    turn = []
    out = []
    for h in progs[:4000 if tier == 'thorough' else 900]:
        if not turn:
            turn = rng.sample(names, len(names))
        out.append(from_model(prop, h, rng, ops, turn.pop()))
    return out


def programs(prop, tier, rng):
    ops = lib()
    out, todo = [], []
    for x, n in (('sign', 90), ('nep2', 24), ('tree', 120), ('stream', 150), ('alias', 300), ('ask', 240), ('dec', 50)):
        out += [story(prop, rng, ops, x) for _ in range(n * (6 if tier == 'thorough' else 1))]
    for o in sorted(ops):
        if ops[o][0] and o not in SLOWER:
            for _ in range((12 if tier == 'thorough' else 2) * (12 if o.startswith('WriteVar') else 3 if o[:4] in ('Writ', 'Read') else 2 if set(KINDS) & set(ops[o][0]) or o in ALTERS else 1)):
                out.append(twins(prop, rng, ops, o, None))
            t = tier == 'thorough'
            for _ in range(4 if t else 1):
                out.append(often(prop, rng, ops, o, (20 if o in SLOW else 70 if t else 36)))
            if {'buf', 'hex'} & set(ops[o][0]):
                ls = rng.sample(LENGTHS, len(LENGTHS)) * (4 if tier == 'thorough' else 1)
                out += [twins(prop, rng, ops, o, ls[i:i + 4]) for i in range(0, len(ls), 4)]
    for _ in range(8000 if tier == 'thorough' else 900):
        if len(todo) < 3:
            todo = sorted(ops) + ['FindPk', 'EcSign', 'EcVerify']
            rng.shuffle(todo)
        out.append(at_random(prop, rng, ops, todo))
    return out


# ------------------------------------------------------------- execution

def short(t):
    return t if len(t) <= 72 else t[:20] + '..%d..' % len(t) + hashlib.sha256(t.encode()).hexdigest()[:24]


def text(x, depth=0):
    """everything that can be told about a value"""
    return short(full(x))


def full(x, depth=0):
    from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.Fixed8 import Fixed8
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.KeyPair import KeyPair
    from neocore.UIntBase import UIntBase
    n = type(x).__name__
    if x is None:
        return 'None'
    if isinstance(x, (bytes, bytearray)):
        return n + ':' + bytes(x).hex()
    if isinstance(x, str):
        return n + ':' + x
    if isinstance(x, (int, float)):
        return n + ':' + (repr(x) if isinstance(x, (bool, float)) else hex(x))
    if isinstance(x, decimal.Decimal):
        return 'Decimal:' + str(x)
    if isinstance(x, (list, tuple)) and depth < 5:
        return n + '[' + ', '.join(full(i, depth + 1) for i in x) + ']'
    if isinstance(x, UIntBase):
        return '%s:%s#%d' % (n, bytes(x.Data).hex(), hash(x))
    if isinstance(x, Fixed8):
        return 'Fixed8(%s)' % full(x.value)
    if isinstance(x, (BinaryReader, BinaryWriter)):
        if x.stream.closed:
            return n + ' closed'
        return '%s@%d:%s' % (n, x.stream.tell(), x.stream.getvalue().hex())
    if isinstance(x, FiniteField.Value):
        return 'Value(%s mod %x)' % (full(x.value), x.field.p)
    if isinstance(x, EllipticCurve.ECPoint):
        return 'Point(%s, %s, %s)' % (full(x.x), full(x.y), full([x.curve.field.p, x.curve.a, x.curve.b]))
    if isinstance(x, EllipticCurve):
        return 'Curve(%s)' % full([x.field.p, x.a, x.b])
    if isinstance(x, ECDSA):
        return 'ECDSA(%s, %s)' % (full(x.G), full(x.GFn.p))
    if isinstance(x, KeyPair):
        return 'KeyPair(%s, %s, %s)' % (full(x.PrivateKey), full(x.PublicKey), full(x.PublicKeyHash))
    if isinstance(x, MerkleTree):
        def walk(v, d=0):
            if v is None:
                return '-'
            if d > 12:
                return '...'
            return '(%s %s %s%s)' % (full(v.Hash), walk(v.LeftChild, d + 1), '=' if v.RightChild is v.LeftChild else walk(v.RightChild, d + 1), '' if v.Parent is None else '^')
        return 'Tree%s %s' % (x.Depth, walk(x.Root))
    return n


def literal(v):
    if v['y'] == 'bytes':
        return bytes.fromhex(v['h'])
    if v['y'] == 'bytearray':
        return bytearray.fromhex(v['h'])
    if v['y'] == 'Decimal':
        return decimal.Decimal(v['v'])
    return float(v['v']) if v['y'] == 'float' else v['v']


def run_step(ops, held, s, limit=20):
    """(value or None, text of the result)"""
    if s['op'] == 'Lit':
        x = literal(s['v'])
        return x, text(x)
    args = [held[i] for i in s['a']]
    fn = ops[s['op']][2]
    r, e = vlib.call(lambda: fn(*args), limit)
    t = e if e == 'TIMEOUT' else 'err' if e else text(r)
    if s['op'] == 'FVSqrtCQ' and type(r) is int:
        t = text(min(r, args[0].field.p - r))
    if s['op'] in ALTERS:
        t += ' -> ' + text(args[0])
    return r, t


def closure(steps, n):
    """the steps that step n (from 1) is made of: those that made and altered its arguments"""
    seen, todo = set(), [(n, n)]
    while todo:
        i, before = todo.pop()
        more = [(i, i)] if i not in seen else []
        more += [(m, m) for m in range(i + 1, before) if steps[m - 1]['op'] in ALTERS and steps[m - 1]['a'][0] == i]
        # a list shows the objects in it, none of which can be altered
        for m, _ in more:
            if m not in seen:
                seen.add(m)
                todo += [(a, m) for a in steps[m - 1]['a']]
    return sorted(seen)


def settings(where):
    import bitcoin.main as bm
    import locale
    c = decimal.getcontext()
    regs = '%s %s %s %s %s' % (bm.P, bm.N, bm.A, bm.B, bm.G)
    log = [(n, l.level, len(l.handlers), l.disabled, l.propagate) for n, l in sorted(logging.root.manager.loggerDict.items()) if isinstance(l, logging.Logger)]
    um = os.umask(0o22)
    os.umask(um)
    p = [sys.getrecursionlimit(), sys.get_int_max_str_digits(), os.getcwd(), sorted(os.listdir(where)), sorted(os.environ.items()), um, locale.setlocale(locale.LC_ALL),
         [str(signal.getsignal(i)) for i in (1, 2, 15, 10, 12)], log, logging.root.level, len(logging.root.handlers), logging.root.manager.disable,
         [str(f) for f in warnings.filters], threading.active_count(), gc.isenabled(), sys.getswitchinterval(), len(sys.path), id(sys.stdout), id(sys.stderr),
         sys.float_repr_style, sys.gettrace() is None, sys.getprofile() is None, os.times()[:0], time.tzname,
         [id(h) for h in (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.breakpointhook)], list(sys.meta_path) == META, sys.stdout.getvalue(),
         sorted(os.listdir('/proc/self/fd')), [gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()], socket.getdefaulttimeout(), [mpmath.mp.prec, mpmath.mp.dps],
         faulthandler.is_enabled(), sys.dont_write_bytecode, signal.getitimer(signal.ITIMER_VIRTUAL), os.getpriority(os.PRIO_PROCESS, 0), resource.getrlimit(resource.RLIMIT_NOFILE),
         [[m.__name__, hash(tuple((k, id(v)) for k, v in vars(m).items() if k not in ('P', 'N', 'A', 'B', 'Gx', 'Gy', 'G', '_')))] for m in USED]]
    return {'curve': 'secp256r1' if regs == R1REGS else regs[:40], 'random': hashlib.sha256(repr(random.getstate()).encode()).hexdigest()[:16],
            'decimal': repr((c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, [str(k) for k, v in c.traps.items() if v], decimal.DefaultContext.prec, decimal.DefaultContext.rounding)),
            'process': short(json.dumps(p, default=str)), 'full': p}


META = list(sys.meta_path)
# modules the library works with: nothing in them is exchanged
USED = [builtins, os, struct, binascii, hashlib, random, decimal, json, base58, time, bitcoin, bitcoin.main, bitcoin.py3specials, bitcoin.deterministic, scrypt, unicodedata, mpmath.libmp]


def unusual():
    """a process in which as little as possible is as it is by default"""
    warnings.filterwarnings('error', 'no such warning', UserWarning)
    warnings.filterwarnings('default', 'none such', DeprecationWarning, 'nowhere')
    sys.setswitchinterval(0.0045)
    sys.setrecursionlimit(1012)
    sys.set_int_max_str_digits(4400)
    gc.set_threshold(690, 11, 11)
    os.umask(0o26)
    socket.setdefaulttimeout(17.0)
    mpmath.mp.prec = 61
    for h in ('excepthook', 'displayhook', 'unraisablehook', 'breakpointhook'):
        setattr(sys, h, lambda *a, h=h: None)
    threading.excepthook = lambda *a: None
    signal.signal(signal.SIGUSR1, lambda *a: None)
    sys.stdout = io.StringIO()
    logging.disable(logging.DEBUG - 3)


R1REGS = '%s %s %s %s %s' % ((2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1), N, 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 4,
                             0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
                             (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5))


def settle(w):
    """what else happened in this process before"""
    import bitcoin
    import decimal
    if w['curve'] == 'other':
        bitcoin.change_curve(*fam_sign.CURVES[0])
    elif w['curve'] == 'r1':
        importlib.import_module('neocore.Cryptography.Crypto').Crypto.Default()
    if w['prec']:
        decimal.getcontext().prec = w['prec']
    if w['seed']:
        random.seed(w['seed'])


def execute(program):
    w, steps = program[0], program[1:]
    ops = lib()
    where = tempfile.mkdtemp(dir=os.environ['VERIF_TMP'])
    os.chdir(where)
    alone = []
    if w['prop'] == 'C32':
        memo = {}
        for n in range(1, len(steps) + 1):
            need = closure(steps, n)

            def run():
                held = {}
                for i in need:
                    held[i], t = run_step(ops, held, steps[i - 1], 8)
                return t
            # the same steps under other numbers give the same
            name = {i: j for j, i in enumerate(need)}
            key = json.dumps([[steps[i - 1]['op'], [name[a] for a in steps[i - 1]['a']], steps[i - 1].get('v')] for i in need])
            if key not in memo:
                memo[key] = steps[n - 1]['op'] == 'Lit' and text(literal(steps[n - 1]['v'])) or forked(run)
            if memo[key] == 'TIMEOUT' or memo[key].startswith('TIMEOUT'):
                steps = steps[:n - 1]
                break
            alone.append(memo[key])
    settle(w)
    unusual()
    env = settings(where)
    before = env.pop('full')
    out = [{'op': 'Start', 'prop': w['prop'], 'env': env, 'alone': alone, 'r': NONE}]
    held = {}
    for n, s in enumerate(steps):
        other = ''
        if s['op'] in DRAWS and w['prop'] == 'C31':
            def elsewhere():                    # the same from another state of the generator
                random.seed(random.getrandbits(64) + 1)
                run_step(ops, held, s)
                return settings(where)['random']
            other = forked(elsewhere)
        held[n + 1], t = run_step(ops, held, s)
        late = t.startswith('TIMEOUT')
        if late and w['prop'] == 'C31':
            break
        env = settings(where)
        now = env.pop('full')
        ev = {'op': s['op'], 'args': s['a'], 'lit': t if s['op'] == 'Lit' else '', 'res': t, 'after': [text(held[i]) for i in range(1, n + 2)], 'env': env, 'other': other, 'r': V('timeout') if late else NONE}
        if now != before:
            ev['setting'] = [short(json.dumps([a, b], default=str)) for a, b in zip(before, now) if a != b]
        out.append(ev)
        if late:
            break
    return out


def corrupt(events, rng):
    if len(events) < 3:
        return None
    i = rng.randrange(2, len(events))
    ev = copy.deepcopy(events[i])
    if events[0]['prop'] == 'C32':
        ev['res'] += '1'
        return events[:i] + [ev]
    c = rng.random()
    first = ev['args'][0] - 1 if ev['args'] and ev['op'] in ALTERS else None
    others = [j for j in range(i - 1) if j != first]
    if c < 0.6 and others:
        ev['after'][rng.choice(others)] += '1'
    elif c < 0.8:
        ev['env']['decimal'] += '1'
    elif c < 0.9:
        ev['env']['process'] += '1'
    elif ev['op'] not in DRAWS:
        ev['env']['random'] += '1'
    else:
        ev['env']['curve'] = 'else'
    return events[:i] + [ev]
