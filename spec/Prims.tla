------------------------------- MODULE Prims -------------------------------
(***************************************************************************)
(* Cryptographic and Unicode primitives the NEO formats are built from.    *)
(* They are parameters of the specification: functions of byte sequences   *)
(* evaluated by java/Prims.java (the JDK's SHA-256, HMAC, AES and Unicode  *)
(* normaliser; RIPEMD-160 and scrypt are implemented there and checked     *)
(* against published vectors in PrimsSelfTest.tla).  Nothing of the code   *)
(* under test or of the libraries it uses is involved.                     *)
(***************************************************************************)
EXTENDS Sequences

Undefined(name) == CHOOSE x \in {} : x = name

Sha256(bytes) == Undefined("Sha256")
Ripemd160(bytes) == Undefined("Ripemd160")
AesEncrypt(key, bytes) == Undefined("AesEncrypt")     \* AES, ECB, no padding
AesDecrypt(key, bytes) == Undefined("AesDecrypt")
Scrypt(pw, salt, n, r, p, len) == Undefined("Scrypt")
Nfc(codepoints) == Undefined("Nfc")                   \* Unicode NFC

Hash256(b) == Sha256(Sha256(b))
Hash160(b) == Ripemd160(Sha256(b))
=============================================================================
