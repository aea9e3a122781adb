import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.text.Normalizer;
import javax.crypto.Cipher;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.*;

/** Evaluates the primitives declared in Prims.tla.  Nothing here comes from the code under test. */
public class Prims {
    static byte[] bytes(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        byte[] b = new byte[e.length];
        for (int i = 0; i < e.length; i++) b[i] = (byte) ((IntValue) e[i]).val;
        return b;
    }
    static Value val(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = Big.BYTE[b[i] & 255];
        return new TupleValue(e);
    }
    public static Value Sha256(Value m) throws Exception {
        return val(MessageDigest.getInstance("SHA-256").digest(bytes(m)));
    }
    public static Value Ripemd160(Value m) { return val(rmd(bytes(m))); }
    public static Value AesEncrypt(Value key, Value data) throws Exception { return aes(Cipher.ENCRYPT_MODE, key, data); }
    public static Value AesDecrypt(Value key, Value data) throws Exception { return aes(Cipher.DECRYPT_MODE, key, data); }
    static Value aes(int mode, Value key, Value data) throws Exception {
        Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
        c.init(mode, new SecretKeySpec(bytes(key), "AES"));
        return val(c.doFinal(bytes(data)));
    }
    /** code points of the NFC form of a sequence of code points (no lone surrogates) */
    public static Value Nfc(Value cps) {
        Value[] e = ((TupleValue) cps.toTuple()).elems;
        StringBuilder sb = new StringBuilder();
        for (Value v : e) sb.appendCodePoint(((IntValue) v).val);
        int[] out = Normalizer.normalize(sb, Normalizer.Form.NFC).codePoints().toArray();
        Value[] r = new Value[out.length];
        for (int i = 0; i < out.length; i++) r[i] = IntValue.gen(out[i]);
        return new TupleValue(r);
    }
    static final java.util.concurrent.ConcurrentHashMap<String, byte[]> MEMO = new java.util.concurrent.ConcurrentHashMap<>();
    public static Value Scrypt(Value pw, Value salt, Value n, Value r, Value p, Value dk) throws Exception {
        byte[] a = bytes(pw), s = bytes(salt);
        int N = Big.i(n), R = Big.i(r), P = Big.i(p), L = Big.i(dk);
        String key = java.util.Arrays.toString(a) + java.util.Arrays.toString(s) + N + "," + R + "," + P + "," + L;
        byte[] v = MEMO.get(key);
        if (v == null) { v = scrypt(a, s, N, R, P, L); MEMO.put(key, v); }
        return val(v);
    }
    // ---- scrypt (RFC 7914)
    static byte[] pbkdf2(byte[] pw, byte[] salt, int len) throws Exception {
        Mac mac = Mac.getInstance("HmacSHA256");
        mac.init(new SecretKeySpec(pw.length == 0 ? new byte[1] : pw, "HmacSHA256"));
        byte[] out = new byte[len];
        for (int i = 1, o = 0; o < len; i++) {
            mac.update(salt);
            byte[] t = mac.doFinal(new byte[] { (byte) (i >>> 24), (byte) (i >>> 16), (byte) (i >>> 8), (byte) i });
            int k = Math.min(32, len - o);
            System.arraycopy(t, 0, out, o, k);
            o += k;
        }
        return out;
    }
    static void salsa(int[] b) {
        int[] x = b.clone();
        for (int i = 0; i < 4; i++) {
            q(x, 0, 4, 8, 12); q(x, 5, 9, 13, 1); q(x, 10, 14, 2, 6); q(x, 15, 3, 7, 11);
            q(x, 0, 1, 2, 3); q(x, 5, 6, 7, 4); q(x, 10, 11, 8, 9); q(x, 15, 12, 13, 14);
        }
        for (int i = 0; i < 16; i++) b[i] += x[i];
    }
    static void q(int[] x, int a, int b, int c, int d) {
        x[b] ^= Integer.rotateLeft(x[a] + x[d], 7);
        x[c] ^= Integer.rotateLeft(x[b] + x[a], 9);
        x[d] ^= Integer.rotateLeft(x[c] + x[b], 13);
        x[a] ^= Integer.rotateLeft(x[d] + x[c], 18);
    }
    static void blockmix(int[] b, int r, int[] y) {
        int[] x = new int[16];
        System.arraycopy(b, (2 * r - 1) * 16, x, 0, 16);
        for (int i = 0; i < 2 * r; i++) {
            for (int j = 0; j < 16; j++) x[j] ^= b[i * 16 + j];
            salsa(x);
            System.arraycopy(x, 0, y, ((i & 1) * r + i / 2) * 16, 16);
        }
        System.arraycopy(y, 0, b, 0, b.length);
    }
    static byte[] scrypt(byte[] pw, byte[] salt, int n, int r, int p, int len) throws Exception {
        byte[] b = pbkdf2(pw, salt, p * 128 * r);
        int w = 32 * r;
        for (int i = 0; i < p; i++) {
            int[] x = new int[w], y = new int[w];
            int[] v = new int[n * w];
            for (int j = 0; j < w; j++) {
                int o = i * 128 * r + j * 4;
                x[j] = (b[o] & 255) | (b[o + 1] & 255) << 8 | (b[o + 2] & 255) << 16 | (b[o + 3] & 255) << 24;
            }
            for (int k = 0; k < n; k++) { System.arraycopy(x, 0, v, k * w, w); blockmix(x, r, y); }
            for (int k = 0; k < n; k++) {
                int j = x[(2 * r - 1) * 16] & (n - 1);
                for (int t = 0; t < w; t++) x[t] ^= v[j * w + t];
                blockmix(x, r, y);
            }
            for (int j = 0; j < w; j++) {
                int o = i * 128 * r + j * 4;
                b[o] = (byte) x[j]; b[o + 1] = (byte) (x[j] >>> 8); b[o + 2] = (byte) (x[j] >>> 16); b[o + 3] = (byte) (x[j] >>> 24);
            }
        }
        return pbkdf2(pw, b, len);
    }
    // ---- RIPEMD-160
    static final int[] R1 = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
    static final int[] R2 = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
    static final int[] S1 = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
    static final int[] S2 = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
    static final int[] K1 = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E};
    static final int[] K2 = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
    static int f(int j, int x, int y, int z) {
        switch (j) {
            case 0: return x ^ y ^ z;
            case 1: return (x & y) | (~x & z);
            case 2: return (x | ~y) ^ z;
            case 3: return (x & z) | (y & ~z);
            default: return x ^ (y | ~z);
        }
    }
    static byte[] rmd(byte[] m) {
        int n = ((m.length + 8) / 64 + 1) * 64;
        byte[] b = java.util.Arrays.copyOf(m, n);
        b[m.length] = (byte) 0x80;
        long bits = 8L * m.length;
        for (int i = 0; i < 8; i++) b[n - 8 + i] = (byte) (bits >>> (8 * i));
        int[] h = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
        for (int o = 0; o < n; o += 64) {
            int[] x = new int[16];
            for (int i = 0; i < 16; i++)
                x[i] = (b[o + 4 * i] & 255) | (b[o + 4 * i + 1] & 255) << 8 | (b[o + 4 * i + 2] & 255) << 16 | (b[o + 4 * i + 3] & 255) << 24;
            int[] l = h.clone(), r = h.clone();
            for (int j = 0; j < 80; j++) {
                int t = Integer.rotateLeft(l[0] + f(j / 16, l[1], l[2], l[3]) + x[R1[j]] + K1[j / 16], S1[j]) + l[4];
                l[0] = l[4]; l[4] = l[3]; l[3] = Integer.rotateLeft(l[2], 10); l[2] = l[1]; l[1] = t;
                t = Integer.rotateLeft(r[0] + f(4 - j / 16, r[1], r[2], r[3]) + x[R2[j]] + K2[j / 16], S2[j]) + r[4];
                r[0] = r[4]; r[4] = r[3]; r[3] = Integer.rotateLeft(r[2], 10); r[2] = r[1]; r[1] = t;
            }
            int t = h[1] + l[2] + r[3];
            h[1] = h[2] + l[3] + r[4]; h[2] = h[3] + l[4] + r[0]; h[3] = h[4] + l[0] + r[1]; h[4] = h[0] + l[1] + r[2]; h[0] = t;
        }
        byte[] out = new byte[20];
        for (int i = 0; i < 20; i++) out[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
        return out;
    }
}
