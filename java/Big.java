import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluates the natural-number operators of Big.tla with java.math.BigInteger. */
public class Big {
    static BigInteger nat(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        byte[] b = new byte[e.length + 1];
        for (int i = 0; i < e.length; i++) b[e.length - i] = (byte) ((IntValue) e[i]).val;
        return new BigInteger(b);
    }
    static final IntValue[] BYTE = new IntValue[256];
    static { for (int i = 0; i < 256; i++) BYTE[i] = IntValue.gen(i); }
    static Value val(BigInteger n) {
        if (n.signum() == 0) return new TupleValue(new Value[0]);
        byte[] b = n.toByteArray();
        int len = b.length, skip = (b[0] == 0) ? 1 : 0;
        Value[] e = new Value[len - skip];
        for (int i = 0; i < e.length; i++) e[i] = BYTE[b[len - 1 - i] & 255];
        return new TupleValue(e);
    }
    static int i(Value v) { return ((IntValue) v).val; }
    public static Value NNorm(Value a) { return val(nat(a)); }
    public static Value NFromInt(Value a) { return val(BigInteger.valueOf(i(a))); }
    public static Value NToInt(Value a) { return IntValue.gen(nat(a).intValueExact()); }
    public static Value NCmp(Value a, Value b) { return IntValue.gen(nat(a).compareTo(nat(b))); }
    public static Value NAdd(Value a, Value b) { return val(nat(a).add(nat(b))); }
    public static Value NSub(Value a, Value b) { return val(nat(a).subtract(nat(b))); }
    public static Value NMul(Value a, Value b) { return val(nat(a).multiply(nat(b))); }
    public static Value NDivMod(Value a, Value b) {
        BigInteger[] q = nat(a).divideAndRemainder(nat(b));
        return new TupleValue(new Value[] { val(q[0]), val(q[1]) });
    }
    public static Value NPow(Value a, Value k) { return val(nat(a).pow(i(k))); }
    public static Value NPowMod(Value a, Value e, Value m) { return val(nat(a).modPow(nat(e), nat(m))); }
    public static Value NInvMod(Value a, Value m) {
        BigInteger x = nat(a), p = nat(m);
        if (x.mod(p).signum() == 0) return val(BigInteger.ZERO);
        return val(x.modInverse(p));
    }
    public static Value NBitLen(Value a) { return IntValue.gen(nat(a).bitLength()); }
    public static Value NShl(Value a, Value k) { return val(nat(a).shiftLeft(i(k))); }
    public static Value NShr(Value a, Value k) { return val(nat(a).shiftRight(i(k))); }
}
