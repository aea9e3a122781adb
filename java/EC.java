import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluates ECMul of EC.tla: double-and-add with java.math.BigInteger. */
public class EC {
    static final BigInteger TWO = BigInteger.valueOf(2), THREE = BigInteger.valueOf(3);
    static BigInteger[] add(BigInteger p, BigInteger a, BigInteger[] P, BigInteger[] Q) {
        if (P == null) return Q;
        if (Q == null) return P;
        BigInteger l;
        if (P[0].equals(Q[0])) {
            if (!P[1].equals(Q[1]) || P[1].signum() == 0) return null;
            l = P[0].multiply(P[0]).multiply(THREE).add(a).multiply(P[1].multiply(TWO).modInverse(p)).mod(p);
        } else {
            l = Q[1].subtract(P[1]).multiply(Q[0].subtract(P[0]).modInverse(p)).mod(p);
        }
        BigInteger x = l.multiply(l).subtract(P[0]).subtract(Q[0]).mod(p);
        return new BigInteger[] { x, l.multiply(P[0].subtract(x)).subtract(P[1]).mod(p) };
    }
    static BigInteger field(Value c, String f) {
        return Big.nat((Value) ((RecordValue) c.toRcd()).apply(new StringValue(f), 0));
    }
    public static Value ECMul(Value c, Value k, Value pt) {
        BigInteger p = field(c, "p"), a = field(c, "a"), n = Big.nat(k);
        Value[] e = ((TupleValue) pt.toTuple()).elems;
        BigInteger[] P = e.length == 0 ? null : new BigInteger[] { Big.nat(e[0]), Big.nat(e[1]) }, acc = null;
        for (int i = 0; i < n.bitLength(); i++) {
            if (n.testBit(i)) acc = add(p, a, acc, P);
            P = add(p, a, P, P);
        }
        if (acc == null) return new TupleValue(new Value[0]);
        return new TupleValue(new Value[] { Big.val(acc[0]), Big.val(acc[1]) });
    }
}
