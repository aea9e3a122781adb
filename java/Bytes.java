import tlc2.value.impl.*;

/** Evaluates byte-wise operators of Bytes.tla; compared with their definitions by the setup. */
public class Bytes {
    public static Value XorBytes(Value a, Value b) {
        Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
        Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) e[i] = Big.BYTE[(((IntValue) x[i]).val ^ ((IntValue) y[i]).val) & 255];
        return new TupleValue(e);
    }
}
