package verif;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC overrides of the operators of BigNat.tla (see there for the definitions). */
public class BigNatOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { BigNatOverrides.class }; }

    static final int B = 15;
    static final int MASK = (1 << B) - 1;

    static BigInteger in(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("BigNat: not a digit sequence: " + v);
        Value[] e = t.elems;
        int n = e.length;
        byte[] le = new byte[(n * B + 7) / 8 + 1];
        long acc = 0; int bits = 0, k = 0;
        for (int i = 0; i < n; i++) {
            acc |= ((long) ((IntValue) e[i]).val) << bits;
            bits += B;
            while (bits >= 8) { le[k++] = (byte) acc; acc >>>= 8; bits -= 8; }
        }
        if (bits > 0) le[k++] = (byte) acc;
        byte[] be = new byte[le.length];
        for (int i = 0; i < le.length; i++) be[i] = le[le.length - 1 - i];
        return new BigInteger(1, be);
    }

    static Value out(BigInteger b) {
        if (b.signum() < 0) throw new RuntimeException("BigNat: negative result");
        int n = (b.bitLength() + B - 1) / B;
        Value[] e = new Value[n];
        byte[] be = b.toByteArray();
        long acc = 0; int bits = 0, k = be.length - 1;
        for (int i = 0; i < n; i++) {
            while (bits < B && k >= 0) { acc |= ((long) (be[k--] & 0xff)) << bits; bits += 8; }
            e[i] = IntValue.gen((int) (acc & MASK));
            acc >>>= B; bits -= B; if (bits < 0) bits = 0;
        }
        return new TupleValue(e);
    }

    static int i(Value v) { return ((IntValue) v).val; }

    @TLAPlusOperator(identifier = "BOfNat", module = "BigNat", warn = false)
    public static Value bOfNat(Value n) { return out(BigInteger.valueOf(i(n))); }
    @TLAPlusOperator(identifier = "BAdd", module = "BigNat", warn = false)
    public static Value bAdd(Value a, Value b) { return out(in(a).add(in(b))); }
    @TLAPlusOperator(identifier = "BSub", module = "BigNat", warn = false)
    public static Value bSub(Value a, Value b) { return out(in(a).subtract(in(b))); }
    @TLAPlusOperator(identifier = "BMul", module = "BigNat", warn = false)
    public static Value bMul(Value a, Value b) { return out(in(a).multiply(in(b))); }
    @TLAPlusOperator(identifier = "BMod", module = "BigNat", warn = false)
    public static Value bMod(Value a, Value m) { return out(in(a).mod(in(m))); }
    @TLAPlusOperator(identifier = "BDiv", module = "BigNat", warn = false)
    public static Value bDiv(Value a, Value m) { return out(in(a).divide(in(m))); }
    @TLAPlusOperator(identifier = "BCmp", module = "BigNat", warn = false)
    public static Value bCmp(Value a, Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    @TLAPlusOperator(identifier = "BAddMod", module = "BigNat", warn = false)
    public static Value bAddMod(Value m, Value a, Value b) { return out(in(a).add(in(b)).mod(in(m))); }
    @TLAPlusOperator(identifier = "BSubMod", module = "BigNat", warn = false)
    public static Value bSubMod(Value m, Value a, Value b) { return out(in(a).subtract(in(b)).mod(in(m))); }
    @TLAPlusOperator(identifier = "BMulMod", module = "BigNat", warn = false)
    public static Value bMulMod(Value m, Value a, Value b) { return out(in(a).multiply(in(b)).mod(in(m))); }
    @TLAPlusOperator(identifier = "BPowMod", module = "BigNat", warn = false)
    public static Value bPowMod(Value m, Value a, Value e) { return out(in(a).modPow(in(e), in(m))); }
    @TLAPlusOperator(identifier = "BInvMod", module = "BigNat", warn = false)
    public static Value bInvMod(Value m, Value a) { return out(in(a).modInverse(in(m))); }
    @TLAPlusOperator(identifier = "BBitLen", module = "BigNat", warn = false)
    public static Value bBitLen(Value a) { return IntValue.gen(in(a).bitLength()); }
    @TLAPlusOperator(identifier = "BOfDigitsBE", module = "BigNat", warn = false)
    public static Value bOfDigitsBE(Value ds, Value r) {
        Value[] e = ((TupleValue) ds.toTuple()).elems;
        BigInteger acc = BigInteger.ZERO, rr = BigInteger.valueOf(i(r));
        for (Value v : e) acc = acc.multiply(rr).add(BigInteger.valueOf(i(v)));
        return out(acc);
    }
    @TLAPlusOperator(identifier = "BToDigitsLE", module = "BigNat", warn = false)
    public static Value bToDigitsLE(Value a, Value r, Value n) {
        BigInteger x = in(a), rr = BigInteger.valueOf(i(r));
        Value[] e = new Value[i(n)];
        for (int k = 0; k < e.length; k++) {
            BigInteger[] qr = x.divideAndRemainder(rr);
            e[k] = IntValue.gen(qr[1].intValue());
            x = qr[0];
        }
        return new TupleValue(e);
    }
}
