import tlc2.value.impl.*;

/**
 * Evaluates the operators of the module Fix of the same names with 64/128-bit intermediates.
 * Their meaning is the TLA+ definition in spec/Fix.tla; TLC alone would stop at 32-bit overflow.
 */
public class Fix {
    private static final long LIM = 1000000000L;

    private static IntValue sat(long x) {
        return IntValue.gen((int) (x > LIM ? LIM : x < -LIM ? -LIM : x));
    }

    public static Value MulDiv(IntValue a, IntValue b, IntValue c) {
        long n = (long) a.val * (long) b.val;
        long d = c.val;
        if (d < 0) {
            n = -n;
            d = -d;
        }
        // |n| <= 2^62, so doubling needs care: floor((2n+d)/(2d)) = floor((n + d/2)/d) for even and odd d.
        long q = Math.floorDiv(n, d);
        long r = Math.floorMod(n, d);
        return sat(2 * r >= d ? q + 1 : q);
    }

    public static Value MulSqrt(IntValue a, IntValue b) {
        long n = (long) a.val * (long) b.val;
        if (n <= 0) return IntValue.gen(0);
        long r = (long) Math.sqrt((double) n);
        while (r * r > n) r--;
        while ((r + 1) * (r + 1) <= n) r++;
        return sat(r);
    }

    public static Value SeqSum(Value q) {
        TupleValue t = (TupleValue) q.toTuple();
        long acc = 0;
        for (Value v : t.elems) {
            acc += ((IntValue) v).val;
            acc = acc > LIM ? LIM : acc < -LIM ? -LIM : acc;
        }
        return sat(acc);
    }

    public static Value DotDiv(Value a, Value b, IntValue c) {
        TupleValue x = (TupleValue) a.toTuple();
        TupleValue y = (TupleValue) b.toTuple();
        java.math.BigInteger n = java.math.BigInteger.ZERO;
        long acc = 0;
        boolean big = x.elems.length > 1;
        long limit = Long.MAX_VALUE / 4;
        for (int i = 0; i < x.elems.length; i++) {
            long p = (long) ((IntValue) x.elems[i]).val * (long) ((IntValue) y.elems[i]).val;
            if (acc > limit || acc < -limit) {
                n = n.add(java.math.BigInteger.valueOf(acc));
                acc = 0;
            }
            acc += p;
        }
        n = n.add(java.math.BigInteger.valueOf(acc));
        long d = c.val;
        if (n.bitLength() < 62) {
            long m = n.longValue();
            long q = Math.floorDiv(m, d);
            long r = Math.floorMod(m, d);
            return sat(2 * r >= d ? q + 1 : q);
        }
        return sat(n.signum() > 0 ? LIM : -LIM);
    }
}
