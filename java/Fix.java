import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/**
 * TLC module override for spec/Fix.tla: real numbers as fixed-point values with 200 fractional
 * bits (resolution 6e-61).  Everything the specification says about the system is written in TLA+
 * on top of these few primitives; this class only does arithmetic.
 */
public class Fix {
    static final int S = 200;
    static final BigInteger ONE = BigInteger.ONE.shiftLeft(S);
    static final BigInteger PI;

    static {
        // Machin: pi = 16 atan(1/5) - 4 atan(1/239)
        PI = atanInv(5).multiply(BigInteger.valueOf(16)).subtract(atanInv(239).multiply(BigInteger.valueOf(4))).shiftRight(16);
    }

    static BigInteger atanInv(int n) { // scaled by S+16 bits
        BigInteger one = BigInteger.ONE.shiftLeft(S + 16), nn = BigInteger.valueOf((long) n * n);
        BigInteger p = one.divide(BigInteger.valueOf(n)), sum = p;
        for (int k = 1; p.signum() != 0; k++) {
            p = p.divide(nn).negate();
            sum = sum.add(p.divide(BigInteger.valueOf(2 * k + 1)));
        }
        return sum;
    }

    public static final class Num extends UserObj {
        final BigInteger v;
        Num(BigInteger v) { this.v = v; }
        public int compareTo(Value o) {
            UserObj u = ((UserValue) o).userObj;
            return v.compareTo(((Num) u).v);
        }
        public boolean member(Value o) { throw new RuntimeException("member of a Fix number"); }
        public boolean isFinite() { return false; }
        public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append(str(v)); }
    }

    public static final class FV extends UserValue {
        FV(BigInteger v) { super(new Num(v)); }
        BigInteger v() { return ((Num) userObj).v; }
        @Override public long fingerPrint(long fp) {
            byte[] b = v().toByteArray();
            for (byte x : b) fp = FP64.Extend(fp, (int) x);
            return fp;
        }
    }

    static String str(BigInteger v) {
        BigDecimal d = new BigDecimal(v).divide(new BigDecimal(ONE), new MathContext(18));
        return Double.toString(d.doubleValue());
    }

    static BigInteger n(Value x) {
        if (x instanceof FV) return ((FV) x).v();
        if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val).shiftLeft(S);
        throw new RuntimeException("not a Fix number: " + x);
    }

    static Value w(BigInteger v) { return new FV(v); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static BigInteger parse(String s) {
        double d = Double.parseDouble(s);
        if (Double.isNaN(d) || Double.isInfinite(d)) throw new RuntimeException("not finite: " + s);
        return new BigDecimal(d).multiply(new BigDecimal(ONE)).toBigInteger();
    }

    /** F(x): the exact value of the IEEE double written as string x, or of the integer x. */
    public static Value F(Value s) {
        if (s instanceof FV) return s;
        if (s instanceof IntValue) return w(n(s));
        return w(parse(((StringValue) s).val.toString()));
    }
    public static Value FIsNum(Value s) {
        if (s instanceof FV || s instanceof IntValue) return BoolValue.ValTrue;
        String t = ((StringValue) s).val.toString();
        return b(!(t.equals("nan") || t.equals("inf") || t.equals("-inf")));
    }
    public static Value FQ(Value p, Value q) {
        return w(BigInteger.valueOf(((IntValue) p).val).shiftLeft(S).divide(BigInteger.valueOf(((IntValue) q).val)));
    }
    public static Value FAdd(Value a, Value c) { return w(n(a).add(n(c))); }
    public static Value FSub(Value a, Value c) { return w(n(a).subtract(n(c))); }
    static BigInteger mul(BigInteger a, BigInteger c) { return a.multiply(c).shiftRight(S); }
    public static Value FMul(Value a, Value c) { return w(mul(n(a), n(c))); }
    public static Value FDiv(Value a, Value c) {
        BigInteger d = n(c);
        if (d.signum() == 0) throw new RuntimeException("Fix division by zero");
        return w(n(a).shiftLeft(S).divide(d));
    }
    public static Value FNeg(Value a) { return w(n(a).negate()); }
    public static Value FAbs(Value a) { return w(n(a).abs()); }
    public static Value FLt(Value a, Value c) { return b(n(a).compareTo(n(c)) < 0); }
    public static Value FLeq(Value a, Value c) { return b(n(a).compareTo(n(c)) <= 0); }
    public static Value FSign(Value a) { return IntValue.gen(n(a).signum()); }
    public static Value FFloor(Value a) { return IntValue.gen(n(a).shiftRight(S).intValueExact()); }
    public static Value FSqrt(Value a) {
        BigInteger x = n(a);
        if (x.signum() < 0) throw new RuntimeException("Fix sqrt of negative");
        return w(x.shiftLeft(S).sqrt());
    }
    static BigInteger expI(BigInteger x) {
        // halve until small, Taylor, square back
        int k = 0;
        int G = 64;
        BigInteger y = x.shiftLeft(G);
        BigInteger one = BigInteger.ONE.shiftLeft(S + G);
        while (y.abs().compareTo(one.shiftRight(8)) > 0) { y = y.shiftRight(1); k++; }
        BigInteger t = one, sum = one;
        for (int i = 1; t.signum() != 0 && i < 200; i++) {
            t = t.multiply(y).shiftRight(S + G).divide(BigInteger.valueOf(i));
            sum = sum.add(t);
        }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum).shiftRight(S + G);
        return sum.shiftRight(G);
    }
    public static Value FExp(Value a) { return w(expI(n(a))); }
    static BigInteger[] sincos(BigInteger x) {
        int G = 32;
        BigInteger twopi = PI.shiftLeft(1);
        BigInteger r = x.mod(twopi);
        // reduce by 2^8 and use double angle
        int k = 8;
        BigInteger y = r.shiftLeft(G).shiftRight(k), one = BigInteger.ONE.shiftLeft(S + G);
        BigInteger y2 = y.multiply(y).shiftRight(S + G);
        BigInteger t = y, s = y;
        for (int i = 1; t.signum() != 0 && i < 100; i++) {
            t = t.multiply(y2).shiftRight(S + G).divide(BigInteger.valueOf((2L * i) * (2L * i + 1))).negate();
            s = s.add(t);
        }
        BigInteger c = BigInteger.ZERO; // 1 - cos, accurate
        t = one;
        for (int i = 1; t.signum() != 0 && i < 100; i++) {
            t = t.multiply(y2).shiftRight(S + G).divide(BigInteger.valueOf((2L * i - 1) * (2L * i))).negate();
            c = c.add(t);
        }
        c = one.add(c);
        for (int i = 0; i < k; i++) {
            BigInteger s2 = s.multiply(c).shiftRight(S + G).shiftLeft(1);
            BigInteger c2 = one.subtract(s.multiply(s).shiftRight(S + G).shiftLeft(1));
            s = s2; c = c2;
        }
        return new BigInteger[] { s.shiftRight(G), c.shiftRight(G) };
    }
    public static Value FSin(Value a) { return w(sincos(n(a))[0]); }
    public static Value FCos(Value a) { return w(sincos(n(a))[1]); }
    public static Value FPi() { return w(PI); }
    static BigInteger div(BigInteger a, BigInteger c) { return a.shiftLeft(S).divide(c); }
    /** atan2(y, x) in (-pi, pi] by Newton steps on the angle from a double start. */
    static BigInteger atan2I(BigInteger y, BigInteger x) {
        int sh = Math.max(x.bitLength(), y.bitLength()) - 60;
        double xd = (sh > 0 ? x.shiftRight(sh) : x).doubleValue(), yd = (sh > 0 ? y.shiftRight(sh) : y).doubleValue();
        if (xd == 0 && yd == 0) return BigInteger.ZERO;
        BigInteger th = parse(Double.toString(Math.atan2(yd, xd)));
        BigInteger r = x.multiply(x).add(y.multiply(y)).sqrt(); // scale S
        BigInteger cx = div(x, r), sy = div(y, r);
        for (int i = 0; i < 3; i++) {
            BigInteger[] sc = sincos(th.mod(PI.shiftLeft(1)));
            // sin(true - th) ~ true - th
            BigInteger d = mul(sy, sc[1]).subtract(mul(cx, sc[0]));
            th = th.add(d).add(mul(mul(d, d), d).divide(BigInteger.valueOf(6)));
        }
        return th;
    }
    public static Value FAtan2(Value y, Value x) { return w(atan2I(n(y), n(x))); }
    /** acos by atan2(sqrt(1-x^2), x) */
    public static Value FAcos(Value a) {
        BigInteger x = n(a);
        BigInteger q = ONE.subtract(mul(x, x));
        if (q.signum() < 0) q = BigInteger.ZERO;
        return w(atan2I(q.shiftLeft(S).sqrt(), x));
    }
    /** cube root of a non-negative number */
    public static Value FCbrt(Value a) {
        BigInteger x = n(a);
        if (x.signum() <= 0) return w(BigInteger.ZERO);
        BigInteger N = x.shiftLeft(2 * S), r = BigInteger.ONE.shiftLeft(N.bitLength() / 3 + 1);
        while (true) {
            BigInteger q = r.shiftLeft(1).add(N.divide(r.multiply(r))).divide(BigInteger.valueOf(3));
            if (q.compareTo(r) >= 0) break;
            r = q;
        }
        return w(r);
    }
    public static Value FStr(Value a) { return new StringValue(a instanceof FV ? str(n(a)) : a.toString()); }
}
