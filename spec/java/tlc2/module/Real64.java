package tlc2.module;

import tlc2.value.impl.*;

/**
 * IEEE-754 binary64 arithmetic for TLC (see spec/Real64.tla).  A number is a
 * string; every operator returns it in the one form Java prints it in, so
 * that equal numbers are equal TLA+ values.
 */
public class Real64 {
    public static final long serialVersionUID = 1L;

    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        String s = ((StringValue) v).val.toString().trim();
        switch (s) {
            case "nan": case "-nan": case "NaN": return Double.NaN;
            case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
            case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
        }
        return Double.parseDouble(s);
    }

    static Value r(double x) {
        if (x == 0) x = 0.0;   // one zero
        return new StringValue(Double.toString(x));
    }

    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value R(Value a) { return r(d(a)); }
    public static Value RAdd(Value a, Value b) { return r(d(a) + d(b)); }
    public static Value RSub(Value a, Value b) { return r(d(a) - d(b)); }
    public static Value RMul(Value a, Value b) { return r(d(a) * d(b)); }
    public static Value RDiv(Value a, Value b) { return r(d(a) / d(b)); }
    public static Value RPow(Value a, Value b) { return r(Math.pow(d(a), d(b))); }
    public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
    public static Value RNeg(Value a) { return r(-d(a)); }
    public static Value RSin(Value a) { return r(Math.sin(d(a))); }
    public static Value RCos(Value a) { return r(Math.cos(d(a))); }
    public static Value RTan(Value a) { return r(Math.tan(d(a))); }
    public static Value RAsin(Value a) { return r(Math.asin(d(a))); }
    public static Value RAcos(Value a) { return r(Math.acos(d(a))); }
    public static Value RAtan(Value a) { return r(Math.atan(d(a))); }
    public static Value RAtan2(Value a, Value b) { return r(Math.atan2(d(a), d(b))); }
    public static Value RExp(Value a) { return r(Math.exp(d(a))); }
    public static Value RLog(Value a) { return r(Math.log(d(a))); }
    public static Value RFloat(Value a) { return r((double) (float) d(a)); }
    public static Value RLt(Value a, Value b) { return b(d(a) < d(b)); }
    public static Value RLe(Value a, Value b) { return b(d(a) <= d(b)); }
    public static Value REq(Value a, Value b) { return b(d(a) == d(b)); }
    public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value RIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value RIsInt(Value a) { double x = d(a); return b(x == Math.rint(x) && Math.abs(x) < 9e15); }
    /** nearest integer, ties to even; the caller knows that it fits */
    public static Value RInt(Value a) { return IntValue.gen((int) Math.rint(d(a))); }
    public static Value RFloor(Value a) { return r(Math.floor(d(a))); }
    public static Value RRound(Value a) { double x = d(a); return r(x < 0 ? -Math.floor(-x + .5) : Math.floor(x + .5)); }
    /** |a-b| <= abs + rel*max(|a|,|b|); NaN is close to NaN only */
    public static Value RClose(Value a, Value b, Value rel, Value abs) {
        double x = d(a), y = d(b);
        if (Double.isNaN(x) || Double.isNaN(y)) return b(Double.isNaN(x) && Double.isNaN(y));
        if (x == y) return b(true);
        return b(Math.abs(x - y) <= d(abs) + d(rel) * Math.max(Math.abs(x), Math.abs(y)));
    }
    /** the IEEE number with these four 16-bit groups, most significant first */
    public static Value RBits(Value a, Value b, Value c, Value e) {
        long v = ((long) ((IntValue) a).val << 48) | ((long) ((IntValue) b).val << 32) | ((long) ((IntValue) c).val << 16) | (long) ((IntValue) e).val;
        return r(Double.longBitsToDouble(v));
    }
    public static Value RBits32(Value a, Value b) {
        int v = (((IntValue) a).val << 16) | ((IntValue) b).val;
        return r((double) Float.intBitsToFloat(v));
    }
}
