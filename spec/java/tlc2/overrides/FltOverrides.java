package tlc2.overrides;

import tlc2.value.impl.*;

/**
 * Evaluates the operators of module Flt (IEEE-754 binary64 arithmetic on
 * decimal strings).  The operators are total: an argument that is not a
 * number is treated as NaN, and every comparison with NaN is FALSE.
 */
public class FltOverrides implements ITLCOverrides {

    @SuppressWarnings("rawtypes")
    public Class[] get() {
        return new Class[] {FltOverrides.class};
    }

    static double d(final Value v) {
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        if (v instanceof StringValue) {
            final String s = ((StringValue) v).val.toString();
            if (s.isEmpty()) {
                return Double.NaN;
            }
            try {
                return Double.parseDouble(s);
            } catch (final NumberFormatException e) {
                return Double.NaN;
            }
        }
        return Double.NaN;
    }

    static Value s(final double x) {
        // -0.0 and 0.0 are the same real number
        return new StringValue(Double.toString(x == 0 ? 0.0 : x));
    }

    static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static double[] vec(final Value v) {
        final Value t = v.toTuple();
        if (!(t instanceof TupleValue)) {
            return new double[0];
        }
        final Value[] e = ((TupleValue) t).elems;
        final double[] r = new double[e.length];
        for (int i = 0; i < e.length; i++) {
            r[i] = d(e[i]);
        }
        return r;
    }

    static Value tup(final double... x) {
        final Value[] e = new Value[x.length];
        for (int i = 0; i < x.length; i++) {
            e[i] = s(x[i]);
        }
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "FAdd", module = "Flt", warn = false)
    public static Value fadd(final Value a, final Value b) { return s(d(a) + d(b)); }

    @TLAPlusOperator(identifier = "FSub", module = "Flt", warn = false)
    public static Value fsub(final Value a, final Value b) { return s(d(a) - d(b)); }

    @TLAPlusOperator(identifier = "FMul", module = "Flt", warn = false)
    public static Value fmul(final Value a, final Value b) { return s(d(a) * d(b)); }

    @TLAPlusOperator(identifier = "FDiv", module = "Flt", warn = false)
    public static Value fdiv(final Value a, final Value b) { return s(d(a) / d(b)); }

    @TLAPlusOperator(identifier = "FNeg", module = "Flt", warn = false)
    public static Value fneg(final Value a) { return s(-d(a)); }

    @TLAPlusOperator(identifier = "FAbs", module = "Flt", warn = false)
    public static Value fabs(final Value a) { return s(Math.abs(d(a))); }

    @TLAPlusOperator(identifier = "FSqrt", module = "Flt", warn = false)
    public static Value fsqrt(final Value a) { return s(Math.sqrt(d(a))); }

    @TLAPlusOperator(identifier = "FSin", module = "Flt", warn = false)
    public static Value fsin(final Value a) { return s(Math.sin(d(a))); }

    @TLAPlusOperator(identifier = "FCos", module = "Flt", warn = false)
    public static Value fcos(final Value a) { return s(Math.cos(d(a))); }

    @TLAPlusOperator(identifier = "FAtan2", module = "Flt", warn = false)
    public static Value fatan2(final Value a, final Value b) { return s(Math.atan2(d(a), d(b))); }

    @TLAPlusOperator(identifier = "FAsin", module = "Flt", warn = false)
    public static Value fasin(final Value a) { return s(Math.asin(d(a))); }

    @TLAPlusOperator(identifier = "FExp", module = "Flt", warn = false)
    public static Value fexp(final Value a) { return s(Math.exp(d(a))); }

    @TLAPlusOperator(identifier = "FPow", module = "Flt", warn = false)
    public static Value fpow(final Value a, final Value b) { return s(Math.pow(d(a), d(b))); }

    @TLAPlusOperator(identifier = "FMax", module = "Flt", warn = false)
    public static Value fmax(final Value a, final Value b) { return s(Math.max(d(a), d(b))); }

    @TLAPlusOperator(identifier = "FMin", module = "Flt", warn = false)
    public static Value fmin(final Value a, final Value b) { return s(Math.min(d(a), d(b))); }

    @TLAPlusOperator(identifier = "FLt", module = "Flt", warn = false)
    public static Value flt(final Value a, final Value b) { return b(d(a) < d(b)); }

    @TLAPlusOperator(identifier = "FLe", module = "Flt", warn = false)
    public static Value fle(final Value a, final Value b) { return b(d(a) <= d(b)); }

    @TLAPlusOperator(identifier = "FEq", module = "Flt", warn = false)
    public static Value feq(final Value a, final Value b) { return b(d(a) == d(b)); }

    @TLAPlusOperator(identifier = "FFinite", module = "Flt", warn = false)
    public static Value ffinite(final Value a) { return b(Double.isFinite(d(a))); }

    /** |a - b| <= tol, FALSE if either is not finite */
    @TLAPlusOperator(identifier = "FNear", module = "Flt", warn = false)
    public static Value fnear(final Value a, final Value b, final Value tol) {
        return b(Math.abs(d(a) - d(b)) <= d(tol));
    }

    @TLAPlusOperator(identifier = "FCeil", module = "Flt", warn = false)
    public static Value fceil(final Value a) {
        final double x = Math.ceil(d(a));
        return IntValue.gen(Double.isFinite(x) && Math.abs(x) < 1e9 ? (int) x : Integer.MAX_VALUE);
    }

    @TLAPlusOperator(identifier = "FSum", module = "Flt", warn = false)
    public static Value fsum(final Value v) {
        double sum = 0, c = 0;
        for (final double x : vec(v)) {           // Kahan summation
            final double y = x - c, t = sum + y;
            c = (t - sum) - y;
            sum = t;
        }
        return s(sum);
    }

    @TLAPlusOperator(identifier = "FMaxAbs", module = "Flt", warn = false)
    public static Value fmaxabs(final Value v) {
        double m = 0;
        for (final double x : vec(v)) {
            m = Math.max(m, Math.abs(x));
        }
        return s(m);
    }

    @TLAPlusOperator(identifier = "FDot", module = "Flt", warn = false)
    public static Value fdot(final Value u, final Value v) {
        final double[] a = vec(u), b = vec(v);
        if (a.length != b.length) {
            return s(Double.NaN);
        }
        double r = 0;
        for (int i = 0; i < a.length; i++) {
            r += a[i] * b[i];
        }
        return s(r);
    }

    @TLAPlusOperator(identifier = "VAdd", module = "Flt", warn = false)
    public static Value vadd(final Value u, final Value v) {
        final double[] a = vec(u), b = vec(v);
        if (a.length != 3 || b.length != 3) { return tup(Double.NaN, Double.NaN, Double.NaN); }
        return tup(a[0] + b[0], a[1] + b[1], a[2] + b[2]);
    }

    @TLAPlusOperator(identifier = "VSub", module = "Flt", warn = false)
    public static Value vsub(final Value u, final Value v) {
        final double[] a = vec(u), b = vec(v);
        if (a.length != 3 || b.length != 3) { return tup(Double.NaN, Double.NaN, Double.NaN); }
        return tup(a[0] - b[0], a[1] - b[1], a[2] - b[2]);
    }

    @TLAPlusOperator(identifier = "VScale", module = "Flt", warn = false)
    public static Value vscale(final Value k, final Value v) {
        final double[] b = vec(v);
        final double a = d(k);
        if (b.length != 3) { return tup(Double.NaN, Double.NaN, Double.NaN); }
        return tup(a * b[0], a * b[1], a * b[2]);
    }

    @TLAPlusOperator(identifier = "VCross", module = "Flt", warn = false)
    public static Value vcross(final Value u, final Value v) {
        final double[] a = vec(u), b = vec(v);
        if (a.length != 3 || b.length != 3) { return tup(Double.NaN, Double.NaN, Double.NaN); }
        return tup(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
    }

    @TLAPlusOperator(identifier = "VNorm", module = "Flt", warn = false)
    public static Value vnorm(final Value u) {
        double r = 0;
        for (final double x : vec(u)) {
            r += x * x;
        }
        return s(Math.sqrt(r));
    }

    @TLAPlusOperator(identifier = "VNear", module = "Flt", warn = false)
    public static Value vnear(final Value u, final Value v, final Value tol) {
        final double[] a = vec(u), b = vec(v);
        if (a.length != b.length) {
            return BoolValue.ValFalse;
        }
        final double t = d(tol);
        for (int i = 0; i < a.length; i++) {
            if (!(Math.abs(a[i] - b[i]) <= t)) {
                return BoolValue.ValFalse;
            }
        }
        return BoolValue.ValTrue;
    }
}
