// TLC overrides of the operators of spec/ExactGeom.tla with arbitrary precision integers.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class ExactGeom {
    private static BigInteger[] pt(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        BigInteger[] r = new BigInteger[t.elems.length];
        for (int i = 0; i < r.length; ++i) r[i] = BigInteger.valueOf(((IntValue) t.elems[i]).val);
        return r;
    }
    private static BigInteger[][] simplex(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        BigInteger[][] r = new BigInteger[t.elems.length][];
        for (int i = 0; i < r.length; ++i) r[i] = pt(t.elems[i]);
        return r;
    }
    static BigInteger det(BigInteger[][] m) {
        int n = m.length;
        if (n == 1) return m[0][0];
        if (n == 2) return m[0][0].multiply(m[1][1]).subtract(m[0][1].multiply(m[1][0]));
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < n; ++i) {
            if (m[i][0].signum() == 0) continue;
            BigInteger[][] k = new BigInteger[n - 1][];
            for (int r = 0; r < n - 1; ++r) k[r] = java.util.Arrays.copyOfRange(m[r < i ? r : r + 1], 1, n);
            BigInteger t = m[i][0].multiply(det(k));
            s = i % 2 == 0 ? s.add(t) : s.subtract(t);
        }
        return s;
    }
    static BigInteger[] minus(BigInteger[] p, BigInteger[] q) {
        BigInteger[] r = new BigInteger[p.length];
        for (int i = 0; i < p.length; ++i) r[i] = p[i].subtract(q[i]);
        return r;
    }
    static BigInteger norm2(BigInteger[] p) {
        BigInteger s = BigInteger.ZERO;
        for (BigInteger x : p) s = s.add(x.multiply(x));
        return s;
    }
    private static BigInteger[][] edges(BigInteger[][] s) {
        BigInteger[][] m = new BigInteger[s.length - 1][];
        for (int i = 0; i + 1 < s.length; ++i) m[i] = minus(s[i], s[s.length - 1]);
        return m;
    }
    static int orient(BigInteger[][] s) { return det(edges(s)).signum(); }

    public static Value Orient(final Value s) { return IntValue.gen(orient(simplex(s))); }

    public static Value InSphere(final Value sv, final Value qv) {
        BigInteger[][] s = simplex(sv); BigInteger[] q = pt(qv);
        BigInteger[][] m = new BigInteger[s.length][];
        for (int i = 0; i < s.length; ++i) {
            BigInteger[] d = minus(s[i], q);
            m[i] = java.util.Arrays.copyOf(d, d.length + 1);
            m[i][d.length] = norm2(d);
        }
        return IntValue.gen(det(m).signum() * orient(s));
    }
    public static Value Fills(final Value ss, final Value lo, final Value hi) {
        TupleValue t = (TupleValue) ss.toTuple();
        BigInteger sum = BigInteger.ZERO;
        for (Value v : t.elems) sum = sum.add(det(edges(simplex(v))).abs());
        BigInteger[] e = minus(pt(hi), pt(lo));
        BigInteger vol = BigInteger.valueOf(e.length == 2 ? 2 : 6);
        for (BigInteger x : e) vol = vol.multiply(x);
        return sum.equals(vol) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value Share(final Value m, final Value p, final Value q, final Value lo, final Value hi) {
        BigInteger n = norm2(minus(pt(p), pt(q))).multiply(BigInteger.valueOf(((IntValue) m).val));
        return IntValue.gen(n.divide(norm2(minus(pt(hi), pt(lo)))).intValueExact());
    }
    public static Value Nearer(final Value p, final Value q, final Value r, final Value s) {
        return norm2(minus(pt(p), pt(q))).compareTo(norm2(minus(pt(r), pt(s)))) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value BallMeetsBox(final Value sv, final Value lov, final Value hiv) {
        BigInteger[][] s = simplex(sv); BigInteger[] lo = pt(lov), hi = pt(hiv);
        int d = lo.length;
        BigInteger[][] m = edges(s);
        BigInteger D = det(m).shiftLeft(1);
        BigInteger[] u = new BigInteger[d];
        for (int k = 0; k < d; ++k) {
            BigInteger[][] r = new BigInteger[d][];
            for (int i = 0; i < d; ++i) { r[i] = m[i].clone(); r[i][k] = norm2(m[i]); }
            u[k] = det(r);
        }
        boolean neg = D.signum() < 0;
        BigInteger A = D.abs(), sum = BigInteger.ZERO;
        for (int k = 0; k < d; ++k) {
            BigInteger c = (neg ? u[k].negate() : u[k]).add(A.multiply(s[d][k]));
            BigInteger l = A.multiply(lo[k]), h = A.multiply(hi[k]);
            BigInteger x = l.compareTo(c) > 0 ? l.subtract(c) : c.compareTo(h) > 0 ? c.subtract(h) : BigInteger.ZERO;
            sum = sum.add(x.multiply(x));
        }
        return sum.compareTo(norm2(u)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
