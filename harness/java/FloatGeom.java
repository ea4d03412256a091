// TLC overrides of the operators of spec/FloatGeom.tla with arbitrary precision integers.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class FloatGeom {
    private static BigInteger[][] points(Value v, Value extra) {
        TupleValue t = (TupleValue) v.toTuple();
        int n = t.elems.length, m = extra == null ? n : n + 1;
        TupleValue[][] c = new TupleValue[m][];
        int e = Integer.MAX_VALUE;
        for (int i = 0; i < m; ++i) {
            TupleValue p = (TupleValue) (i < n ? t.elems[i] : extra).toTuple();
            c[i] = new TupleValue[p.elems.length];
            for (int k = 0; k < c[i].length; ++k) {
                c[i][k] = (TupleValue) p.elems[k].toTuple();
                e = Math.min(e, ((IntValue) c[i][k].elems[2]).val);
            }
        }
        BigInteger[][] r = new BigInteger[m][];
        for (int i = 0; i < m; ++i) {
            r[i] = new BigInteger[c[i].length];
            for (int k = 0; k < r[i].length; ++k) {
                long a = ((IntValue) c[i][k].elems[0]).val, b = ((IntValue) c[i][k].elems[1]).val;
                r[i][k] = BigInteger.valueOf(a).shiftLeft(27).add(BigInteger.valueOf(b)).shiftLeft(((IntValue) c[i][k].elems[2]).val - e);
            }
        }
        return r;
    }
    public static Value OrientF(final Value s) { return IntValue.gen(ExactGeom.orient(points(s, null))); }
    public static Value LiftedF(final Value s, final Value q) {
        BigInteger[][] p = points(s, q);
        int n = p.length - 1;
        BigInteger[][] m = new BigInteger[n][];
        for (int i = 0; i < n; ++i) {
            BigInteger[] d = ExactGeom.minus(p[i], p[n]);
            m[i] = java.util.Arrays.copyOf(d, d.length + 1);
            m[i][d.length] = ExactGeom.norm2(d);
        }
        return IntValue.gen(ExactGeom.det(m).signum());
    }
}
