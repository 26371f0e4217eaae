package doanum;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC evaluators for the constant operators declared in Num.tla. */
public final class Ops {
    static final String M = "Num";

    static NumValue num(Value v) {
        if (v instanceof NumValue) return (NumValue) v;
        if (v instanceof IntValue) return new NumValue(R.of(((IntValue) v).val), R.ZERO);
        if (v instanceof StringValue) return token(((StringValue) v).val.toString());
        throw new RuntimeException("not a number: " + v);
    }
    static NumValue real(R r) { return new NumValue(r, R.ZERO); }
    static R re(Value v, String op) {
        NumValue x = num(v);
        if (!x.fin() || !x.im.zero()) throw new RuntimeException(op + " needs a finite real, got " + x.str());
        return x.re;
    }
    static Value[] tup(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static NumValue token(String s) {
        switch (s) {
            case "nan": return NumValue.NAN;
            case "inf": return NumValue.PINF;
            case "-inf": return NumValue.NINF;
        }
        int k = s.indexOf(',');
        if (k < 0) return real(R.parse(s));
        String a = s.substring(0, k), b = s.substring(k + 1);
        if (a.endsWith("n") || a.endsWith("f") || b.endsWith("n") || b.endsWith("f")) return NumValue.NAN;
        return new NumValue(R.parse(a), R.parse(b));
    }

    @TLAPlusOperator(identifier = "Tok", module = M, warn = false)
    public static Value tok(Value s) { return num(s); }

    @TLAPlusOperator(identifier = "TokRow", module = M, warn = false)
    public static Value tokRow(Value s) {
        if (!(s instanceof StringValue)) {
            Value[] e = tup(s), r = new Value[e.length];
            for (int i = 0; i < r.length; i++) r[i] = num(e[i]);
            return new TupleValue(r);
        }
        String str = ((StringValue) s).val.toString().trim();
        if (str.isEmpty()) return new TupleValue(new Value[0]);
        String[] p = str.split("\\s+");
        Value[] r = new Value[p.length];
        for (int i = 0; i < p.length; i++) r[i] = token(p[i]);
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "TokMat", module = M, warn = false)
    public static Value tokMat(Value s) {
        Value[] e = tup(s), r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = tokRow(e[i]);
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "Shown", module = M, warn = false)
    public static Value shown(Value v) { return new StringValue(num(v).str()); }

    // ---- field operations
    static NumValue add(NumValue a, NumValue b) {
        if (!a.fin() || !b.fin()) return NumValue.NAN;
        return new NumValue(a.re.add(b.re), a.im.add(b.im));
    }
    static NumValue neg(NumValue a) {
        if (!a.fin()) return a == NumValue.NAN ? a : a.special.equals("inf") ? NumValue.NINF : NumValue.PINF;
        return new NumValue(a.re.neg(), a.im.neg());
    }
    static NumValue mul(NumValue a, NumValue b) {
        if (!a.fin() || !b.fin()) return NumValue.NAN;
        if (a.im.zero()) return a.re.zero() ? NumValue.ZERO : new NumValue(a.re.mul(b.re), a.re.mul(b.im));
        if (b.im.zero()) return new NumValue(a.re.mul(b.re), a.im.mul(b.re));
        return new NumValue(a.re.mul(b.re).sub(a.im.mul(b.im)), a.re.mul(b.im).add(a.im.mul(b.re)));
    }
    static NumValue inv(NumValue b) {
        if (!b.fin() || (b.re.zero() && b.im.zero())) return NumValue.NAN;
        if (b.im.zero()) return real(R.ONE.div(b.re));
        R d = b.re.mul(b.re).add(b.im.mul(b.im));
        return new NumValue(b.re.div(d), b.im.neg().div(d));
    }
    static R abs2(NumValue a) { return a.re.mul(a.re).add(a.im.mul(a.im)); }
    static boolean isZero(NumValue a) { return a.fin() && a.re.zero() && a.im.zero(); }

    @TLAPlusOperator(identifier = "NAdd", module = M, warn = false)
    public static Value nadd(Value a, Value b) { return add(num(a), num(b)); }
    @TLAPlusOperator(identifier = "NSub", module = M, warn = false)
    public static Value nsub(Value a, Value b) { return add(num(a), neg(num(b))); }
    @TLAPlusOperator(identifier = "NMul", module = M, warn = false)
    public static Value nmul(Value a, Value b) { return mul(num(a), num(b)); }
    @TLAPlusOperator(identifier = "NDiv", module = M, warn = false)
    public static Value ndiv(Value a, Value b) { return mul(num(a), inv(num(b))); }
    @TLAPlusOperator(identifier = "NNeg", module = M, warn = false)
    public static Value nneg(Value a) { return neg(num(a)); }
    @TLAPlusOperator(identifier = "Conj", module = M, warn = false)
    public static Value conj(Value a) { NumValue x = num(a); return !x.fin() || x.im.zero() ? x : new NumValue(x.re, x.im.neg()); }
    @TLAPlusOperator(identifier = "Re", module = M, warn = false)
    public static Value rePart(Value a) { NumValue x = num(a); return x.fin() ? real(x.re) : x; }
    @TLAPlusOperator(identifier = "Im", module = M, warn = false)
    public static Value imPart(Value a) { NumValue x = num(a); return x.fin() ? real(x.im) : NumValue.NAN; }
    @TLAPlusOperator(identifier = "Cplx", module = M, warn = false)
    public static Value cplx(Value a, Value b) { return new NumValue(re(a, "Cplx"), re(b, "Cplx")); }
    @TLAPlusOperator(identifier = "Abs2", module = M, warn = false)
    public static Value nabs2(Value a) { NumValue x = num(a); return x.fin() ? real(abs2(x)) : NumValue.NAN; }
    @TLAPlusOperator(identifier = "Abs", module = M, warn = false)
    public static Value nabs(Value a) {
        NumValue x = num(a);
        if (!x.fin()) return NumValue.NAN;
        return x.im.zero() ? real(x.re.abs()) : real(R.sqrt(abs2(x)));
    }

    // ---- order
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int cmp(NumValue a, NumValue b) {      // NaN handled by the callers
        if (a.fin() && b.fin()) {
            if (!a.im.zero() || !b.im.zero()) throw new RuntimeException("order on complex numbers " + a.str() + " " + b.str());
            return a.re.cmp(b.re);
        }
        int x = a.fin() ? 0 : a.special.equals("inf") ? 1 : -1, y = b.fin() ? 0 : b.special.equals("inf") ? 1 : -1;
        return Integer.compare(x, y);
    }
    static boolean nan(NumValue a) { return !a.fin() && a.special.equals("nan"); }
    @TLAPlusOperator(identifier = "Lt", module = M, warn = false)
    public static Value lt(Value a, Value b) { NumValue x = num(a), y = num(b); return b(!nan(x) && !nan(y) && cmp(x, y) < 0); }
    @TLAPlusOperator(identifier = "Le", module = M, warn = false)
    public static Value le(Value a, Value b) { NumValue x = num(a), y = num(b); return b(!nan(x) && !nan(y) && cmp(x, y) <= 0); }
    @TLAPlusOperator(identifier = "NEq", module = M, warn = false)
    public static Value neq(Value a, Value b) { NumValue x = num(a), y = num(b); return b(!nan(x) && !nan(y) && x.equals(y)); }
    @TLAPlusOperator(identifier = "IsFin", module = M, warn = false)
    public static Value isFin(Value a) { return b(num(a).fin()); }
    static boolean close(NumValue x, NumValue y, R at, R rt) {
        if (!x.fin() || !y.fin()) return !nan(x) && !nan(y) && x.equals(y);
        if (x.equals(y)) return true;
        R dr = x.re.sub(y.re), di = x.im.sub(y.im), d2 = dr.mul(dr).add(di.mul(di));
        R tol = at;
        if (!rt.zero()) tol = at.add(rt.mul(R.sqrt(abs2(y))));
        return d2.cmp(tol.mul(tol)) <= 0;
    }
    @TLAPlusOperator(identifier = "CloseTo", module = M, warn = false)
    public static Value close(Value a, Value b, Value at, Value rt) { return b(close(num(a), num(b), re(at, "CloseTo"), re(rt, "CloseTo"))); }

    @TLAPlusOperator(identifier = "Floor", module = M, warn = false)
    public static Value floor(Value a) { return IntValue.gen(re(a, "Floor").floor().intValueExact()); }
    @TLAPlusOperator(identifier = "NFloor", module = M, warn = false)
    public static Value nfloor(Value a) { return real(R.make(re(a, "NFloor").floor(), BigInteger.ONE)); }

    // ---- elementary functions
    static final NumValue PIV = real(R.PI.round());
    @TLAPlusOperator(identifier = "Pi", module = M, warn = false)
    public static Value pi() { return PIV; }
    @TLAPlusOperator(identifier = "Sqrt", module = M, warn = false)
    public static Value sqrt(Value a) { R x = re(a, "Sqrt"); return x.sign() < 0 ? NumValue.NAN : real(R.sqrt(x)); }
    @TLAPlusOperator(identifier = "Log", module = M, warn = false)
    public static Value log(Value a) { R x = re(a, "Log"); return x.sign() <= 0 ? NumValue.NAN : real(R.log(x)); }
    @TLAPlusOperator(identifier = "Exp", module = M, warn = false)
    public static Value exp(Value a) { return real(R.exp(re(a, "Exp"))); }
    @TLAPlusOperator(identifier = "CisTurn", module = M, warn = false)
    public static Value cisTurn(Value a) { R[] c = R.cis(re(a, "CisTurn")); return new NumValue(c[0], c[1]); }
    @TLAPlusOperator(identifier = "CisRad", module = M, warn = false)
    public static Value cisRad(Value a) { R[] c = R.cisRad(re(a, "CisRad")); return new NumValue(c[0], c[1]); }

    // ---- sequences of numbers
    @TLAPlusOperator(identifier = "NSum", module = M, warn = false)
    public static Value nsum(Value s) {
        NumValue r = NumValue.ZERO;
        for (Value v : tup(s)) r = add(r, num(v));
        return r;
    }
    @TLAPlusOperator(identifier = "DotU", module = M, warn = false)
    public static Value dotu(Value u, Value v) {
        Value[] a = tup(u), c = tup(v);
        if (a.length != c.length) throw new RuntimeException("DotU: lengths " + a.length + " and " + c.length);
        NumValue r = NumValue.ZERO;
        for (int i = 0; i < a.length; i++) r = add(r, mul(num(a[i]), num(c[i])));
        return r;
    }
    static NumValue[][] mat(Value m) {
        Value[] rows = tup(m);
        NumValue[][] r = new NumValue[rows.length][];
        for (int i = 0; i < rows.length; i++) {
            Value[] e = tup(rows[i]);
            r[i] = new NumValue[e.length];
            for (int j = 0; j < e.length; j++) r[i][j] = num(e[j]);
            if (r[i].length != r[0].length) throw new RuntimeException("ragged matrix");
        }
        return r;
    }
    static Value unmat(NumValue[][] m) {
        Value[] r = new Value[m.length];
        for (int i = 0; i < m.length; i++) r[i] = new TupleValue(m[i]);
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "MatMul", module = M, warn = false)
    public static Value matMul(Value x, Value y) {
        NumValue[][] a = mat(x), c = mat(y);
        int k = c.length, p = k == 0 ? 0 : c[0].length;
        NumValue[][] r = new NumValue[a.length][p];
        for (int i = 0; i < a.length; i++) {
            if (a[i].length != k) throw new RuntimeException("MatMul: " + a[i].length + " columns times " + k + " rows");
            for (int j = 0; j < p; j++) {
                NumValue s = NumValue.ZERO;
                for (int t = 0; t < k; t++) s = add(s, mul(a[i][t], c[t][j]));
                r[i][j] = s;
            }
        }
        return unmat(r);
    }
    /** Gauss-Jordan with partial pivoting; <<>> when the matrix is singular. */
    @TLAPlusOperator(identifier = "MatInv", module = M, warn = false)
    public static Value matInv(Value x) {
        NumValue[][] a = mat(x);
        int n = a.length;
        NumValue[][] r = new NumValue[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = i == j ? NumValue.ONE : NumValue.ZERO;
        for (int c = 0; c < n; c++) {
            int p = pivot(a, c);
            if (p < 0) return new TupleValue(new Value[0]);
            NumValue[] t = a[p]; a[p] = a[c]; a[c] = t;
            t = r[p]; r[p] = r[c]; r[c] = t;
            NumValue iv = inv(a[c][c]);
            for (int j = 0; j < n; j++) { a[c][j] = mul(a[c][j], iv); r[c][j] = mul(r[c][j], iv); }
            for (int i = 0; i < n; i++) {
                if (i == c || isZero(a[i][c])) continue;
                NumValue f = neg(a[i][c]);
                for (int j = 0; j < n; j++) { a[i][j] = add(a[i][j], mul(f, a[c][j])); r[i][j] = add(r[i][j], mul(f, r[c][j])); }
            }
        }
        return unmat(r);
    }
    private static int pivot(NumValue[][] a, int c) {
        int p = -1;
        R best = R.ZERO;
        for (int i = c; i < a.length; i++) {
            if (!a[i][c].fin()) return -1;
            R v = abs2(a[i][c]);
            if (v.cmp(best) > 0) { best = v; p = i; }
        }
        return p;
    }
    @TLAPlusOperator(identifier = "MatDet", module = M, warn = false)
    public static Value matDet(Value x) {
        NumValue[][] a = mat(x);
        int n = a.length;
        NumValue det = NumValue.ONE;
        for (int c = 0; c < n; c++) {
            int p = pivot(a, c);
            if (p < 0) return NumValue.ZERO;
            if (p != c) { NumValue[] t = a[p]; a[p] = a[c]; a[c] = t; det = neg(det); }
            det = mul(det, a[c][c]);
            NumValue iv = inv(a[c][c]);
            for (int i = c + 1; i < n; i++) {
                if (isZero(a[i][c])) continue;
                NumValue f = neg(mul(a[i][c], iv));
                for (int j = c; j < n; j++) a[i][j] = add(a[i][j], mul(f, a[c][j]));
            }
        }
        return det;
    }
    /** rows-wise closeness of two matrices of equal shape: largest |a-b| as a real, -1 on a shape mismatch, "nan" with non-finite entries */
    @TLAPlusOperator(identifier = "MatDist", module = M, warn = false)
    public static Value matDist(Value x, Value y) {
        NumValue[][] a = mat(x), c = mat(y);
        if (a.length != c.length) return real(R.of(-1));
        R best = R.ZERO;
        for (int i = 0; i < a.length; i++) {
            if (a[i].length != c[i].length) return real(R.of(-1));
            for (int j = 0; j < a[i].length; j++) {
                if (!a[i][j].fin() || !c[i][j].fin()) return NumValue.NAN;
                R v = abs2(add(a[i][j], neg(c[i][j])));
                if (v.cmp(best) > 0) best = v;
            }
        }
        return real(R.sqrt(best));
    }
}
