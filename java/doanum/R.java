package doanum;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;

/**
 * Real numbers of the specification: exact rationals, rounded to PREC
 * significant bits only once numerator and denominator together exceed LIMIT
 * bits.  Small computations (Gaussian-rational lattices) are therefore exact,
 * irrational ones carry roughly 240 bits.
 */
final class R {
    static final int PREC = 240, LIMIT = 1200;
    static final BigInteger B0 = BigInteger.ZERO, B1 = BigInteger.ONE;
    static final R ZERO = new R(B0, B1), ONE = new R(B1, B1), TWO = of(2), HALF = make(B1, BigInteger.TWO);
    final BigInteger n, d;      // d > 0, lowest terms

    private R(BigInteger n, BigInteger d) { this.n = n; this.d = d; }

    static R of(long v) { return new R(BigInteger.valueOf(v), B1); }

    static boolean pow2(BigInteger d) { return d.bitCount() == 1; }

    static R make(BigInteger n, BigInteger d) {
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return ZERO;
        if (pow2(d)) {
            int k = Math.min(n.getLowestSetBit(), d.bitLength() - 1);
            if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); }
        } else {
            BigInteger g = n.gcd(d);
            if (!g.equals(B1)) { n = n.divide(g); d = d.divide(g); }
        }
        R r = new R(n, d);
        return (n.bitLength() + d.bitLength() > LIMIT) ? r.round() : r;
    }

    R round() {
        int sh = PREC - (n.bitLength() - d.bitLength());
        BigInteger q;
        if (sh >= 0) {
            q = n.shiftLeft(sh).divide(d);
            return raw(q, sh);
        }
        q = n.divide(d.shiftLeft(-sh));
        return new R(q.shiftLeft(-sh), B1);
    }

    /** q / 2^sh, sh may be negative */
    static R raw(BigInteger q, int sh) {
        if (q.signum() == 0) return ZERO;
        if (sh <= 0) return new R(q.shiftLeft(-sh), B1);
        int k = Math.min(q.getLowestSetBit(), sh);
        return new R(q.shiftRight(k), B1.shiftLeft(sh - k));
    }

    boolean zero() { return n.signum() == 0; }
    int sign() { return n.signum(); }
    R neg() { return new R(n.negate(), d); }
    R abs() { return n.signum() < 0 ? neg() : this; }

    R add(R o) {
        if (zero()) return o;
        if (o.zero()) return this;
        if (d.equals(o.d)) return make(n.add(o.n), d);
        if (pow2(d) && pow2(o.d)) {
            int a = d.bitLength(), b = o.d.bitLength();
            return a > b ? make(n.add(o.n.shiftLeft(a - b)), d) : make(n.shiftLeft(b - a).add(o.n), o.d);
        }
        return make(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    }
    R sub(R o) { return add(o.neg()); }
    R mul(R o) {
        if (zero() || o.zero()) return ZERO;
        return make(n.multiply(o.n), d.multiply(o.d));
    }
    R div(R o) { return make(n.multiply(o.d), d.multiply(o.n)); }
    int cmp(R o) {
        int s = n.signum(), t = o.n.signum();
        if (s != t) return Integer.compare(s, t);
        return n.multiply(o.d).compareTo(o.n.multiply(d));
    }
    boolean eq(R o) { return n.equals(o.n) && d.equals(o.d); }

    BigInteger floor() {
        BigInteger[] qr = n.divideAndRemainder(d);
        return qr[1].signum() < 0 ? qr[0].subtract(B1) : qr[0];
    }

    double dbl() { return new BigDecimal(n).divide(new BigDecimal(d), new MathContext(25)).doubleValue(); }

    public String toString() {
        if (d.equals(B1) && n.bitLength() < 80) return n.toString();
        if (n.bitLength() < 40 && d.bitLength() < 24 && !pow2(d)) return n + "/" + d;
        return Double.toString(dbl());
    }

    static R parse(String s) {
        int k = s.indexOf('/');
        if (k > 0) return make(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
        boolean integer = true;
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            if (!(c >= '0' && c <= '9' || (i == 0 && c == '-' && s.length() > 1))) { integer = false; break; }
        }
        if (integer) return new R(new BigInteger(s), B1);
        // the exact value of the IEEE double this token denotes
        BigDecimal b = new BigDecimal(Double.parseDouble(s));
        BigInteger u = b.unscaledValue();
        return b.scale() <= 0 ? new R(u.multiply(BigInteger.TEN.pow(-b.scale())), B1)
                              : make(u, BigInteger.TEN.pow(b.scale()));
    }

    // ---- elementary functions, FB-bit fixed point internally
    static final int FB = 340;
    static BigInteger fx(R r) { return r.n.shiftLeft(FB).divide(r.d); }
    static R unfx(BigInteger b) { R r = raw(b, FB); return r; }
    private static BigInteger mulfx(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(FB); }

    private static BigInteger atanInv(int k) {
        BigInteger x = B1.shiftLeft(FB + 20).divide(BigInteger.valueOf(k)), s = x, k2 = BigInteger.valueOf((long) k * k);
        for (int i = 3; ; i += 2) {
            x = x.divide(k2).negate();
            if (x.abs().bitLength() < 2) break;
            s = s.add(x.divide(BigInteger.valueOf(i)));
        }
        return s;
    }
    static final BigInteger PIFX = atanInv(5).shiftLeft(4).subtract(atanInv(239).shiftLeft(2)).shiftRight(20);
    static final R PI = unfx(PIFX);

    /** cos, sin of the fixed-point angle t */
    private static BigInteger[] cs(BigInteger t) {
        // halve 6 times, Taylor, double back
        int h = 6;
        BigInteger x = t.shiftRight(h), x2 = mulfx(x, x), one = B1.shiftLeft(FB);
        BigInteger c = one, s = x, ct = one, st = x;
        for (int i = 1; ; i++) {
            ct = mulfx(ct, x2).negate().divide(BigInteger.valueOf((2L * i - 1) * (2L * i)));
            st = mulfx(st, x2).negate().divide(BigInteger.valueOf((2L * i) * (2L * i + 1)));
            if (ct.abs().bitLength() < 3 && st.abs().bitLength() < 3) break;
            c = c.add(ct);
            s = s.add(st);
        }
        for (int i = 0; i < h; i++) {
            BigInteger c2 = mulfx(c, c).subtract(mulfx(s, s));
            s = mulfx(c, s).shiftLeft(1);
            c = c2;
        }
        return new BigInteger[]{c, s};
    }

    /** exp(2 pi i t) as {cos, sin}, exact at quarter turns */
    static R[] cis(R t) {
        t = t.sub(new R(t.floor(), B1));
        R q = t.mul(of(4));
        if (q.d.equals(B1)) {
            switch (q.n.intValue()) {
                case 0: return new R[]{ONE, ZERO};
                case 1: return new R[]{ZERO, ONE};
                case 2: return new R[]{ONE.neg(), ZERO};
                default: return new R[]{ZERO, ONE.neg()};
            }
        }
        // reduce to within an eighth turn of a quarter turn
        int quad = t.mul(of(4)).add(HALF).floor().intValue();
        R rest = t.sub(make(BigInteger.valueOf(quad), BigInteger.valueOf(4)));
        BigInteger[] v = cs(mulfx(PIFX, fx(rest)).shiftLeft(1));
        R c = unfx(v[0]).round(), s = unfx(v[1]).round();
        switch (quad & 3) {
            case 0: return new R[]{c, s};
            case 1: return new R[]{s.neg(), c};
            case 2: return new R[]{c.neg(), s.neg()};
            default: return new R[]{s, c.neg()};
        }
    }
    static R[] cisRad(R x) {
        if (x.zero()) return new R[]{ONE, ZERO};
        return cis(make(x.n.shiftLeft(FB), x.d.multiply(PIFX).shiftLeft(1)));
    }

    static R sqrt(R x) {        // x >= 0
        if (x.zero()) return ZERO;
        BigInteger a = x.n.sqrt(), b = x.d.sqrt();
        if (a.multiply(a).equals(x.n) && b.multiply(b).equals(x.d)) return new R(a, b);
        int sh = 2 * PREC + 8 - (x.n.bitLength() - x.d.bitLength());
        if ((sh & 1) != 0) sh++;
        BigInteger v = (sh >= 0 ? x.n.shiftLeft(sh).divide(x.d) : x.n.divide(x.d.shiftLeft(-sh))).sqrt();
        return raw(v, sh / 2);
    }

    private static BigInteger atanhSeries(BigInteger y) {   // 2*atanh(y)
        BigInteger y2 = mulfx(y, y), p = y, s = y;
        for (int i = 3; ; i += 2) {
            p = mulfx(p, y2);
            if (p.abs().bitLength() < 3) break;
            s = s.add(p.divide(BigInteger.valueOf(i)));
        }
        return s.shiftLeft(1);
    }
    private static final BigInteger LN2 = atanhSeries(B1.shiftLeft(FB).divide(BigInteger.valueOf(3)));

    static R log(R x) {         // x > 0
        if (x.eq(ONE)) return ZERO;
        int e = x.n.bitLength() - x.d.bitLength();
        R m = e >= 0 ? make(x.n, x.d.shiftLeft(e)) : make(x.n.shiftLeft(-e), x.d);   // in (1/2, 2)
        BigInteger f = fx(m), one = B1.shiftLeft(FB);
        BigInteger y = f.subtract(one).shiftLeft(FB).divide(f.add(one));
        return unfx(atanhSeries(y).add(LN2.multiply(BigInteger.valueOf(e)))).round();
    }

    static R exp(R x) {
        if (x.zero()) return ONE;
        BigInteger f = fx(x);
        BigInteger[] qr = f.divideAndRemainder(LN2);
        int e = qr[0].intValueExact();
        BigInteger r = qr[1].shiftRight(8), one = B1.shiftLeft(FB), t = one, s = one;
        for (int i = 1; ; i++) {
            t = mulfx(t, r).divide(BigInteger.valueOf(i));
            if (t.abs().bitLength() < 3) break;
            s = s.add(t);
        }
        for (int i = 0; i < 8; i++) s = mulfx(s, s);
        return (e >= 0 ? unfx(s.shiftLeft(e)) : raw(s, FB - e)).round();
    }
}
