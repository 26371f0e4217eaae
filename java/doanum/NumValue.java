package doanum;

import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.IMVPerm;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** A complex number as a TLC value.  re == null marks a non-finite token ("nan", "inf", "-inf"). */
public final class NumValue extends Value {
    final transient R re, im;
    final String special;
    NumValue(R re, R im) { this.re = re; this.im = im; this.special = null; }
    NumValue(String special) { this.re = null; this.im = null; this.special = special; }
    static final NumValue NAN = new NumValue("nan"), PINF = new NumValue("inf"), NINF = new NumValue("-inf");
    static final NumValue ZERO = new NumValue(R.ZERO, R.ZERO), ONE = new NumValue(R.ONE, R.ZERO);
    boolean fin() { return special == null; }

    @Override public byte getKind() { return USERVALUE; }
    @Override public int compareTo(Object o) {
        if (!(o instanceof NumValue)) return 1;
        NumValue v = (NumValue) o;
        if (!fin() || !v.fin()) return (fin() ? "" : special).compareTo(v.fin() ? "" : v.special);
        int c = re.cmp(v.re);
        return c != 0 ? c : im.cmp(v.im);
    }
    @Override public boolean equals(Object o) { return o instanceof NumValue && compareTo(o) == 0; }
    @Override public boolean member(Value v) { throw new RuntimeException("not a set: " + this); }
    @Override public boolean isFinite() { throw new RuntimeException("not a set: " + this); }
    @Override public Value takeExcept(ValueExcept e) { throw new RuntimeException("EXCEPT on a number"); }
    @Override public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT on a number"); }
    @Override public int size() { throw new RuntimeException("not a set: " + this); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public void deepNormalize() { }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, (char) 77);
        if (!fin()) return FP64.Extend(fp, special);
        fp = FP64.Extend(fp, re.n.toString(36) + "/" + re.d.toString(36));
        return FP64.Extend(fp, im.n.toString(36) + "/" + im.d.toString(36));
    }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
        return sb.append('"').append(str()).append('"');
    }
    String str() {
        if (!fin()) return special;
        return im.zero() ? re.toString() : re + "," + im;
    }
}
