// An integer outside the 32-bit range.  Canonical: of() returns an IntValue whenever the
// number fits, so equality of representations is equality of numbers.
package tlc2.value.impl;

import java.io.IOException;
import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.Values;
import util.Assert;

public class BigIntValue extends Value {
  public final BigInteger val;
  private BigIntValue(BigInteger v) { val = v; }

  public static Value of(BigInteger v) {
    return v.bitLength() < 32 ? IntValue.gen(v.intValue()) : new BigIntValue(v);
  }
  public static Value of(long v) {
    return (int) v == v ? IntValue.gen((int) v) : new BigIntValue(BigInteger.valueOf(v));
  }
  public static boolean isInt(Object v) { return v instanceof IntValue || v instanceof BigIntValue; }
  public static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    if (v instanceof BigIntValue) return ((BigIntValue) v).val;
    Assert.fail("Expected an integer, got " + Values.ppr(v.toString()), v.getSource());
    return null;
  }
  public final byte getKind() { return INTVALUE; }
  public final int compareTo(Object o) {
    if (o instanceof IntValue) return val.signum();
    if (o instanceof BigIntValue) return val.compareTo(((BigIntValue) o).val);
    if (!(o instanceof ModelValue))
      Assert.fail("Attempted to compare integer " + this + " with non-integer:\n" + Values.ppr(o.toString()), getSource());
    return ((ModelValue) o).modelValueCompareTo(this);
  }
  public final boolean equals(Object o) {
    if (o instanceof IntValue) return false;
    if (o instanceof BigIntValue) return val.equals(((BigIntValue) o).val);
    if (!(o instanceof ModelValue))
      Assert.fail("Attempted to check equality of integer " + this + " with non-integer:\n" + Values.ppr(o.toString()), getSource());
    return ((ModelValue) o).modelValueEquals(this);
  }
  public final boolean member(Value v) { Assert.fail("member of integer " + this, getSource()); return false; }
  public final boolean isFinite() { Assert.fail("isFinite of integer " + this, getSource()); return false; }
  public final Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length) Assert.fail("EXCEPT on integer " + this, getSource());
    return ex.value;
  }
  public final Value takeExcept(ValueExcept[] exs) {
    if (exs.length != 0) Assert.fail("EXCEPT on integer " + this, getSource());
    return this;
  }
  public final int size() { Assert.fail("size of integer " + this, getSource()); return 0; }
  public boolean mutates() { return false; }
  public final boolean isNormalized() { return true; }
  public final Value normalize() { return this; }
  public final boolean isDefined() { return true; }
  public final IValue deepCopy() { return this; }
  public void write(IValueOutputStream vos) throws IOException {
    throw new IOException("big integers must not be stored in TLC states that spill to disk");
  }
  public final long fingerPrint(long fp) {
    fp = FP64.Extend(fp, INTVALUE);
    for (byte b : val.toByteArray()) fp = FP64.Extend(fp, b);
    return fp;
  }
  public final IValue permute(IMVPerm perm) { return this; }
  public final StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(val); }
}
