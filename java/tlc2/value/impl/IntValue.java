// Replacement for TLC's IntValue: identical behaviour for 32-bit integers, plus
// well-defined equality and ordering against BigIntValue (integers outside 32 bits).
package tlc2.value.impl;

import java.io.IOException;
import java.math.BigInteger;
import tlc2.tool.EvalException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.Values;
import util.Assert;

public class IntValue extends Value {
  private static final IntValue[] cache = new IntValue[1024];
  static { for (int i = 0; i < cache.length; i++) cache[i] = new IntValue(i); }
  public static final IntValue ValNegOne = gen(-1);
  public static final IntValue ValOne = gen(1);
  public static final IntValue ValZero = gen(0);
  public final int val;

  public static final int nbits(int v) {
    int c = 0;
    while (v != 0 && v != -1) { c++; v >>= 1; }
    return c + 1;
  }
  public static IntValue sum(IntValue a, IntValue b) { return gen(Math.addExact(a.val, b.val)); }
  private IntValue(int i) { this.val = i; }
  public final byte getKind() { return INTVALUE; }
  public final int nbits() { return nbits(val); }
  public static IntValue gen(int i) {
    return i >= 0 && i < cache.length ? cache[i] : new IntValue(i);
  }
  public final int compareTo(Object o) {
    if (o instanceof IntValue) return Integer.compare(val, ((IntValue) o).val);
    if (o instanceof BigIntValue) return -((BigIntValue) o).val.signum();
    if (!(o instanceof ModelValue))
      Assert.fail("Attempted to compare integer " + Values.ppr(this.toString()) + " with non-integer:\n"
          + Values.ppr(o.toString()), getSource());
    return ((ModelValue) o).modelValueCompareTo(this);
  }
  public final boolean equals(Object o) {
    if (o instanceof IntValue) return val == ((IntValue) o).val;
    if (o instanceof BigIntValue) return false;
    if (!(o instanceof ModelValue))
      Assert.fail("Attempted to check equality of integer " + Values.ppr(this.toString()) + " with non-integer:\n"
          + Values.ppr(o.toString()), getSource());
    return ((ModelValue) o).modelValueEquals(this);
  }
  public final boolean member(Value v) {
    Assert.fail("Attempted to check if the value:\n" + Values.ppr(v.toString()) + "\nis an element of the integer "
        + Values.ppr(this.toString()), getSource());
    return false;
  }
  public final boolean isFinite() {
    Assert.fail("Attempted to check if the integer " + Values.ppr(this.toString()) + " is a finite set.", getSource());
    return false;
  }
  public final Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length)
      Assert.fail("Attempted to appy EXCEPT construct to the integer " + Values.ppr(this.toString()) + ".", getSource());
    return ex.value;
  }
  public final Value takeExcept(ValueExcept[] exs) {
    if (exs.length != 0)
      Assert.fail("Attempted to appy EXCEPT construct to the integer " + Values.ppr(this.toString()) + ".", getSource());
    return this;
  }
  public final int size() {
    Assert.fail("Attempted to compute the number of elements in the integer " + Values.ppr(this.toString()) + ".", getSource());
    return 0;
  }
  public boolean mutates() { return false; }
  public final boolean isNormalized() { return true; }
  public final Value normalize() { return this; }
  public final boolean isDefined() { return true; }
  public final IValue deepCopy() { return this; }
  public void write(IValueOutputStream vos) throws IOException {
    vos.writeByte(INTVALUE);
    vos.writeInt(val);
  }
  public final long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, INTVALUE), val); }
  public final IValue permute(IMVPerm perm) { return this; }
  public final StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(val); }
  public static Value narrowToIntValue(long l) {
    return (int) l == l ? gen((int) l) : ValNegOne;
  }
}
