// TLC's Integers module, with integers of unlimited size instead of 32 bits.
package tlc2.module;

import java.math.BigInteger;
import tla2sany.semantic.ExprNode;
import tlc2.tool.impl.TLARegistry;
import tlc2.value.IBoolValue;
import tlc2.value.ValueConstants;
import tlc2.value.Values;
import tlc2.value.impl.*;
import util.Assert;

public class Integers extends UserObj implements ValueConstants {
  public static final long serialVersionUID = 20160822L;
  private static final Value SET;
  static {
    TLARegistry.put("Plus", "+");
    TLARegistry.put("Minus", "-");
    TLARegistry.put("Times", "*");
    TLARegistry.put("LT", "<");
    TLARegistry.put("LE", "\\leq");
    TLARegistry.put("GT", ">");
    TLARegistry.put("GEQ", "\\geq");
    TLARegistry.put("DotDot", "..");
    TLARegistry.put("Neg", "-.");
    TLARegistry.put("Divide", "\\div");
    TLARegistry.put("Mod", "%");
    TLARegistry.put("Expt", "^");
    SET = new UserValue(new Integers());
  }
  public static Value Int() { return SET; }
  public static Value Nat() { return Naturals.Nat(); }
  private static BigInteger b(Value v) { return BigIntValue.big(v); }
  private static boolean sm(Value x, Value y) { return x instanceof IntValue && y instanceof IntValue; }
  private static long i(Value v) { return ((IntValue) v).val; }

  public static Value Plus(Value x, Value y) {
    return sm(x, y) ? BigIntValue.of(i(x) + i(y)) : BigIntValue.of(b(x).add(b(y)));
  }
  public static Value Minus(Value x, Value y) {
    return sm(x, y) ? BigIntValue.of(i(x) - i(y)) : BigIntValue.of(b(x).subtract(b(y)));
  }
  public static Value Times(Value x, Value y) {
    return sm(x, y) ? BigIntValue.of(i(x) * i(y)) : BigIntValue.of(b(x).multiply(b(y)));
  }
  private static int cmp(Value x, Value y) { return sm(x, y) ? Long.compare(i(x), i(y)) : b(x).compareTo(b(y)); }
  public static IBoolValue LT(Value x, Value y) { return cmp(x, y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static IBoolValue LE(Value x, Value y) { return cmp(x, y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static BoolValue GT(Value x, Value y) { return cmp(x, y) > 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static IBoolValue GEQ(Value x, Value y) { return cmp(x, y) >= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static IntervalValue DotDot(IntValue x, IntValue y) { return new IntervalValue(x.val, y.val); }
  public static Value Neg(Value x) { return BigIntValue.of(b(x).negate()); }
  /** Floor division, as TLC's Integers defines it for a positive divisor. */
  public static Value Divide(Value x, Value y) {
    if (sm(x, y)) {
      if (i(y) == 0) Assert.fail("The second argument of \\div is 0.");
      return BigIntValue.of(Math.floorDiv(i(x), i(y)));
    }
    BigInteger d = b(y);
    if (d.signum() == 0) Assert.fail("The second argument of \\div is 0.");
    BigInteger[] qr = b(x).divideAndRemainder(d);
    return BigIntValue.of(qr[1].signum() != 0 && (qr[1].signum() != d.signum()) ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }
  public static Value Mod(Value x, Value y) {
    BigInteger d = b(y);
    if (d.signum() <= 0) Assert.fail("The second argument of % should be a positive number, but instead it is: " + y);
    return sm(x, y) ? BigIntValue.of(Math.floorMod(i(x), i(y))) : BigIntValue.of(b(x).mod(d));
  }
  public static Value Expt(Value x, Value y) {
    if (!(y instanceof IntValue) || i(y) < 0) Assert.fail("The second argument of ^ should be a natural number, but instead it is: " + y);
    BigInteger base = b(x);
    int e = (int) i(y);
    if (base.equals(BigInteger.TWO)) return BigIntValue.of(BigInteger.ONE.shiftLeft(e));
    return BigIntValue.of(base.pow(e));
  }

  public final int compareTo(Value s) {
    if (s instanceof UserValue && ((UserValue) s).userObj instanceof Integers) return 0;
    if (s instanceof ModelValue) return 1;
    Assert.fail("Attempted to compare the set Int with the value:\n" + Values.ppr(s.toString()));
    return 0;
  }
  public final boolean member(Value v) {
    if (BigIntValue.isInt(v)) return true;
    if (v instanceof ModelValue) return ((ModelValue) v).modelValueMember(this);
    Assert.fail("Attempted to check if:\n" + Values.ppr(v.toString()) + "\nis in the set Int.");
    return false;
  }
  public final boolean isFinite() { return false; }
  public final StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append("Int"); }
  public String getNonEnumerableErrorMsg(ExprNode n) { return "The set Int cannot be enumerated: " + n; }
}
