// Fast evaluation of the operators of BigNum.tla; SelfTest.tla compares them with their TLA+ definitions.
package tlc2.overrides;

import java.math.BigInteger;
import tlc2.value.impl.*;
import util.Assert;

public class BigNumOverrides {
  private static BigInteger b(Value v) { return BigIntValue.big(v); }

  @TLAPlusOperator(identifier = "BitLen", module = "BigNum", warn = false)
  public static Value bitLen(Value n) {
    BigInteger x = b(n);
    if (x.signum() < 0) Assert.fail("BitLen of a negative number");
    return IntValue.gen(x.bitLength());
  }
  @TLAPlusOperator(identifier = "ISqrt", module = "BigNum", warn = false)
  public static Value isqrt(Value n) { return BigIntValue.of(b(n).sqrt()); }
  @TLAPlusOperator(identifier = "TrailZ", module = "BigNum", warn = false)
  public static Value trailZ(Value n) {
    BigInteger x = b(n);
    if (x.signum() == 0) Assert.fail("TrailZ of 0");
    return IntValue.gen(x.getLowestSetBit());
  }
  @TLAPlusOperator(identifier = "Shift", module = "BigNum", warn = false)
  public static Value shift(Value n, Value k) { return BigIntValue.of(b(n).shiftLeft(((IntValue) k).val)); }
  @TLAPlusOperator(identifier = "HexVal", module = "BigNum", warn = false)
  public static Value hexVal(Value s) {
    String h = ((StringValue) s).val.toString();
    if (h.isEmpty()) return IntValue.ValZero;
    if (h.charAt(0) == '-' || h.charAt(0) == '+') Assert.fail("HexVal of " + h);
    return BigIntValue.of(new BigInteger(h, 16));
  }
  @TLAPlusOperator(identifier = "DecVal", module = "BigNum", warn = false)
  public static Value decVal(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t.elems.length == 0) return IntValue.ValZero;
    StringBuilder sb = new StringBuilder();
    for (Value v : t.elems) {
      int c = ((IntValue) v).val;
      if (c < 48 || c > 57) Assert.fail("DecVal: not a digit " + c);
      sb.append((char) c);
    }
    return BigIntValue.of(new BigInteger(sb.toString()));
  }
  @TLAPlusOperator(identifier = "DecDigits", module = "BigNum", warn = false)
  public static Value decDigits(Value n) {
    BigInteger x = b(n);
    if (x.signum() < 0) Assert.fail("DecDigits of a negative number");
    String s = x.toString();
    Value[] out = new Value[s.length()];
    for (int i = 0; i < out.length; i++) out[i] = IntValue.gen(s.charAt(i));
    return new TupleValue(out);
  }
}
