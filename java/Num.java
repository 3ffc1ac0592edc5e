import java.math.BigInteger;
import tlc2.value.impl.*;

/** Overrides of module Num: amounts are decimal strings of any size. */
public class Num {
  static BigInteger b(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
    throw new RuntimeException("not an amount: " + v);
  }
  static Value s(BigInteger x) { return new StringValue(x.toString()); }
  static Value t(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value Zero() { return s(BigInteger.ZERO); }
  public static Value NumOf(Value i) { return s(b(i)); }
  public static Value Add(Value x, Value y) { return s(b(x).add(b(y))); }
  public static Value Sub(Value x, Value y) { return s(b(x).subtract(b(y))); }
  public static Value Mul(Value x, Value y) { return s(b(x).multiply(b(y))); }
  public static Value Div(Value x, Value y) {
    BigInteger[] qr = b(x).divideAndRemainder(b(y));
    return s(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }
  public static Value Rem(Value x, Value y) { return s(b(x).mod(b(y))); }
  public static Value Leq(Value x, Value y) { return t(b(x).compareTo(b(y)) <= 0); }
  public static Value Lt(Value x, Value y) { return t(b(x).compareTo(b(y)) < 0); }
}
