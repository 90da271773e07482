package verif;

import java.math.BigInteger;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Overrides of Add, Mul and Cmp of spec/BF.tla; spec/MCBF.tla compares them with their definitions. */
public final class BF {
  private static final int BITS = 14;
  private static final int MASK = (1 << BITS) - 1;
  private static final IntValue[] SMALL = new IntValue[1 << BITS];

  static {
    for (int i = 0; i < SMALL.length; i++) {
      SMALL[i] = IntValue.gen(i);
    }
  }

  private static TupleValue tup(Value v) {
    return (TupleValue) v.toTuple();
  }

  private static int num(Value v) {
    return ((IntValue) v).val;
  }

  private static TupleValue nan() {
    return make(2, 0, new Value[0]);
  }

  private static TupleValue zero() {
    return make(0, 0, new Value[0]);
  }

  private static TupleValue make(int s, int e, Value[] limbs) {
    return new TupleValue(new Value[] {IntValue.gen(s), IntValue.gen(e), new TupleValue(limbs)});
  }

  private static BigInteger mant(Value v) {
    final Value[] d = tup(v).elems;
    final int n = d.length;
    if (n == 0) {
      return BigInteger.ZERO;
    }
    final byte[] out = new byte[(n * BITS + 7) / 8 + 1];
    long acc = 0;
    int bits = 0;
    int pos = out.length - 1;
    for (int i = 0; i < n; i++) {
      acc |= ((long) num(d[i])) << bits;
      bits += BITS;
      while (bits >= 8) {
        out[pos--] = (byte) acc;
        acc >>>= 8;
        bits -= 8;
      }
    }
    if (pos >= 0) {
      out[pos] = (byte) acc;
    }
    return new BigInteger(1, out);
  }

  private static TupleValue norm(BigInteger m, int e) {
    final int s = m.signum();
    if (s == 0) {
      return zero();
    }
    m = m.abs();
    final int low = m.getLowestSetBit() / BITS;
    if (low > 0) {
      m = m.shiftRight(low * BITS);
      e += low;
    }
    final int n = (m.bitLength() + BITS - 1) / BITS;
    final byte[] b = m.toByteArray();
    final Value[] limbs = new Value[n];
    long acc = 0;
    int bits = 0;
    int pos = b.length - 1;
    for (int i = 0; i < n; i++) {
      while (bits < BITS && pos >= 0) {
        acc |= ((long) (b[pos--] & 0xff)) << bits;
        bits += 8;
      }
      limbs[i] = SMALL[(int) (acc & MASK)];
      acc >>>= BITS;
      bits -= BITS;
    }
    return make(s, e, limbs);
  }

  @TLAPlusOperator(identifier = "Add", module = "BF", warn = false)
  public static Value add(final Value x, final Value y) {
    final Value[] a = tup(x).elems;
    final Value[] b = tup(y).elems;
    final int sa = num(a[0]);
    final int sb = num(b[0]);
    if (sa == 2 || sb == 2) {
      return nan();
    }
    if (sa == 0) {
      return y;
    }
    if (sb == 0) {
      return x;
    }
    final int ea = num(a[1]);
    final int eb = num(b[1]);
    final int e = Math.min(ea, eb);
    BigInteger m = mant(a[2]).shiftLeft((ea - e) * BITS);
    BigInteger n = mant(b[2]).shiftLeft((eb - e) * BITS);
    if (sa < 0) {
      m = m.negate();
    }
    if (sb < 0) {
      n = n.negate();
    }
    return norm(m.add(n), e);
  }

  @TLAPlusOperator(identifier = "Mul", module = "BF", warn = false)
  public static Value mul(final Value x, final Value y) {
    final Value[] a = tup(x).elems;
    final Value[] b = tup(y).elems;
    final int sa = num(a[0]);
    final int sb = num(b[0]);
    if (sa == 2 || sb == 2) {
      return nan();
    }
    if (sa == 0 || sb == 0) {
      return zero();
    }
    BigInteger m = mant(a[2]).multiply(mant(b[2]));
    if (sa != sb) {
      m = m.negate();
    }
    return norm(m, num(a[1]) + num(b[1]));
  }

  @TLAPlusOperator(identifier = "Cmp", module = "BF", warn = false)
  public static Value cmp(final Value x, final Value y) {
    final Value[] a = tup(x).elems;
    final Value[] b = tup(y).elems;
    final int sa = num(a[0]);
    final int sb = num(b[0]);
    if (sa == 2 || sb == 2) {
      return IntValue.gen(2);
    }
    if (sa != sb) {
      return IntValue.gen(sa < sb ? -1 : 1);
    }
    if (sa == 0) {
      return IntValue.gen(0);
    }
    final int ea = num(a[1]);
    final int eb = num(b[1]);
    final int e = Math.min(ea, eb);
    final BigInteger m = mant(a[2]).shiftLeft((ea - e) * BITS);
    final BigInteger n = mant(b[2]).shiftLeft((eb - e) * BITS);
    return IntValue.gen(sa * m.compareTo(n));
  }
}
