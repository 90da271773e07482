--------------------------------- MODULE BF ---------------------------------
(***************************************************************************)
(* Exact binary floating point arithmetic.                                 *)
(*                                                                         *)
(* TLC integers have 32 bits, so the doubles an implementation returns are *)
(* carried as <<sgn, exp, mant>>, meaning  sgn * Sum(mant[i] * B^(i-1)) *  *)
(* B^exp  with B = 2^14, mant little endian without leading or trailing    *)
(* zero limbs.  Every finite double has exactly one such value, so a       *)
(* recorded number is *the* number the code returned, and Add, Sub and Mul *)
(* are exact: a clause of the specification is decided without rounding.   *)
(* There is no division and no square root: every clause of the            *)
(* specification is written in multiplied out form.                        *)
(*                                                                         *)
(* NaN and the infinities are the value NaN; arithmetic propagates it and  *)
(* every comparison with it is FALSE, so a verdict is always defined and a *)
(* clause about a NaN fails.                                               *)
(*                                                                         *)
(* Add, Mul and Cmp are overridden by java/tlc2/overrides/BF.java when it  *)
(* is on the class path; PAdd, PMul and PCmp are their definitions and     *)
(* MCBF.tla checks that override and definition agree.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 16384

NaN  == <<2, 0, <<>>>>
Zero == <<0, 0, <<>>>>
One  == <<1, 0, <<1>>>>

IsNum(x) == x[1] # 2

-----------------------------------------------------------------------------
(* Normal form *)
RECURSIVE StripHigh(_), StripLow(_)
StripHigh(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN StripHigh(SubSeq(m, 1, Len(m) - 1)) ELSE m
StripLow(m)  == IF m # <<>> /\ m[1] = 0 THEN StripLow(Tail(m)) ELSE m
Norm(s, e, m) ==
  LET h == StripHigh(m)
      w == StripLow(h)
  IN IF w = <<>> THEN Zero ELSE <<s, e + Len(h) - Len(w), w>>

(* Magnitudes: little endian sequences of limbs *)
Limb(m, i) == IF i >= 1 /\ i <= Len(m) THEN m[i] ELSE 0
Shift(m, k) == [i \in 1 .. k |-> 0] \o m
MaxI(i, j) == IF i < j THEN j ELSE i

RECURSIVE MagAddFrom(_, _, _, _)
MagAddFrom(m, n, i, c) ==
  IF i > MaxI(Len(m), Len(n)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(m, i) + Limb(n, i) + c
       IN <<t % B>> \o MagAddFrom(m, n, i + 1, t \div B)
MagAdd(m, n) == MagAddFrom(m, n, 1, 0)

RECURSIVE MagSubFrom(_, _, _, _)
MagSubFrom(m, n, i, c) ==      \* requires m >= n
  IF i > Len(m) THEN <<>>
  ELSE LET t == Limb(m, i) - Limb(n, i) - c
       IN IF t < 0 THEN <<t + B>> \o MagSubFrom(m, n, i + 1, 1)
          ELSE <<t>> \o MagSubFrom(m, n, i + 1, 0)
MagSub(m, n) == MagSubFrom(m, n, 1, 0)

RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(m, n, i) ==
  IF i = 0 THEN 0
  ELSE IF Limb(m, i) < Limb(n, i) THEN -1
  ELSE IF Limb(m, i) > Limb(n, i) THEN 1
  ELSE MagCmpFrom(m, n, i - 1)
MagCmp(m, n) == MagCmpFrom(m, n, MaxI(Len(m), Len(n)))

RECURSIVE MagMulLimb(_, _, _)
MagMulLimb(m, d, c) ==
  IF m = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Head(m) * d + c
       IN <<t % B>> \o MagMulLimb(Tail(m), d, t \div B)
RECURSIVE MagMul(_, _)
MagMul(m, n) ==
  IF n = <<>> THEN <<>>
  ELSE MagAdd(MagMulLimb(m, Head(n), 0), Shift(MagMul(m, Tail(n)), 1))

-----------------------------------------------------------------------------
(* The definitions of the arithmetic *)
PAdd(x, y) ==
  IF x[1] = 2 \/ y[1] = 2 THEN NaN
  ELSE IF x[1] = 0 THEN y
  ELSE IF y[1] = 0 THEN x
  ELSE LET e == IF x[2] < y[2] THEN x[2] ELSE y[2]
           m == Shift(x[3], x[2] - e)
           n == Shift(y[3], y[2] - e)
       IN IF x[1] = y[1] THEN Norm(x[1], e, MagAdd(m, n))
          ELSE IF MagCmp(m, n) >= 0 THEN Norm(x[1], e, MagSub(m, n))
          ELSE Norm(y[1], e, MagSub(n, m))

PMul(x, y) ==
  IF x[1] = 2 \/ y[1] = 2 THEN NaN
  ELSE IF x[1] = 0 \/ y[1] = 0 THEN Zero
  ELSE Norm(x[1] * y[1], x[2] + y[2], MagMul(x[3], y[3]))

PCmp(x, y) ==      \* -1, 0, 1, or 2 when a NaN is involved
  IF x[1] = 2 \/ y[1] = 2 THEN 2
  ELSE IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
  ELSE IF x[1] = 0 THEN 0
  ELSE LET e == IF x[2] < y[2] THEN x[2] ELSE y[2]
       IN x[1] * MagCmp(Shift(x[3], x[2] - e), Shift(y[3], y[2] - e))

Add(x, y) == PAdd(x, y)
Mul(x, y) == PMul(x, y)
Cmp(x, y) == PCmp(x, y)

-----------------------------------------------------------------------------
(* Derived operators *)
Neg(x) == IF x[1] = 2 THEN x ELSE <<-x[1], x[2], x[3]>>
Abs(x) == IF x[1] = -1 THEN <<1, x[2], x[3]>> ELSE x
Sgn(x) == x[1]                        \* 2 for NaN
Sub(x, y) == Add(x, Neg(y))
Sq(x) == Mul(x, x)
Lt(x, y) == Cmp(x, y) = -1
Gt(x, y) == Cmp(x, y) = 1
Le(x, y) == Cmp(x, y) \in {-1, 0}
Ge(x, y) == Cmp(x, y) \in {0, 1}
Eq(x, y) == Cmp(x, y) = 0
Max(x, y) == IF ~IsNum(x) \/ ~IsNum(y) THEN NaN ELSE IF Lt(x, y) THEN y ELSE x
Min(x, y) == IF ~IsNum(x) \/ ~IsNum(y) THEN NaN ELSE IF Lt(x, y) THEN x ELSE y

RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o LimbsOf(n \div B)
FromInt(n) == IF n < 0 THEN Norm(-1, 0, LimbsOf(-n)) ELSE Norm(1, 0, LimbsOf(n))

(* 2^k for any integer k *)
Pow2(k) == LET q == k \div 14 IN <<1, q, <<2 ^ (k - 14 * q)>>>>

(* x + y + z, x * y * z, and the like *)
Add3(x, y, z) == Add(x, Add(y, z))
Add4(x, y, z, w) == Add(Add(x, y), Add(z, w))
Mul3(x, y, z) == Mul(x, Mul(y, z))
Mul4(x, y, z, w) == Mul(Mul(x, y), Mul(z, w))
TimesInt(n, x) == Mul(FromInt(n), x)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero
             ELSE IF Len(s) = 1 THEN s[1]
             ELSE LET h == Len(s) \div 2
                  IN Add(SumSeq(SubSeq(s, 1, h)), SumSeq(SubSeq(s, h + 1, Len(s))))
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Max(s[1], MaxSeq(Tail(s)))

RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN One ELSE Mul(x, PowN(x, n - 1))

(* |x - y| <= tol,   and   |x - y| <= tol * scale *)
Near(x, y, tol) == Le(Abs(Sub(x, y)), tol)
Close(x, y, tol, scale) == Le(Abs(Sub(x, y)), Mul(tol, scale))
(* relative to the larger of the two *)
RelEq(x, y, tol) == Le(Abs(Sub(x, y)), Mul(tol, Max(Abs(x), Abs(y))))

=============================================================================
