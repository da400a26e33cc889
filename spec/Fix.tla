-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic for TLC.                                    *)
(*                                                                         *)
(* TLC integers have 32 bits and TLC has no reals, whereas the state of a  *)
(* dynamics simulator is made of real numbers.  A number is represented    *)
(* here by the flat tuple                                                  *)
(*                                                                         *)
(*      << sgn, d0, d1, ..., dk >>     sgn \in {-1, 0, 1, 2}               *)
(*                                                                         *)
(* whose value is  sgn * (d0 + d1*B + ... + dk*B^k) / B^4  with B = 2^15   *)
(* (resolution 2^-60, unbounded magnitude).  The representation is         *)
(* canonical (no leading zero digit, zero is <<0>>), so that equality is   *)
(* the equality of TLA+ values.  <<2>> is NaN: it absorbs every operation  *)
(* and every comparison with it is FALSE.                                  *)
(*                                                                         *)
(* Every operator below is a plain TLA+ definition.  For speed, TLC may    *)
(* evaluate them with the overrides of java/FixOverrides.java;             *)
(* spec/FixTest.tla runs with and without the overrides on the same        *)
(* inputs.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL B == 32768
LOCAL H == 16384

Zero == <<0>>
NaN  == <<2>>

IsNum(x) == x # NaN

-----------------------------------------------------------------------------
(* Magnitudes: little-endian sequences of digits, canonical.               *)

RECURSIVE Strip(_)
LOCAL Strip(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m)-1)) ELSE m

LOCAL Dg(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE CmpFrom(_, _, _)
LOCAL CmpFrom(a, b, i) == IF i = 0 THEN 0
    ELSE IF Dg(a, i) < Dg(b, i) THEN -1
    ELSE IF Dg(a, i) > Dg(b, i) THEN 1 ELSE CmpFrom(a, b, i-1)
LOCAL MagCmp(a, b) == CmpFrom(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))

RECURSIVE AddFrom(_, _, _, _, _)
LOCAL AddFrom(a, b, i, n, carry) ==
    IF i > n THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
    ELSE LET s == Dg(a, i) + Dg(b, i) + carry
         IN <<s % B>> \o AddFrom(a, b, i+1, n, s \div B)
LOCAL MagAdd(a, b) ==
    Strip(AddFrom(a, b, 1, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b), 0))

RECURSIVE SubFrom(_, _, _, _, _)
LOCAL SubFrom(a, b, i, n, borrow) ==      \* a >= b
    IF i > n THEN <<>>
    ELSE LET s == Dg(a, i) - Dg(b, i) - borrow
         IN IF s < 0 THEN <<s + B>> \o SubFrom(a, b, i+1, n, 1)
                     ELSE <<s>> \o SubFrom(a, b, i+1, n, 0)
LOCAL MagSub(a, b) == Strip(SubFrom(a, b, 1, Len(a), 0))

LOCAL Zeros(n) == [i \in 1..n |-> 0]

RECURSIVE MulDigit(_, _, _, _)
LOCAL MulDigit(a, d, i, carry) ==
    IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
    ELSE LET s == a[i]*d + carry
         IN <<s % B>> \o MulDigit(a, d, i+1, s \div B)
RECURSIVE MulFrom(_, _, _)
LOCAL MulFrom(a, b, j) ==
    IF j > Len(b) THEN <<>>
    ELSE MagAdd(Zeros(j-1) \o MulDigit(a, b[j], 1, 0), MulFrom(a, b, j+1))
LOCAL MagMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MulFrom(a, b, 1)

LOCAL Drop(m, n) == IF Len(m) <= n THEN <<>> ELSE SubSeq(m, n+1, Len(m))

\* m / 2^60, to nearest, ties away from zero
LOCAL RoundShift(m) ==
    IF Dg(m, 4) >= H THEN MagAdd(Drop(m, 4), <<1>>) ELSE Strip(Drop(m, 4))

\* number of bits, test of a bit, 2m + bit
RECURSIVE BitsOf(_)
LOCAL BitsOf(d) == IF d = 0 THEN 0 ELSE 1 + BitsOf(d \div 2)
LOCAL NBits(m) == IF m = <<>> THEN 0 ELSE 15*(Len(m)-1) + BitsOf(m[Len(m)])
RECURSIVE Pow2(_)
LOCAL Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n-1)
LOCAL Bit(m, i) == (Dg(m, (i \div 15) + 1) \div Pow2(i % 15)) % 2
LOCAL Twice(m, b) == MagAdd(MagAdd(m, m), IF b = 0 THEN <<>> ELSE <<1>>)

\* floor(a / b), b # <<>>: binary long division
RECURSIVE DivFrom(_, _, _, _, _)
LOCAL DivFrom(a, b, i, q, r) ==
    IF i < 0 THEN q
    ELSE LET r2 == Twice(r, Bit(a, i))
         IN IF MagCmp(r2, b) >= 0
            THEN DivFrom(a, b, i-1, Twice(q, 1), MagSub(r2, b))
            ELSE DivFrom(a, b, i-1, Twice(q, 0), r2)
LOCAL MagDiv(a, b) == DivFrom(a, b, NBits(a) - 1, <<>>, <<>>)

\* floor(sqrt(a)): the bits of the root are found from the highest one
LOCAL BitMag(i) == Zeros(i \div 15) \o <<Pow2(i % 15)>>
RECURSIVE SqrtFrom(_, _, _)
LOCAL SqrtFrom(a, i, r) ==
    IF i < 0 THEN r
    ELSE LET r2 == MagAdd(r, BitMag(i))
         IN IF MagCmp(MagMul(r2, r2), a) <= 0 THEN SqrtFrom(a, i-1, r2)
                                              ELSE SqrtFrom(a, i-1, r)
LOCAL MagSqrt(a) == SqrtFrom(a, (NBits(a) + 1) \div 2, <<>>)

-----------------------------------------------------------------------------
(* Numbers.                                                                *)

LOCAL Sg(x) == x[1]
LOCAL Mg(x) == SubSeq(x, 2, Len(x))
LOCAL Mk(s, m) == IF m = <<>> THEN Zero ELSE <<s>> \o m

FNeg(x) == IF x = NaN \/ x = Zero THEN x ELSE <<-Sg(x)>> \o Mg(x)
FAbs(x) == IF x = NaN \/ x = Zero THEN x ELSE <<1>> \o Mg(x)
FSgn(x) == Sg(x)

FAdd(x, y) ==
    IF x = NaN \/ y = NaN THEN NaN
    ELSE IF x = Zero THEN y ELSE IF y = Zero THEN x
    ELSE IF Sg(x) = Sg(y) THEN Mk(Sg(x), MagAdd(Mg(x), Mg(y)))
    ELSE LET c == MagCmp(Mg(x), Mg(y))
         IN IF c = 0 THEN Zero
            ELSE IF c > 0 THEN Mk(Sg(x), MagSub(Mg(x), Mg(y)))
            ELSE Mk(Sg(y), MagSub(Mg(y), Mg(x)))

FSub(x, y) == FAdd(x, FNeg(y))

FMul(x, y) ==
    IF x = NaN \/ y = NaN THEN NaN
    ELSE Mk(Sg(x)*Sg(y), RoundShift(MagMul(Mg(x), Mg(y))))

FDiv(x, y) ==
    IF x = NaN \/ y = NaN \/ y = Zero THEN NaN
    ELSE Mk(Sg(x)*Sg(y), MagDiv(Strip(Zeros(4) \o Mg(x)), Mg(y)))

FSqrt(x) ==
    IF x = NaN \/ Sg(x) = -1 THEN NaN
    ELSE Mk(1, MagSqrt(Strip(Zeros(4) \o Mg(x))))

FCmp(x, y) == LET d == FSub(x, y) IN Sg(d)        \* 2 when undefined
FLe(x, y) == FCmp(x, y) \in {-1, 0}
FLt(x, y) == FCmp(x, y) = -1

RECURSIVE DigitsOf(_)
LOCAL DigitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o DigitsOf(n \div B)
FInt(n) == IF n = 0 THEN Zero
           ELSE IF n > 0 THEN <<1>> \o Zeros(4) \o DigitsOf(n)
           ELSE <<-1>> \o Zeros(4) \o DigitsOf(-n)

=============================================================================
