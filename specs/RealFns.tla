------------------------------ MODULE RealFns -------------------------------
(* Elementary real functions over exact rationals: series and argument reduction carried to 40 decimal
   digits (well beyond the 6 digits of a report and the 16 of the program). *)
EXTENDS Rat, Integers, Sequences, SequencesExt
LOCAL D == 40
LOCAL Rd(x) == RRound(x, D)
LOCAL Idx(n) == [j \in 1 .. n |-> j]
LOCAL Half(x) == RDiv(x, RTwo)

RECURSIVE RPowInt(_, _)
RPowInt(x, n) == IF n = 0 THEN ROne
                 ELSE LET h == RPowInt(x, n \div 2) s == RRound(RMul(h, h), 120)
                      IN IF n % 2 = 1 THEN RMul(s, x) ELSE s

\* e^x for 0 <= x <= 1/4
LOCAL ExpSmall(x) ==
  Rd(FoldRight(LAMBDA j, acc : Rd(RAdd(ROne, RMul(RDiv(x, RInt(j)), acc))), Idx(20), ROne))
RECURSIVE ExpPos(_)
ExpPos(x) == IF RLe(x, RFrac(1, 4)) THEN ExpSmall(x)
                   ELSE LET h == ExpPos(Half(x)) IN RRound(RMul(h, h), D)
RExp(x) == IF REq(x, RZero) THEN ROne
           ELSE IF RLt(x, RInt(-3000)) THEN RZero
           ELSE IF RLt(x, RZero) THEN RRound(RDiv(ROne, ExpPos(RNeg(Rd(x)))), 400) ELSE ExpPos(Rd(x))

\* 2 artanh((x-1)/(x+1)) for x near 1
LOCAL LnNear(x) ==
  LET z == Rd(RDiv(RSub(x, ROne), RAdd(x, ROne))) z2 == Rd(RMul(z, z))
  IN Rd(RMul(RTwo, RMul(z, FoldRight(LAMBDA j, acc : Rd(RAdd(RFrac(1, 2 * j - 1), RMul(z2, acc))), Idx(30), RZero))))
Ln2 == "0.693147180559945309417232121458176568075500134360255254120680"
Pi == "3.141592653589793238462643383279502884197169399375105820974945"
RECURSIVE RLn(_)
RLn(x) == IF RLt(RFrac(4, 3), x) THEN RAdd(Ln2, RLn(Half(x)))
          ELSE IF RLt(x, RFrac(2, 3)) THEN RSub(RLn(RMul(x, RTwo)), Ln2)
          ELSE LnNear(x)
RLog10(x) == RDiv(RLn(x), RLn(RInt(10)))

\* x^y for the cases with a real value
RPow(x, y) ==
  IF RIsInt(y)
  THEN LET n == RTruncInt(y) IN
       IF n >= 0 THEN RPowInt(x, n) ELSE RDiv(ROne, RPowInt(x, -n))
  ELSE IF REq(x, RZero) THEN RZero
  ELSE RExp(RMul(y, RLn(x)))

SqrtIn(x) ==       \* square root of x in [1, 4)
  FoldLeft(LAMBDA r, j : Rd(Half(RAdd(r, RDiv(x, r)))), RFrac(3, 2), Idx(8))
RECURSIVE RSqrt(_)
RSqrt(x) == IF REq(x, RZero) THEN RZero
            ELSE IF RLe(RInt(4), x) THEN RMul(RTwo, RSqrt(RDiv(x, RInt(4))))
            ELSE IF RLt(x, ROne) THEN Half(RSqrt(RMul(x, RInt(4))))
            ELSE SqrtIn(x)

\* sine and cosine by reduction to [-pi, pi] and halving of the angle
LOCAL Reduce(x) == LET k == RFloor(RAdd(RDiv(x, RMul(RTwo, Pi)), RFrac(1, 2)))
                   IN RSub(x, RMul(k, RMul(RTwo, Pi)))
LOCAL CosSmall(x) ==     \* |x| <= pi/8
  LET z == Rd(RMul(x, x))
  IN FoldRight(LAMBDA j, acc : Rd(RSub(ROne, RMul(RDiv(z, RInt((2 * j) * (2 * j - 1))), acc))), Idx(16), ROne)
LOCAL SinSmall(x) ==
  LET z == Rd(RMul(x, x))
  IN RMul(x, FoldRight(LAMBDA j, acc : Rd(RSub(ROne, RMul(RDiv(z, RInt((2 * j) * (2 * j + 1))), acc))), Idx(16), ROne))
LOCAL SC(x) ==           \* <<sin, cos>> of |x| <= pi
  LET y == Rd(RDiv(Reduce(x), RInt(8)))
      dbl(p) == << Rd(RMul(RTwo, RMul(p[1], p[2]))), Rd(RSub(ROne, RMul(RTwo, RMul(p[1], p[1])))) >>
  IN dbl(dbl(dbl(<< SinSmall(y), CosSmall(y) >>)))
RSin(x) == SC(x)[1]
RCos(x) == SC(x)[2]
RTan(x) == LET p == SC(x) IN RDiv(p[1], p[2])

LOCAL AtanSmall(x) ==
  LET z == Rd(RMul(x, x))
  IN Rd(RMul(x, FoldRight(LAMBDA j, acc : Rd(RSub(RFrac(1, 2 * j - 1), RMul(z, acc))), Idx(30), RZero)))
LOCAL AtanHalf(x) == Rd(RDiv(x, RAdd(ROne, RSqrt(Rd(RAdd(ROne, RMul(x, x)))))))
RECURSIVE RAtan(_)
RAtan(x) == IF RLt(x, RZero) THEN RNeg(RAtan(RNeg(x)))
            ELSE IF RLt(ROne, x) THEN RSub(RDiv(Pi, RTwo), RAtan(Rd(RDiv(ROne, x))))
            ELSE RMul(RInt(8), AtanSmall(AtanHalf(AtanHalf(AtanHalf(x)))))
RAsin(x) == IF REq(x, ROne) THEN RDiv(Pi, RTwo)
            ELSE IF REq(x, RInt(-1)) THEN RNeg(RDiv(Pi, RTwo))
            ELSE RAtan(Rd(RDiv(x, RSqrt(Rd(RSub(ROne, RMul(x, x)))))))
RAcos(x) == RSub(RDiv(Pi, RTwo), RAsin(x))
RCosh(x) == Half(RAdd(RExp(x), RExp(RNeg(x))))
RSinh(x) == Half(RSub(RExp(x), RExp(RNeg(x))))
RTanh(x) == RDiv(RSinh(x), RCosh(x))
RCeil(x) == RNeg(RFloor(RNeg(x)))
=============================================================================
