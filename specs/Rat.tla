-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic of unbounded size.  TLC's own integers have 32 bits, so a rational is a
   canonical string "n" or "n/d" (d > 1, gcd 1); the bodies below are the reference definitions for
   small values over <<numerator, denominator>> and are replaced by specs/java/Rat.java (BigInteger),
   in the way the CommunityModules replace theirs.  Only +, -, *, /, <=, rounding to a power of ten
   and conversions are replaced: every formula of the specification itself stays in TLA+. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

RInt(n)        == CHOOSE s \in STRING : TRUE   \* the integer n
RFrac(n, d)    == CHOOSE s \in STRING : TRUE   \* n/d for integers n, d # 0
RDec(s)        == CHOOSE t \in STRING : TRUE   \* decimal or scientific literal, or "n/d"
RAdd(a, b)     == CHOOSE s \in STRING : TRUE
RSub(a, b)     == CHOOSE s \in STRING : TRUE
RMul(a, b)     == CHOOSE s \in STRING : TRUE
RDiv(a, b)     == CHOOSE s \in STRING : TRUE
RCmp(a, b)     == CHOOSE s \in -1..1 : TRUE    \* sign of a - b
RRound(a, k)   == CHOOSE s \in STRING : TRUE   \* nearest multiple of 10^-k (keeps terms short)
RFloor(a)      == CHOOSE s \in STRING : TRUE   \* floor, as a rational
RFloorInt(a)   == CHOOSE n \in Int : TRUE      \* floor, must fit 32 bits
RTruncInt(a)   == CHOOSE n \in Int : TRUE      \* toward zero, must fit 32 bits
RIsInt(a)      == CHOOSE b \in BOOLEAN : TRUE

RSum(q)        == CHOOSE s \in STRING : TRUE   \* sum of a sequence
RProd(q)       == CHOOSE s \in STRING : TRUE   \* product of a sequence

RLe(a, b) == RCmp(a, b) <= 0
RLt(a, b) == RCmp(a, b) < 0
REq(a, b) == RCmp(a, b) = 0
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RZero == RInt(0)
ROne == RInt(1)
RTwo == RInt(2)
RNeg(a) == RSub(RZero, a)
RAbs(a) == IF RLt(a, RZero) THEN RNeg(a) ELSE a
RNot(a) == RSub(ROne, a)
\* |a - b| <= abs + rel * max(|a|, |b|)
RClose(a, b, rel, abs) == RLe(RAbs(RSub(a, b)), RAdd(abs, RMul(rel, RMax(RAbs(a), RAbs(b)))))
=============================================================================
