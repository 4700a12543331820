------------------------------- MODULE Quant --------------------------------
(* Quantitative results of a fault tree: probabilities of functions and products, approximations,
   importance factors, curves over time and safety integrity levels, all exact.
   A function is a set of points (BoolFn), probabilities are a sequence P of rationals (Rat). *)
EXTENDS FaultTree, Expr

\* Products of long decimals are kept to 100 decimal digits (far below what a report can show).
Mix(p, hi, lo) == IF hi = lo THEN hi
                  ELSE RRound(RAdd(RMul(p, hi), RMul(RSub(ROne, p), lo)), 100)

\* Shannon reduction of the table v of length 2^n over variables n, n-1, ..., 1
Reduce(v, n, P) ==
  FoldLeft(LAMBDA w, i : LET h == Len(w) \div 2 IN [j \in 1 .. h |-> Mix(P[i], w[j + h], w[j])],
           v, [j \in 1 .. n |-> n + 1 - j])[1]
Prob(f, N, P) == Reduce([j \in 1 .. Full(N) + 1 |-> B2R(j - 1 \in f)], N, P)

CubeProb(t, N, P) ==
  RProd([i \in 1 .. N |-> IF Has(t[1], i) THEN P[i] ELSE IF Has(t[2], i) THEN RSub(ROne, P[i]) ELSE ROne])

SumProb(prods, N, P) == RSum([j \in DOMAIN prods |-> CubeProb(prods[j], N, P)])
\* Total probability with approximation kind "none", "rare-event" or "mcub"; prods is a sequence of products.
Total(kind, f, prods, N, P) ==
  CASE kind = "none" -> Prob(f, N, P)
    [] kind = "rare-event" -> RMin(ROne, SumProb(prods, N, P))
    [] kind = "mcub" -> RSub(ROne, RProd([j \in DOMAIN prods |-> RSub(ROne, CubeProb(prods[j], N, P))]))

\* Importance factors of variable i, total being the total probability as a function of P and tot its value.
Factors(total(_), tot, i, P) ==
  LET p == P[i]
      mif == RSub(total([P EXCEPT ![i] = ROne]), total([P EXCEPT ![i] = RZero]))
      q == RMul(p, mif)
      raw == RAdd(ROne, RDiv(RMul(RSub(ROne, p), mif), tot))
      zero == REq(tot, RZero)
  IN [mif |-> mif,
      cif |-> IF zero THEN RZero ELSE RDiv(q, tot),
      raw |-> IF zero THEN RZero ELSE raw,
      dif |-> IF zero THEN RZero ELSE RMul(p, raw),
      left |-> RSub(tot, q),      \* what remains when the event never occurs (exact case)
      rrw |-> IF zero \/ REq(tot, q) THEN RZero ELSE RDiv(tot, RSub(tot, q))]

\* The times of a curve: multiples of the step below the mission time, then the mission time.
Times(mt, step) ==
  LET q == RDiv(mt, step)
      n == IF RIsInt(q) THEN RTruncInt(q) ELSE RTruncInt(q) + 1
  IN Append([j \in 1 .. n |-> RMul(RInt(j - 1), step)], mt)

\* Mean of the piecewise linear curve through <<t, y>>.
Average(pts) ==
  RDiv(RSum([j \in 1 .. Len(pts) - 1 |->
               RDiv(RMul(RAdd(pts[j][2], pts[j + 1][2]), RSub(pts[j + 1][1], pts[j][1])), RTwo)]),
       RSub(pts[Len(pts)][1], pts[1][1]))

\* Fraction of the time the piecewise linear curve is in the half-open band (b0, b1]; 0 is in the first band.
InBand(pts, b0, b1) ==
  LET seg(j) ==
        LET dt == RSub(pts[j + 1][1], pts[j][1])
            lo == RMin(pts[j][2], pts[j + 1][2])
            hi == RMax(pts[j][2], pts[j + 1][2])
        IN IF REq(lo, hi)
           THEN IF (RLt(b0, lo) \/ (REq(b0, RZero) /\ REq(lo, RZero))) /\ RLe(hi, b1) THEN dt ELSE RZero
           ELSE LET u == RMin(hi, b1) d == RMax(lo, b0)
                IN IF RLe(u, d) THEN RZero ELSE RDiv(RMul(dt, RSub(u, d)), RSub(hi, lo))
  IN RDiv(RSum([j \in 1 .. Len(pts) - 1 |-> seg(j)]), RSub(pts[Len(pts)][1], pts[1][1]))

PfdBounds == << "0", "1/100000", "1/10000", "1/1000", "1/100", "1/10", "1" >>
PfhBounds == << "0", "1/1000000000", "1/100000000", "1/10000000", "1/1000000", "1/100000", "1" >>
Pfh(pts) == [j \in DOMAIN pts |-> << pts[j][1], IF REq(pts[j][1], RZero) THEN RZero ELSE RDiv(pts[j][2], pts[j][1]) >>]
\* A level or a long flat stretch of the curve so close to a bound that the 16 digits of the program cannot decide.
NearBound(pts, bounds) ==
  \E j \in 1 .. Len(pts) : \E k \in 2 .. 6 :
     RClose(pts[j][2], bounds[k], "1e-9", "0")
=============================================================================
