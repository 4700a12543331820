----------------------------- MODULE ExprDomain -----------------------------
(* Which expressions are valid: values and sample domains against the documented argument domains.
   Sample domains are the natural interval extension over the documented ranges of the leaves
   (mission time 0..T, uniform its bounds, normal mean -+ 6 sigma, log-normal up to exp(mu + 3 sigma), gamma up to
   its 99 percentile, beta 0..1, histogram its bounds, every failure-probability law 0..1).

   The program computes with 16 digits, so a comparison of nearly equal numbers is decided only when both
   are exact in binary; verdicts are "T", "F" or "U" (too close to tell).
   A(x) = [st verdict, v value, lo, hi bounds, open whether lo is excluded, ex / eb whether v / lo and hi are exact]. *)
EXTENDS Expr

Dyadic(v) == RIsInt(RMul(v, RInt(1048576))) /\ RLt(RAbs(v), RInt(1048576))

\* ---- three-valued comparisons ---------------------------------------------------------------------
LOCAL Tight(a, b) == RClose(a, b, "1e-9", "1e-12")
Le3(a, b, ex) == IF ~ex /\ Tight(a, b) THEN "U" ELSE IF RLe(a, b) THEN "T" ELSE "F"
Lt3(a, b, ex) == IF ~ex /\ Tight(a, b) THEN "U" ELSE IF RLt(a, b) THEN "T" ELSE "F"
Ne3(a, b, ex) == IF ~ex /\ Tight(a, b) THEN "U" ELSE IF REq(a, b) THEN "F" ELSE "T"
All3(q) == IF \E j \in DOMAIN q : q[j] = "F" THEN "F" ELSE IF \E j \in DOMAIN q : q[j] = "U" THEN "U" ELSE "T"
Any3(q) == IF \E j \in DOMAIN q : q[j] = "T" THEN "T" ELSE IF \E j \in DOMAIN q : q[j] = "U" THEN "U" ELSE "F"
Not3(t) == CASE t = "T" -> "F" [] t = "F" -> "T" [] OTHER -> "U"

\* ---- domains of arguments -------------------------------------------------------------------------
Probability3(r) == All3(<< Le3(RZero, r.v, r.ex), Le3(r.v, ROne, r.ex), Le3(RZero, r.lo, r.eb), Le3(r.hi, ROne, r.eb) >>)
Within3(r, a, b) == All3(<< Le3(a, r.v, r.ex), Le3(r.v, b, r.ex), Le3(a, r.lo, r.eb), Le3(r.hi, b, r.eb) >>)
NonNegative3(r) == All3(<< Le3(RZero, r.v, r.ex), Le3(RZero, r.lo, r.eb) >>)
Positive3(r) == All3(<< Lt3(RZero, r.v, r.ex),
                        IF r.open THEN Le3(RZero, r.lo, r.eb) ELSE Lt3(RZero, r.lo, r.eb) >>)
\* 0 in the sample domain
Has0(r) == All3(<< IF r.open THEN Lt3(r.lo, RZero, r.eb) ELSE Le3(r.lo, RZero, r.eb), Le3(RZero, r.hi, r.eb) >>)
Int3(v, ex) == IF ex \/ Dyadic(v) THEN (IF RIsInt(v) THEN "T" ELSE "F")
               ELSE IF Tight(v, RFloor(RAdd(v, RFrac(1, 2)))) THEN "U" ELSE "F"
\* the integer part is certain
Trunc3(v, ex) == IF ex \/ ~Tight(v, RFloor(RAdd(v, RFrac(1, 2)))) THEN "T" ELSE "U"

\* Quantiles the domains need: standard normal (confidence levels), gamma at 99 percent (shapes).
NormQ(level) == CASE level = RDec("0.9") -> RDec("1.2815515655446004") [] level = RDec("0.95") -> RDec("1.6448536269514722")
                  [] level = RDec("0.975") -> RDec("1.959963984540054") [] level = RDec("0.99") -> RDec("2.3263478740408408")
                  [] OTHER -> "none"
GammaQ(k) == CASE k = RDec("1") -> RDec("4.605170185988091") [] k = RDec("2") -> RDec("6.638352067993813")
               [] k = RDec("0.5") -> RDec("3.317448300510607") [] k = RDec("5") -> RDec("11.604625791594847")
               [] OTHER -> "none"

\* ---- one expression from its analysed arguments -----------------------------------------------------
LOCAL Lit(v) == [o |-> "c", v |-> v]
LOCAL Ap(x, vals, env) == Eval([x EXCEPT !.a = [j \in DOMAIN vals |-> Lit(vals[j])]], env)
LOCAL ExactOps == {"neg", "add", "sub", "mul", "abs", "ceil", "floor", "min", "max", "mod", "not", "and", "or", "eq", "df", "lt", "gt",
                   "leq", "geq", "ite", "switch", "uniform-deviate"}
LOCAL MinOf(S) == CHOOSE a \in S : \A b \in S : RLe(a, b)
LOCAL MaxOf(S) == CHOOSE a \in S : \A b \in S : RLe(b, a)
LOCAL Hull(S) == << MinOf(S), MaxOf(S) >>
LOCAL Box(x, q, r, env) == \* hull of the corners of two intervals
  Hull({Ap(x, << a, b >>, env) : a \in {q[1], q[2]}, b \in {r.lo, r.hi}})
LOCAL UnitOps == {"exponential", "GLM", "Weibull", "periodic-test", "beta-deviate"}

\* What the operator demands of its arguments R (analysed records), beyond their own validity.
Demands(x, R) ==
  LET o == x.o
      lt(a, b) == Lt3(R[a].v, R[b].v, R[a].ex /\ R[b].ex)
      pos(j) == Lt3(RZero, R[j].v, R[j].ex)           \* only the mean value is looked at
  IN CASE o = "div" -> All3([j \in 1 .. Len(R) - 1 |-> All3(<< Ne3(R[j + 1].v, RZero, R[j + 1].ex), Not3(Has0(R[j + 1])) >>)])
       [] o = "mod" ->
            LET r == R[2] cut(v) == RTruncInt(v)
            IN IF \E v \in {r.v, r.lo, r.hi, R[1].v, R[1].lo, R[1].hi} : RLt(RInt(1000000000), RAbs(v)) THEN "U"
               ELSE IF Trunc3(r.v, r.ex) = "U" \/ Trunc3(r.lo, r.eb) = "U" \/ Trunc3(r.hi, r.eb) = "U" THEN "U"
               ELSE IF cut(r.v) = 0 \/ cut(r.lo) = 0 \/ cut(r.hi) = 0 \/ (cut(r.lo) < 0 /\ cut(r.hi) > 0) THEN "F" ELSE "T"
       [] o = "pow" ->
            All3(<< Any3(<< Ne3(R[1].v, RZero, R[1].ex), Lt3(RZero, R[2].v, R[2].ex) >>),
                    Any3(<< Not3(Has0(R[1])), Positive3(R[2]) >>),
                    Any3(<< All3(<< Le3(RZero, R[1].v, R[1].ex), Le3(RZero, R[1].lo, R[1].eb) >>),
                            All3(<< Not3(Lt3(R[2].lo, R[2].hi, R[2].eb)), Int3(R[2].lo, R[2].eb) >>) >>) >>)
       [] o \in {"log", "log10"} -> Positive3(R[1])
       [] o = "sqrt" -> NonNegative3(R[1])
       [] o \in {"acos", "asin"} -> Within3(R[1], RInt(-1), ROne)
       [] o = "exponential" -> All3(<< NonNegative3(R[1]), NonNegative3(R[2]) >>)
       [] o = "GLM" -> All3(<< Probability3(R[1]), Positive3(R[2]), NonNegative3(R[3]), NonNegative3(R[4]) >>)
       [] o = "Weibull" -> All3(<< Positive3(R[1]), Positive3(R[2]), NonNegative3(R[3]), NonNegative3(R[4]) >>)
       [] o = "periodic-test" ->
            LET n == Len(R) IN
            IF n = 4 THEN All3(<< Positive3(R[1]), Positive3(R[2]), NonNegative3(R[3]), NonNegative3(R[4]) >>)
            ELSE IF n = 5 THEN All3(<< Positive3(R[1]), NonNegative3(R[2]), Positive3(R[3]), NonNegative3(R[4]), NonNegative3(R[5]) >>)
            ELSE All3(<< Positive3(R[1]), NonNegative3(R[2]), NonNegative3(R[3]), Positive3(R[4]), NonNegative3(R[5]),
                         Probability3(R[6]), Positive3(R[7]), Probability3(R[9]), Probability3(R[10]), NonNegative3(R[11]),
                         Le3(R[7].v, R[4].v, R[7].ex /\ R[4].ex), Le3(R[7].hi, R[4].lo, R[7].eb /\ R[4].eb) >>)
       [] o = "uniform-deviate" -> lt(1, 2)
       [] o = "normal-deviate" -> pos(2)
       [] o = "lognormal-deviate" ->
            IF Len(R) = 2 THEN pos(2)
            ELSE All3(<< pos(1), Lt3(ROne, R[2].v, R[2].ex), pos(3), Lt3(R[3].v, ROne, R[3].ex) >>)
       [] o \in {"gamma-deviate", "beta-deviate"} -> All3(<< pos(1), pos(2) >>)
       [] o = "histogram" ->
            All3([j \in 1 .. (Len(R) - 1) |-> IF j % 2 = 1 THEN Le3(RZero, R[j + 1].v, R[j + 1].ex) ELSE lt(j - 1, j + 1)])
       [] OTHER -> "T"

\* Bounds of the samples of a valid expression.
Bounds(x, R, v, env) ==
  LET o == x.o
      lo == R[1].lo hi == R[1].hi
      across == RLt(lo, RZero) /\ RLt(RZero, hi)
      pts == \A j \in DOMAIN R : REq(R[j].lo, R[j].hi)
      truths(j) == (IF R[j].open \/ RLt(RZero, R[j].lo) \/ RLt(R[j].hi, RZero) THEN {} ELSE {RZero})
                   \cup (IF REq(R[j].lo, RZero) /\ REq(R[j].hi, RZero) THEN {} ELSE {ROne})
      halfpi == RDiv(Pi, RTwo)
      b(p) == IF p THEN ROne ELSE RZero
  IN CASE o = "neg" -> << RNeg(hi), RNeg(lo) >>
       [] o \in {"add", "sub", "mul", "div", "min", "max"} ->
            FoldLeft(LAMBDA q, r : Box(x, q, r, env), << lo, hi >>, SubSeq(R, 2, Len(R)))
       [] o = "mean" -> << RDiv(RSum([j \in DOMAIN R |-> R[j].lo]), RInt(Len(R))),
                           RDiv(RSum([j \in DOMAIN R |-> R[j].hi]), RInt(Len(R))) >>
       [] o \in {"lt", "gt", "leq", "geq"} -> Box(x, << lo, hi >>, R[2], env)
       [] o \in {"abs", "cosh"} -> Hull({Ap(x, << lo >>, env), Ap(x, << hi >>, env)}
                                         \cup (IF across THEN {Ap(x, << RZero >>, env)} ELSE {}))
       [] o \in {"sinh", "tanh", "exp", "log", "log10", "sqrt", "ceil", "floor"} -> << Ap(x, << lo >>, env), Ap(x, << hi >>, env) >>
       [] o \in {"sin", "cos"} -> << RInt(-1), ROne >>
       [] o = "acos" -> << RZero, RDec(Pi) >>
       [] o \in {"asin", "atan"} -> << RNeg(halfpi), halfpi >>
       [] o = "tan" ->
            LET k(t) == RFloor(RAdd(RDiv(t, Pi), RFrac(1, 2)))
            IN IF k(lo) = k(hi) THEN << Ap(x, << lo >>, env), Ap(x, << hi >>, env) >> ELSE << RDec("-1e300"), RDec("1e300") >>
       [] o = "mod" ->
            LET c(t) == RTruncInt(t)
                ab(n) == IF n < 0 THEN -n ELSE n
                top == (IF ab(c(R[2].lo)) > ab(c(R[2].hi)) THEN ab(c(R[2].lo)) ELSE ab(c(R[2].hi))) - 1
                less(n) == IF n < top THEN n ELSE top
            IN IF c(lo) = c(hi) /\ c(R[2].lo) = c(R[2].hi) THEN << v, v >>
               ELSE << RInt(IF c(lo) < 0 THEN -less(-c(lo)) ELSE 0), RInt(IF c(hi) > 0 THEN less(c(hi)) ELSE 0) >>
       [] o = "pow" -> Hull({Ap(x, << a, e >>, env) : a \in {lo, hi}, e \in {R[2].lo, R[2].hi}} \cup (IF across THEN {RZero} ELSE {}))
       [] o = "not" -> Hull({RNot(t) : t \in truths(1)})
       [] o = "and" -> << b(\A j \in DOMAIN R : RZero \notin truths(j)), b(\A j \in DOMAIN R : ROne \in truths(j)) >>
       [] o = "or" -> << b(\E j \in DOMAIN R : RZero \notin truths(j)), b(\E j \in DOMAIN R : ROne \in truths(j)) >>
       [] o \in {"eq", "df"} ->
            LET eq == IF pts /\ REq(lo, R[2].lo) THEN {ROne}
                      ELSE IF RLt(hi, R[2].lo) \/ RLt(R[2].hi, lo) THEN {RZero} ELSE {RZero, ROne}
            IN IF o = "eq" THEN Hull(eq) ELSE Hull({RNot(t) : t \in eq})
       [] o = "ite" -> Hull({R[2].lo, R[2].hi, R[3].lo, R[3].hi})
       [] o = "switch" -> LET arms == {2 * j : j \in 1 .. (Len(R) - 1) \div 2} \cup {Len(R)}
                          IN Hull({R[j].lo : j \in arms} \cup {R[j].hi : j \in arms})
       [] o \in UnitOps -> << RZero, ROne >>
       [] o = "uniform-deviate" -> << R[1].v, R[2].v >>
       [] o = "normal-deviate" -> << RSub(R[1].v, RMul(RInt(6), R[2].v)), RAdd(R[1].v, RMul(RInt(6), R[2].v)) >>
       [] o = "lognormal-deviate" ->
            LET s == IF Len(R) = 2 THEN R[2].v ELSE RDiv(RLn(R[2].v), NormQ(R[3].v))
                m == IF Len(R) = 2 THEN R[1].v ELSE RSub(RLn(R[1].v), RDiv(RMul(s, s), RTwo))
            IN << RZero, RExp(RAdd(m, RMul(RInt(3), s))) >>
       [] o = "gamma-deviate" -> << RZero, RMul(R[2].v, GammaQ(R[1].v)) >>
       [] o = "histogram" -> << R[1].v, R[Len(R)].v >>

\* The discontinuities: values there are certain only with exact arguments.
Certain(x, R) ==
  LET o == x.o
      far(a, b) == IF R[a].ex /\ R[b].ex THEN "T" ELSE Any3(<< Lt3(R[a].v, R[b].v, FALSE), Lt3(R[b].v, R[a].v, FALSE) >>)
      nz(j) == IF R[j].ex THEN "T" ELSE Any3(<< Lt3(R[j].v, RZero, FALSE), Lt3(RZero, R[j].v, FALSE) >>)
      cut(j) == Trunc3(R[j].v, R[j].ex)
  IN CASE o \in {"eq", "df", "lt", "gt", "leq", "geq"} -> IF far(1, 2) = "T" THEN "T" ELSE "U"
       [] o \in {"not", "and", "or"} -> IF \A j \in DOMAIN R : nz(j) = "T" THEN "T" ELSE "U"
       [] o = "ite" -> IF nz(1) = "T" THEN "T" ELSE "U"
       [] o = "switch" -> IF \A j \in 1 .. (Len(R) - 1) \div 2 : nz(2 * j - 1) = "T" THEN "T" ELSE "U"
       [] o \in {"ceil", "floor"} -> cut(1)
       [] o = "mod" -> All3(<< cut(1), cut(2) >>)
       [] o = "lognormal-deviate" -> IF Len(R) = 3 /\ NormQ(R[3].v) = "none" THEN "U" ELSE "T"
       [] o = "gamma-deviate" -> IF GammaQ(R[1].v) = "none" THEN "U" ELSE "T"
       [] o = "histogram" -> IF \E j \in DOMAIN R : j % 2 = 0 /\ ~REq(R[j].v, RZero) THEN "T" ELSE "U"
       [] OTHER -> "T"

LOCAL Bad(st) == [st |-> st, v |-> RZero, lo |-> RZero, hi |-> RZero, open |-> FALSE, ex |-> FALSE, eb |-> FALSE]
LOCAL Point(v, ex) == [st |-> "T", v |-> v, lo |-> v, hi |-> v, open |-> FALSE, ex |-> ex, eb |-> ex]

\* env.par: analysed parameters
RECURSIVE Analyse(_, _)
Analyse(x, env) ==
  LET o == x.o IN
  CASE o = "c" /\ x.v \in {"NaN", "INF", "-INF"} -> Bad("U")
    [] o = "c" -> Point(RDec(x.v), TRUE)
    [] o = "b" -> Point(B2R(x.v), TRUE)
    [] o = "pi" -> Point(RDec(Pi), FALSE)
    [] o = "mt" -> [Point(env.mt, TRUE) EXCEPT !.lo = RZero]
    [] o = "par" -> env.par[x.n]
    [] o \in {"test-ini", "test-fun"} -> Point(RZero, TRUE)
    [] OTHER ->
       LET R == [j \in DOMAIN x.a |-> Analyse(x.a[j], env)]
           sub == All3([j \in DOMAIN R |-> R[j].st])
       IN IF sub # "T" THEN Bad(sub)
          ELSE LET d == All3(<< Demands(x, R), Certain(x, R) >>)
               IN IF d # "T" THEN Bad(d)
                  ELSE LET v == RRound(Ap(x, [j \in DOMAIN R |-> R[j].v], env), 80)
                           b == Bounds(x, R, v, env)
                           dy(t) == Dyadic(t)
                           pick == o \in {"min", "max"}      \* one of the arguments, unchanged
                           apart(t, u, ex) == ex \/ ~Tight(t, u)
                           truth == o \in {"not", "and", "or", "eq", "df", "lt", "gt", "leq", "geq"}   \* 0 or 1, certain here
                           ev == truth \/ IF pick THEN dy(v) /\ \A j \in DOMAIN R : apart(v, R[j].v, R[j].ex)
                                 ELSE o \in ExactOps /\ (\A j \in DOMAIN R : R[j].ex /\ dy(R[j].v)) /\ dy(v)
                           eb == IF pick THEN dy(b[1]) /\ dy(b[2]) /\ \A j \in DOMAIN R : apart(b[1], R[j].lo, R[j].eb) /\ apart(b[2], R[j].hi, R[j].eb)
                                 ELSE \/ o \in UnitOps \cup {"sin", "cos"}
                                      \/ o = "uniform-deviate" /\ R[1].ex /\ R[2].ex
                                      \/ o = "histogram" /\ R[1].ex /\ R[Len(R)].ex
                                      \/ o \in ExactOps /\ (\A j \in DOMAIN R : R[j].eb /\ dy(R[j].lo) /\ dy(R[j].hi)) /\ dy(b[1]) /\ dy(b[2])
                       IN [st |-> "T", v |-> v, lo |-> RRound(b[1], 80), hi |-> RRound(b[2], 80),
                           open |-> o \in {"lognormal-deviate", "gamma-deviate"}, ex |-> ev, eb |-> eb]

AnalysePars(defs, mt) ==
  FoldLeft(LAMBDA ps, d : Append(ps, Analyse(d, [mt |-> mt, par |-> ps, ini |-> "", fun |-> << >>])), << >>, defs)

\* [st: verdict on the model, p: analysed event expressions]
AnalyseModel(M, mt) ==
  LET ps == AnalysePars(M.par, mt)
      E == [i \in DOMAIN M.P |-> Analyse(M.P[i], [mt |-> mt, par |-> ps, ini |-> "", fun |-> << >>])]
      evs == [i \in DOMAIN E |-> IF M.P[i].o = "c" /\ M.P[i].v \in {"NaN", "INF", "-INF"} THEN "F" ELSE IF E[i].st = "T" THEN Probability3(E[i]) ELSE E[i].st]
  IN [st |-> All3(<< All3([i \in DOMAIN ps |-> ps[i].st]), All3(evs) >>), p |-> E, ok |-> evs]
=============================================================================
