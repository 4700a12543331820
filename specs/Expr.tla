-------------------------------- MODULE Expr --------------------------------
(* Values of the expressions of the input language.  An expression is a record [o |-> operator, ...]:
     [o |-> "c", v |-> decimal]          constant (int, float); "pi"; [o |-> "b", v |-> BOOLEAN]
     [o |-> "par", n |-> index]          parameter
     [o |-> "mt"]                        system mission time
     [o |-> operator, a |-> arguments]   everything else
   env is [mt |-> mission time, par |-> sequence of parameter values, ini |-> name of the initiating event,
   fun |-> sequence of [n |-> functional event, s |-> state] set on the path]. *)
EXTENDS RealFns

B2R(b) == IF b THEN ROne ELSE RZero
R2B(x) == ~REq(x, RZero)

\* 1 - exp(-lambda t)
PExp(lambda, t) == RSub(ROne, RExp(RNeg(RMul(lambda, t))))
\* Two processes one after the other: probability that both (first mu, then lambda) occurred by t.
PSeq(pmu, plam, mu, lam, t) ==
  IF REq(lam, mu) THEN RSub(plam, RMul(RMul(RSub(ROne, plam), lam), t))
  ELSE RDiv(RSub(RMul(lam, pmu), RMul(mu, plam)), RSub(lam, mu))

Glm(g, l, m, t) == LET r == RAdd(l, m)
                   IN RDiv(RSub(l, RMul(RSub(l, RMul(g, r)), RExp(RNeg(RMul(r, t))))), r)
Weibull(a, b, t0, t) == IF RLe(t, t0) THEN RZero
                        ELSE RSub(ROne, RExp(RNeg(RPow(RDiv(RSub(t, t0), a), b))))

\* Periodic tests: instant repair; instant test with repair rate; complete.
PT4(l, tau, th, t) ==
  IF RLe(t, th) THEN PExp(l, t)
  ELSE LET d == RSub(t, th)
           after == RSub(d, RMul(RInt(RTruncInt(RDiv(d, tau))), tau))
       IN PExp(l, IF REq(after, RZero) THEN tau ELSE after)
PT5(l, mu, tau, th, t) ==
  IF RLe(t, th) THEN PExp(l, t)
  ELSE LET step(p, dt) ==     \* failure probability dt after a test that found probability p
             LET pl == PExp(l, dt) pm == PExp(mu, dt)
             IN RRound(RAdd(RMul(p, RSub(RAdd(RSub(ROne, pm), PSeq(pl, pm, l, mu, dt)), pl)), pl), 40)
           d == RSub(t, th)
           n == RTruncInt(RDiv(d, tau))
           p0 == FoldLeft(LAMBDA p, j : step(p, tau), PExp(l, th), [j \in 1 .. n |-> j])
       IN step(p0, RSub(d, RMul(RInt(n), tau)))
PT11(l, lt, mu, tau, th, g, dur, avail, sig, om, t) ==
  IF RLe(t, th) THEN PExp(l, t)
  ELSE
  LET aft(pm, pl, dt) == RAdd(RMul(pm, om), RMul(RSub(ROne, om), PSeq(pm, pl, mu, l, dt)))
      \* state: f failed undetected, r under repair, a available
      test(s, plt, dt, av) ==
        LET pm == PExp(mu, dt) pl == PExp(l, dt)
            tr == RAdd(s.f, RMul(s.a, RAdd(g, RMul(RSub(ROne, g), plt))))
            f == RRound(RAdd(RMul(s.r, aft(pm, pl, dt)), RMul(RSub(ROne, sig), tr)), 40)
            r == RRound(RAdd(RMul(RSub(ROne, pm), s.r), RMul(sig, tr)), 40)
            idle == IF av THEN RZero ELSE RMul(s.a, RMul(RSub(ROne, g), RSub(ROne, plt)))
        IN [f |-> f, r |-> r, a |-> RRound(RSub(RSub(RSub(ROne, f), r), idle), 40)]
      period(s, dt) ==
        LET pm == PExp(mu, dt) pl == PExp(l, dt)
            f == RRound(RAdd(RAdd(RMul(s.a, pl), s.f), RMul(s.r, aft(pm, pl, dt))), 40)
            r == RRound(RMul(s.r, RSub(ROne, pm)), 40)
        IN [f |-> f, r |-> r, a |-> RSub(RSub(ROne, f), r)]
      d == RSub(t, th)
      n == RTruncInt(RDiv(d, tau))
      s0 == LET f == PExp(l, th) IN [f |-> f, r |-> RZero, a |-> RSub(ROne, f)]
      sn == FoldLeft(LAMBDA s, j : period(test(s, PExp(lt, dur), dur, TRUE), RSub(tau, dur)), s0, [j \in 1 .. n |-> j])
      rest == RSub(d, RMul(RInt(n), tau))
      s == IF RLe(rest, dur) THEN test(sn, PExp(lt, rest), rest, avail)
           ELSE period(test(sn, PExp(lt, dur), dur, TRUE), RSub(rest, dur))
  IN RSub(ROne, s.a)

\* Remainder of the operands cut to integers, with the sign of the first.
ModInt(a, b) == LET n == RTruncInt(a) d == RTruncInt(b)
                    an == IF n < 0 THEN -n ELSE n
                    ad == IF d < 0 THEN -d ELSE d
                IN IF n < 0 THEN -(an % ad) ELSE an % ad

HistMean(b, w) ==      \* boundaries b (one more than weights w)
  LET sw == RSum(w)
      sp == RSum([j \in DOMAIN w |-> RMul(RAdd(b[j], b[j + 1]), w[j])])
  IN RDiv(sp, RMul(RTwo, sw))

\* Quantile of the standard normal distribution is only needed for the usual confidence levels.
Fold1(Op(_, _), q) == FoldLeft(Op, q[1], SubSeq(q, 2, Len(q)))

RECURSIVE Eval(_, _)
Eval(x, env) ==
  LET o == x.o
      A == [j \in DOMAIN x.a |-> Eval(x.a[j], env)]
      E(j) == Eval(x.a[j], env)
  IN CASE o = "c" -> RDec(x.v)
       [] o = "b" -> B2R(x.v)
       [] o = "pi" -> RDec(Pi)
       [] o = "par" -> env.par[x.n]
       [] o = "mt" -> env.mt
       [] o = "neg" -> RNeg(E(1))
       [] o = "add" -> RSum(A)
       [] o = "sub" -> Fold1(RSub, A)
       [] o = "mul" -> RProd(A)
       [] o = "div" -> Fold1(RDiv, A)
       [] o = "abs" -> RAbs(E(1))
       [] o = "acos" -> RAcos(E(1))
       [] o = "asin" -> RAsin(E(1))
       [] o = "atan" -> RAtan(E(1))
       [] o = "cos" -> RCos(E(1))
       [] o = "sin" -> RSin(E(1))
       [] o = "tan" -> RTan(E(1))
       [] o = "cosh" -> RCosh(E(1))
       [] o = "sinh" -> RSinh(E(1))
       [] o = "tanh" -> RTanh(E(1))
       [] o = "exp" -> RExp(E(1))
       [] o = "log" -> RLn(E(1))
       [] o = "log10" -> RLog10(E(1))
       [] o = "mod" -> RInt(ModInt(A[1], A[2]))
       [] o = "pow" -> RPow(A[1], A[2])
       [] o = "sqrt" -> RSqrt(E(1))
       [] o = "ceil" -> RCeil(E(1))
       [] o = "floor" -> RFloor(E(1))
       [] o = "min" -> Fold1(RMin, A)
       [] o = "max" -> Fold1(RMax, A)
       [] o = "mean" -> RDiv(RSum(A), RInt(Len(A)))
       [] o = "not" -> B2R(~R2B(E(1)))
       [] o = "and" -> B2R(\A j \in DOMAIN A : R2B(A[j]))
       [] o = "or" -> B2R(\E j \in DOMAIN A : R2B(A[j]))
       [] o = "eq" -> B2R(REq(A[1], A[2]))
       [] o = "df" -> B2R(~REq(A[1], A[2]))
       [] o = "lt" -> B2R(RLt(A[1], A[2]))
       [] o = "gt" -> B2R(RLt(A[2], A[1]))
       [] o = "leq" -> B2R(RLe(A[1], A[2]))
       [] o = "geq" -> B2R(RLe(A[2], A[1]))
       [] o = "ite" -> IF R2B(E(1)) THEN E(2) ELSE E(3)
       [] o = "switch" ->      \* a: condition, value, condition, value, ..., default
            LET n == (Len(x.a) - 1) \div 2
                hit == {j \in 1 .. n : R2B(E(2 * j - 1))}
            IN IF hit = {} THEN E(Len(x.a))
               ELSE E(2 * (CHOOSE j \in hit : \A k \in hit : j <= k))
       [] o = "exponential" -> PExp(A[1], A[2])
       [] o = "GLM" -> Glm(A[1], A[2], A[3], A[4])
       [] o = "Weibull" -> Weibull(A[1], A[2], A[3], A[4])
       [] o = "periodic-test" ->
            IF Len(A) = 4 THEN PT4(A[1], A[2], A[3], A[4])
            ELSE IF Len(A) = 5 THEN PT5(A[1], A[2], A[3], A[4], A[5])
            ELSE PT11(A[1], A[2], A[3], A[4], A[5], A[6], A[7], R2B(A[8]), A[9], A[10], A[11])
       \* means of the distributions
       [] o = "uniform-deviate" -> RDiv(RAdd(A[1], A[2]), RTwo)
       [] o = "normal-deviate" -> A[1]
       [] o = "lognormal-deviate" ->
            IF Len(A) = 3 THEN A[1] ELSE RExp(RAdd(A[1], RDiv(RMul(A[2], A[2]), RTwo)))
       [] o = "gamma-deviate" -> RMul(A[1], A[2])
       [] o = "beta-deviate" -> RDiv(A[1], RAdd(A[1], A[2]))
       [] o = "histogram" ->   \* a: first boundary, then weight and upper boundary of each bin... as b1, w1, b2, w2, b3
            LET n == (Len(A) - 1) \div 2
            IN HistMean([j \in 1 .. n + 1 |-> A[2 * j - 1]], [j \in 1 .. n |-> A[2 * j]])
       [] o = "test-ini" -> B2R(env.ini = x.n)
       [] o = "test-fun" -> B2R(\E j \in DOMAIN env.fun : env.fun[j].n = x.n /\ env.fun[j].s = x.s)

\* Values of a sequence of parameter definitions, each using only earlier ones.
ParVals(defs, env) == FoldLeft(LAMBDA pv, d : Append(pv, Eval(d, [env EXCEPT !.par = pv])), << >>, defs)
=============================================================================
