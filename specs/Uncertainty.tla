---------------------------- MODULE Uncertainty -----------------------------
(* Monte-Carlo uncertainty analysis.  The random inputs of a model are its sources: the deviate of a parameter
   (one source however often the parameter is referred to) and every deviate written in place.  A source
   [v |-> values, w |-> weights] takes one of finitely many values.  An analysis is a sequence of trials; a trial
   draws every source anew and yields the total probability for that draw.  The report summarises the sequence.
   A model is that of FaultTree with
     src : sequence of sources        par : parameters over the sources (index Len(src) + j)
     P   : probability expressions    ph  : phases [f |-> time fraction, h |-> sequence of <<house event, state>>]
     groups : common-cause groups (Ccf); all events of a group share its distribution and factors, drawn once *)
EXTENDS Quant, Ccf, TLC

\* The random variables of the analysed function: the basic events, or those of the model with its groups expanded.
AllVars(M) == IF M.groups = << >> THEN [i \in 1 .. M.N |-> << 0, {i} >>] ELSE SetToSeq(Variables(M, TRUE))
FnsOf(M, V, H) == IF M.groups = << >> THEN GateFns(M, H) ELSE ExtGateFns([M EXCEPT !.H = H], V)

\* ---- draws -------------------------------------------------------------------------------------------------
Live(s) == {k \in DOMAIN s.v : ~REq(RDec(s.w[k]), RZero)}
Widest(src) == FoldLeft(LAMBDA m, s : IF Len(s.v) > m THEN Len(s.v) ELSE m, 1, src)
Draws(src) == {d \in [DOMAIN src -> 1 .. Widest(src)] : \A i \in DOMAIN src : d[i] \in Live(src[i])}
Weight(src, d) == RProd([i \in DOMAIN src |-> RDiv(RDec(src[i].w[d[i]]), RSum([k \in DOMAIN src[i].w |-> RDec(src[i].w[k])]))])

\* The event probabilities of a trial; an event is never more or less probable than 1 and 0.
Clamp(x) == RMax(RZero, RMin(ROne, x))
TrialProbs(M, V, mt, d) ==
  LET env0 == [mt |-> mt, par |-> [i \in DOMAIN M.src |-> RDec(M.src[i].v[d[i]])], ini |-> "", fun |-> << >>]
      pv == FoldLeft(LAMBDA p, x : Append(p, RRound(Eval(x, [env0 EXCEPT !.par = p]), 60)), env0.par, M.par)
      env == [env0 EXCEPT !.par = pv]
  IN [i \in DOMAIN V |-> Clamp(RRound(Eval(VarExpr(M, V[i]), env), 60))]

\* What a trial can yield, with weights; equal results are not merged.
Outcomes(M, V, mt, kind, f, prods) ==
  LET ds == SetToSeq(Draws(M.src))
  IN [j \in DOMAIN ds |-> [x |-> RRound(Total(kind, f, prods, Len(V), TrialProbs(M, V, mt, ds[j])), 60), w |-> Weight(M.src, ds[j])]]

Contexts(M, mt) ==      \* house states and mission time of every phase; phase 0 is the model without alignment
  IF M.ph = << >> THEN << [H |-> M.H, mt |-> mt] >>
  ELSE [j \in DOMAIN M.ph |->
          [H |-> [h \in DOMAIN M.H |->
                    IF \E k \in DOMAIN M.ph[j].h : M.ph[j].h[k][1] = h
                    THEN (CHOOSE x \in {M.ph[j].h[k] : k \in DOMAIN M.ph[j].h} : x[1] = h)[2] ELSE M.H[h]],
           mt |-> RMul(mt, RDec(M.ph[j].f))]]

\* Exact moments of the outcome of a trial.
OMean(os) == RSum([j \in DOMAIN os |-> RMul(os[j].w, os[j].x)])
OMoment(os, m, k) == RSum([j \in DOMAIN os |-> RMul(os[j].w, RPowInt(RSub(os[j].x, m), k))])
OMin(os) == FoldLeft(LAMBDA m, o : RMin(m, o.x), ROne, os)
OMax(os) == FoldLeft(LAMBDA m, o : RMax(m, o.x), RZero, os)
OMass(os, in(_)) == RSum([j \in DOMAIN os |-> IF in(os[j].x) THEN os[j].w ELSE RZero])

\* ---- summaries of a sequence of samples --------------------------------------------------------------------
SMean(xs) == RDiv(RSum(xs), RInt(Len(xs)))
SVar(xs) ==      \* unbiased; a single sample has no spread
  IF Len(xs) = 1 THEN RZero
  ELSE LET m == SMean(xs) IN RDiv(RSum([j \in DOMAIN xs |-> RPowInt(RSub(xs[j], m), 2)]), RInt(Len(xs) - 1))
Ordered(xs) == SortSeq(xs, RLt)
\* the i-th of k quantiles of an ordered sequence lies between these two order statistics
QLow(s, i, k) == s[(Len(s) * i + k - 1) \div k]
QHigh(s, i, k) == LET j == (Len(s) * i) \div k IN s[IF j >= Len(s) THEN Len(s) ELSE j + 1]
\* fraction of the samples in bin j of k between the least and the greatest sample (the last bin is closed)
BinEdge(s, j, k) == RAdd(s[1], RDiv(RMul(RInt(j), RSub(s[Len(s)], s[1])), RInt(k)))
BinFrac(s, j, k) ==
  RFrac(Cardinality({n \in DOMAIN s : /\ RLe(BinEdge(s, j - 1, k), s[n])
                                      /\ RLt(s[n], BinEdge(s, j, k)) \/ j = k}), Len(s))
Z95 == "1.96"

\* ---- continuous distributions: moments and quantiles -------------------------------------------------------
\* Standard normal quantile of i/20 (i = 10 .. 19) and density.
ZTab == << "0", "0.12566134685507402", "0.25334710313579978", "0.38532046640756773", "0.52440051270804078",
           "0.67448975019608174", "0.84162123357291441", "1.0364333894937896", "1.2815515655446004", "1.6448536269514722" >>
Z(i) == IF i >= 10 THEN RDec(ZTab[i - 9]) ELSE RNeg(RDec(ZTab[11 - i]))
Phi(z) == RDiv(RExp(RNeg(RDiv(RMul(z, z), RTwo))), RDec("2.5066282746310005"))

\* [m mean, v variance, k kurtosis, q(i): quantile of i/20, d(i): density there]; an empty q: not in closed form.
LogN(mu, s) ==
  LET s2 == RMul(s, s) E(x) == RExp(x)
      q == [i \in 1 .. 19 |-> E(RAdd(mu, RMul(Z(i), s)))]
      m == E(RAdd(mu, RDiv(s2, RTwo)))
  IN [m |-> m, v |-> RMul(RMul(m, m), RSub(E(s2), ROne)),
      k |-> RSub(RAdd(RAdd(E(RMul(RInt(4), s2)), RMul(RTwo, E(RMul(RInt(3), s2)))), RMul(RInt(3), E(RMul(RTwo, s2)))), RInt(3)),
      q |-> q, d |-> [i \in 1 .. 19 |-> RDiv(Phi(Z(i)), RMul(s, q[i]))]]
HistDist(b, w) ==      \* piecewise constant density: boundaries b, weights w
  LET sw == RSum(w) n == Len(w)
      P == [j \in 1 .. n |-> RDiv(w[j], sw)]
      mom(c, k) == RSum([j \in 1 .. n |-> RMul(P[j], RDiv(RSub(RPowInt(RSub(b[j + 1], c), k + 1), RPowInt(RSub(b[j], c), k + 1)),
                                                          RMul(RInt(k + 1), RSub(b[j + 1], b[j]))))])
      m == mom(RZero, 1) v == mom(m, 2)
      cum(j) == RSum([i \in 1 .. j |-> P[i]])
      at(p) == CHOOSE j \in 1 .. n : ~RLt(cum(j), p) /\ \A i \in 1 .. j - 1 : RLt(cum(i), p)
      q(i) == LET p == RFrac(i, 20) j == at(p) IN RAdd(b[j], RMul(RDiv(RSub(p, cum(j - 1)), P[j]), RSub(b[j + 1], b[j])))
  IN [m |-> m, v |-> v, k |-> RDiv(mom(m, 4), RMul(v, v)),
      q |-> [i \in 1 .. 19 |-> q(i)],
      \* the least density near the quantile (it may lie where the density jumps)
      d |-> [i \in 1 .. 19 |-> FoldLeft(LAMBDA dm, j : RMin(dm, RDiv(P[j], RSub(b[j + 1], b[j]))), RInt(1000000),
                                        [k \in 1 .. at(RFrac(2 * i + 1, 40)) - at(RFrac(2 * i - 1, 40)) + 1 |-> at(RFrac(2 * i - 1, 40)) + k - 1])]]
Dist(o, A) ==
  CASE o = "uniform-deviate" ->
         LET w == RSub(A[2], A[1])
         IN [m |-> RDiv(RAdd(A[1], A[2]), RTwo), v |-> RDiv(RMul(w, w), RInt(12)), k |-> "9/5",
             q |-> [i \in 1 .. 19 |-> RAdd(A[1], RMul(w, RFrac(i, 20)))], d |-> [i \in 1 .. 19 |-> RDiv(ROne, w)]]
    [] o = "normal-deviate" ->
         [m |-> A[1], v |-> RMul(A[2], A[2]), k |-> RInt(3), q |-> [i \in 1 .. 19 |-> RAdd(A[1], RMul(Z(i), A[2]))],
          d |-> [i \in 1 .. 19 |-> RDiv(Phi(Z(i)), A[2])]]
    [] o = "lognormal-deviate" ->
         IF Len(A) = 2 THEN LogN(A[1], A[2])
         ELSE LET i == CHOOSE j \in 11 .. 19 : REq(RFrac(j, 20), A[3])      \* mean, error factor at confidence level
                  s == RDiv(RLn(A[2]), Z(i))
              IN LogN(RSub(RLn(A[1]), RDiv(RMul(s, s), RTwo)), s)
    [] o = "gamma-deviate" ->
         [m |-> RMul(A[1], A[2]), v |-> RMul(A[1], RMul(A[2], A[2])), k |-> RAdd(RInt(3), RDiv(RInt(6), A[1])),
          q |-> IF REq(A[1], ROne) THEN [i \in 1 .. 19 |-> RNeg(RMul(A[2], RLn(RFrac(20 - i, 20))))] ELSE << >>,
          d |-> [i \in 1 .. 19 |-> RDiv(RFrac(20 - i, 20), A[2])]]
    [] o = "beta-deviate" ->
         LET a == A[1] b == A[2] s == RAdd(a, b) s1 == RAdd(s, ROne)
             v == RDiv(RMul(a, b), RMul(RMul(s, s), s1))
             num == RSub(RMul(RMul(RSub(a, b), RSub(a, b)), s1), RMul(RMul(a, b), RAdd(s, RTwo)))
             den == RMul(RMul(a, b), RMul(RAdd(s, RTwo), RAdd(s, RInt(3))))
             q == [i \in 1 .. 19 |-> IF REq(b, ROne) THEN RPow(RFrac(i, 20), RDiv(ROne, a))
                                      ELSE RSub(ROne, RPow(RFrac(20 - i, 20), RDiv(ROne, b)))]
             closed == REq(a, ROne) \/ REq(b, ROne)
         IN [m |-> RDiv(a, s), v |-> v, k |-> RAdd(RInt(3), RDiv(RMul(RInt(6), num), den)),
             q |-> IF closed THEN q ELSE << >>,
             d |-> IF ~closed THEN << >> ELSE [i \in 1 .. 19 |-> IF REq(b, ROne) THEN RMul(a, RPow(q[i], RSub(a, ROne)))
                                                               ELSE RMul(b, RPow(RSub(ROne, q[i]), RSub(b, ROne)))]]
    [] o = "histogram" ->
         LET n == (Len(A) - 1) \div 2 IN HistDist([j \in 1 .. n + 1 |-> A[2 * j - 1]], [j \in 1 .. n |-> A[2 * j]])
=============================================================================
