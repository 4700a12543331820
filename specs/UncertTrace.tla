----------------------------- MODULE UncertTrace ----------------------------
(* Conformance of recorded uncertainty analyses with Uncertainty.tla.
   uload  a model: m, mt mission time, approx, and the sizes nq, nb of the summaries of its runs
   trial  the run of the first n trials with a seed; runs with n = 1, 2, 3, ... of one seed show a history trial by
          trial: each is explained by one more Trial step of the specification (one analysis), or n = 1 (several)
   big    a run of many trials, judged by exact moments and distribution functions
   again  the same run once more: res and prev, the results of both
   uend   the end of a model: independence of successive trials, of analyses of one run, and of seeds
   dist   a single event with a continuous distribution [o, A] *)
EXTENDS Uncertainty, Products, TraceBase

VARIABLES l, cur, xs, hist, pairs
vars == << l, cur, xs, hist, pairs >>
\* xs: outcomes of the trials of the current seed; hist: those of all seeds; pairs: coincidences seen and expected
NoPairs == [n |-> 0, eq |-> 0, ex |-> RZero, vr |-> RZero]
Init == l = 0 /\ cur = << >> /\ xs = << >> /\ hist = << >> /\ pairs = NoPairs

Near(a, b, rel, abs) == RClose(RDec(a), b, rel, abs)
Sq(x) == RMul(x, x)
\* Six significant digits: relative error of a reported number; of two of them compared.
Digits == "6e-6"
Digits2 == "1.2e-5"
\* |d| <= k sqrt(v), exactly
Within(d, k, v, slack) == LET x == RSub(RAbs(d), slack) IN RLe(x, RZero) \/ RLe(Sq(x), RMul(RInt(k * k), v))

Load ==
  LET e == Trace[l + 1]
      C == Contexts(e.m, RDec(e.mt))
      V == AllVars(e.m)
      fns == [c \in DOMAIN C |-> FnsOf(e.m, V, C[c].H)]
      outs(g, c) == LET f == fns[c][g]
                    IN Outcomes(e.m, V, C[c].mt, e.approx, f,
                                IF e.approx = "none" THEN << >> ELSE SetToSeq(ProductsOf(f, Len(V), FALSE, 99)))
  IN
  /\ e.e = "uload"
  /\ cur' = [e EXCEPT !.m = @.G, !.mt = ""] @@ [nc |-> Len(C), rts |-> Roots(e.m), aligned |-> e.m.ph # << >>,
                                                os |-> [c \in DOMAIN C |-> [g \in Roots(e.m) |-> outs(g, c)]]]
  /\ xs' = << >> /\ hist' = << >> /\ pairs' = NoPairs

\* ---- one summary: the statements it makes agree with each other -------------------------------------------------
Consistent(u, n, nq, nb) ==
  IF u.bad # << >> THEN << << FALSE, "numbers that are not finite" >> >>
  ELSE IF Len(u.q) # nq \/ Len(u.b) # nb THEN << << FALSE, "sizes of quantiles and histogram" >> >>
  ELSE
  LET mn == RDec(u.b[1].lo) mx == RDec(u.b[nb].hi)
      mean == RDec(u.mean) sd == RDec(u.sd)
      T == RAdd(RMul(Digits2, RAbs(mx)), "1e-12")
      Q(i) == RDec(u.q[i].hi) V(j) == RDec(u.b[j].v) E(j) == RDec(u.b[j].hi)
      cum == FoldLeft(LAMBDA acc, b : Append(acc, RAdd(acc[Len(acc)], RDec(b.v))), << RZero >>, u.b)   \* cum[j + 1]: bins 1..j
      half == RDiv(RMul(RDec(Z95), sd), RSqrt(RInt(n)))
      width == RDiv(RSub(mx, mn), RInt(nb))
      p(i) == RFrac(i, nq)
  IN << << u.pct = << "95", "95" >>, "confidence level" >>,
        << u.nq = nq /\ u.nb = nb /\ \A i \in 1 .. nq : u.q[i].num = i /\ \A j \in 1 .. nb : u.b[j].num = j, "numbering" >>,
        << \A i \in 1 .. nq : Near(u.q[i].v, p(i), Digits, RZero), "quantile levels" >>,
        << REq(RDec(u.q[1].lo), RZero) /\ \A i \in 2 .. nq : u.q[i].lo = u.q[i - 1].hi, "quantile ranges" >>,
        << \A i \in 2 .. nq : RLe(Q(i - 1), Q(i)), "quantiles decrease" >>,
        << RClose(Q(nq), mx, RZero, T) /\ RLe(RSub(mn, T), Q(1)), "quantiles and the range of the sample" >>,
        << \A j \in 2 .. nb : u.b[j].lo = u.b[j - 1].hi, "bins adjacent" >>,
        << \A j \in 1 .. nb : RClose(RSub(E(j), RDec(u.b[j].lo)), width, RZero, T), "bins of one width" >>,
        << RClose(cum[nb + 1], ROne, RZero, "4e-5"), "histogram adds up to one" >>,
        << \A j \in 1 .. nb : RLe(RZero, V(j)), "negative bins" >>,
        << RLe(RNeg("1e-12"), mn) /\ RLe(mx, RAdd(ROne, "1e-12")), "samples are probabilities" >>,
        << RLe(RSub(mn, T), mean) /\ RLe(mean, RAdd(mx, T)), "mean and the range of the sample" >>,
        << /\ RLe(RSub(RSum([j \in 1 .. nb |-> RMul(V(j), RDec(u.b[j].lo))]), RMul(RTwo, T)), mean)
           /\ RLe(mean, RAdd(RSum([j \in 1 .. nb |-> RMul(V(j), E(j))]), RMul(RTwo, T))), "mean and histogram" >>,
        << RLe(RZero, sd) /\ (n = 1 => REq(sd, RZero)) /\
           (n > 1 => RLe(RMul(Sq(sd), RInt(4 * (n - 1))), RMul(Sq(RAdd(RSub(mx, mn), RMul(RTwo, T))), RInt(n)))), "deviation and range" >>,
        << RClose(RDec(u.lo), RSub(mean, half), RZero, RMul(Digits2, RAdd(mean, half))) /\
           RClose(RDec(u.hi), RAdd(mean, half), RZero, RMul(Digits2, RAdd(mean, half))), "confidence range" >>,
        << Near(u.ef, RExp(RMul(RDec(Z95), sd)), Digits2, RZero), "error factor" >>,
        << \A i \in 1 .. nq - 1 : \A j \in 1 .. nb :
             /\ RLt(RAdd(Q(i), T), E(j)) => RLe(RSub(p(i), "4e-5"), cum[j + 1])
             /\ RLt(RAdd(E(j), T), Q(i)) => RLe(cum[j + 1], RAdd(p(i), "4e-5")), "quantiles and histogram" >> >>

\* ---- a summary of known samples ---------------------------------------------------------------------------------
Exactly(u, ys, nq, nb) ==
  IF u.bad # << >> \/ Len(u.q) # nq \/ Len(u.b) # nb THEN << >> ELSE
  LET s == Ordered(ys) n == Len(ys)
      T == RAdd(RMul(RInt(n + 2), RMul(Digits, s[n])), "1e-10")      \* close outcomes may have been mistaken for each other
      edge(j) == BinEdge(s, j, nb)
      cnt(a, b) == Cardinality({k \in DOMAIN s : RLe(a, s[k]) /\ RLe(s[k], b)})
      inner(j) == cnt(IF j = 1 THEN s[1] ELSE RAdd(edge(j - 1), T), IF j = nb THEN s[n] ELSE RSub(edge(j), T))
      outer(j) == cnt(RSub(edge(j - 1), T), RAdd(edge(j), T))
      wide == RLt(RMul(RInt(4 * nb), T), RSub(s[n], s[1]))
  IN << << Near(u.mean, SMean(ys), RZero, T), "mean of the samples" >>,
        << Near(u.sd, RSqrt(SVar(ys)), Digits2, RAdd("2e-9", RMul(RInt(n), RMul(Digits, s[n])))), "standard deviation of the samples" >>,
        << Near(u.b[1].lo, s[1], RZero, T) /\ Near(u.b[nb].hi, s[n], RZero, T), "range of the samples" >>,
        << \A i \in 1 .. nq : /\ RLe(RSub(QLow(s, i, nq), T), RDec(u.q[i].hi))
                              /\ RLe(RDec(u.q[i].hi), RAdd(QHigh(s, i, nq), T)), "quantiles of the samples" >>,
        << \A j \in 1 .. nb : /\ Near(u.b[j].lo, edge(j - 1), RZero, T)
                              /\ ~wide \/ (/\ RLe(RSub(RFrac(inner(j), n), Digits), RDec(u.b[j].v))
                                           /\ RLe(RDec(u.b[j].v), RAdd(RFrac(outer(j), n), Digits))), "histogram of the samples" >> >>

\* ---- results of a run -------------------------------------------------------------------------------------------
OutsOf(r) == cur.os[IF r.ph = 0 THEN 1 ELSE r.ph][r.g]
Ids(e) == {<< e.tops[j].g, e.tops[j].ph >> : j \in DOMAIN e.tops}
WantIds == {<< g, c >> : g \in cur.rts, c \in IF cur.aligned THEN 1 .. cur.nc ELSE {0}}
Complete(e) == << << e.rc = 0, "the run" >>, << Ids(e) = WantIds /\ Len(e.tops) = Cardinality(WantIds), "results" >> >>

Tol(x) == RAdd(RMul(Digits2, x), "1e-11")
\* The outcomes within reporting precision of x.
Feasible(os, x, t) == {j \in DOMAIN os : RLe(RAbs(RSub(os[j].x, x)), t)}
Nearest(os, x) == CHOOSE j \in DOMAIN os : \A k \in DOMAIN os : RLe(RAbs(RSub(os[j].x, x)), RAbs(RSub(os[k].x, x)))
\* probability that two independent outcomes coincide
Coincide(o1, o2) ==
  RSum([j \in DOMAIN o1 |-> RMul(o1[j].w, OMass(o2, LAMBDA x : RLe(RAbs(RSub(x, o1[j].x)), Tol(x))))])
Count(pr, same, q) == [n |-> pr.n + 1, eq |-> pr.eq + (IF same THEN 1 ELSE 0), ex |-> RAdd(pr.ex, q), vr |-> RAdd(pr.vr, RMul(q, RSub(ROne, q)))]

Trial ==
  LET e == Trace[l + 1]
      n == e.n
      \* the history up to here is known
      whole == n = 1 \/ (Len(xs) = n - 1 /\ hist # << >>)
      ok == e.rc = 0 /\ whole /\ Ids(e) = WantIds /\ \A j \in DOMAIN e.tops : e.tops[j].u.bad = << >>
      \* the sample of the last trial, from the means of n and of n - 1 trials (the earlier samples are known)
      last(r) == RSub(RMul(RInt(n), RDec(r.u.mean)), RSum(IF n = 1 THEN << >> ELSE xs))
      \* (an earlier one may have been mistaken for another so close that the reported digits don't tell them apart)
      tol(r) == RMul(RInt(n * n), RAdd(RMul(Digits, RDec(r.u.mean)), "1e-11"))
      feas(r) == Feasible(OutsOf(r), last(r), tol(r)) # {}
      snap(r) == OutsOf(r)[Nearest(OutsOf(r), last(r))].x
      base == IF n = 1 THEN << >> ELSE xs
  IN
  /\ e.e = "trial"
  /\ \/ /\ ~ok
        /\ Report(l + 1, Violated(Complete(e)) \o (IF e.rc # 0 THEN << >> ELSE FoldLeft(LAMBDA a, r : a \o Violated(Consistent(r.u, n, cur.nq, cur.nb)), << >>, e.tops)))
        /\ xs' = << >>
        /\ UNCHANGED << pairs, hist >>
     \/ /\ ok
        /\ \E ys \in {[j \in DOMAIN e.tops |-> snap(e.tops[j])]} :
             LET zs == Append(base, ys[1])
                 chain == Len(e.tops) = 1
                 conds == FoldLeft(LAMBDA a, r : a \o << << feas(r), "a trial no draw explains" >> >> \o Consistent(r.u, n, cur.nq, cur.nb), << >>, e.tops)
                          \o (IF chain THEN Exactly(e.tops[1].u, zs, cur.nq, cur.nb) ELSE << >>)
             IN /\ Report(l + 1, Violated(conds))
                /\ xs' = zs
                /\ hist' = IF n = 1 THEN Append(hist, zs) ELSE [hist EXCEPT ![Len(hist)] = zs]
                /\ pairs' = IF ~chain
                            THEN Count(pairs, RLe(RAbs(RSub(ys[1], ys[2])), Tol(ys[1])), Coincide(OutsOf(e.tops[1]), OutsOf(e.tops[2])))
                            ELSE IF n = 1 THEN pairs
                            ELSE Count(pairs, RLe(RAbs(RSub(xs[Len(xs)], ys[1])), Tol(ys[1])), Coincide(OutsOf(e.tops[1]), OutsOf(e.tops[1])))
  /\ UNCHANGED cur

BigConds(u, os, n, nq, nb) ==
  IF u.bad # << >> \/ Len(u.q) # nq \/ Len(u.b) # nb THEN << >> ELSE
  LET m == OMean(os) v == OMoment(os, m, 2) m4 == OMoment(os, m, 4)
      mx == OMax(os) mn == OMin(os) T == Tol(mx)
      N == RInt(n)
      mass(a, b) == OMass(os, LAMBDA x : RLe(a, x) /\ RLe(x, b))
      se2(p) == RDiv(RMul(p, RSub(ROne, p)), N)
      atMost(x, p) == LET d == RSub(x, p) IN Within(RMax(d, RZero), 7, se2(RMin(ROne, RMax(RZero, p))), RDiv(RInt(12), N))
      atLeast(x, p) == LET d == RSub(p, x) IN Within(RMax(d, RZero), 7, se2(RMin(ROne, RMax(RZero, p))), RDiv(RInt(12), N))
      lo == RDec(u.b[1].lo) hi == RDec(u.b[nb].hi)
      often == {j \in DOMAIN os : RLt(RInt(40), RMul(N, os[j].w))}
  IN << << Within(RSub(RDec(u.mean), m), 7, RDiv(v, N), T), "mean over many trials" >>,
        << Within(RSub(Sq(RDec(u.sd)), v), 7, RDiv(RSub(m4, RMul(v, v)), N), RAdd(RMul(v, RDiv(RInt(60), N)), RAdd(RAdd(Sq(RMul(Digits, mx)), RMul("2e-11", mx)), "1e-22"))), "deviation over many trials" >>,
        << RLe(RSub(mn, T), lo) /\ RLe(hi, RAdd(mx, T)), "samples out of the possible range" >>,
        << \A j \in often : RLe(RSub(lo, T), os[j].x) /\ RLe(os[j].x, RAdd(hi, T)), "frequent outcomes never seen" >>,
        << \A i \in 1 .. nq - 1 :
             LET q == RDec(u.q[i].hi) p == RFrac(i, nq)
             IN atLeast(mass(RZero, RAdd(q, T)), p) /\ atMost(mass(RZero, RSub(q, T)), p), "quantiles over many trials" >>,
        << RLt(RSub(hi, lo), RMul(RInt(4 * nb), T)) \/
           \A j \in 1 .. nb :
             LET a == RDec(u.b[j].lo) b == RDec(u.b[j].hi) w == RDec(u.b[j].v)
             IN atLeast(w, mass(RAdd(a, T), RSub(b, T))) /\ atMost(w, mass(RSub(a, T), RAdd(b, T))), "histogram over many trials" >> >>

Big ==
  LET e == Trace[l + 1]
      one(r) == Consistent(r.u, e.n, cur.nq, cur.nb) \o BigConds(r.u, OutsOf(r), e.n, cur.nq, cur.nb)
      conds == Complete(e) \o (IF e.rc # 0 \/ Ids(e) # WantIds THEN << >> ELSE FoldLeft(LAMBDA a, r : a \o one(r), << >>, e.tops))
  IN
  /\ e.e = "big"
  /\ Report(l + 1, Violated(conds))
  /\ UNCHANGED << cur, xs, hist, pairs >>

SameU(a, b) ==
  /\ a.bad = << >> /\ b.bad = << >> /\ Len(a.q) = Len(b.q) /\ Len(a.b) = Len(b.b)
  /\ LET S(x, y) == Near(x, RDec(y), "1e-5", "1e-11")
     IN /\ S(a.mean, b.mean) /\ Near(a.sd, RDec(b.sd), "1e-4", "1e-9")
        /\ \A i \in DOMAIN a.q : S(a.q[i].hi, b.q[i].hi)
        /\ S(a.b[1].lo, b.b[1].lo) /\ S(a.b[Len(a.b)].hi, b.b[Len(b.b)].hi)
Again ==
  LET e == Trace[l + 1]
      same == Len(e.res) = Len(e.prev) /\ \A i \in DOMAIN e.res : \E j \in DOMAIN e.prev :
                e.res[i].g = e.prev[j].g /\ e.res[i].ph = e.prev[j].ph /\ SameU(e.res[i].u, e.prev[j].u)
  IN
  /\ e.e = "again"
  /\ Report(l + 1, Violated(<< << same, "the same run again gives other results" >> >>))
  /\ UNCHANGED << cur, xs, hist, pairs >>

End ==
  LET e == Trace[l + 1]
      spread == \A j \in DOMAIN hist : hist[j] = hist[1]
      os == cur.os[1][CHOOSE g \in cur.rts : TRUE]
      q == Coincide(os, os)
      k == Len(hist) - 1
      len == IF k < 1 THEN 0 ELSE Len(hist[1])
      conds == << << Within(RSub(RInt(pairs.eq), pairs.ex), 6, pairs.vr, RInt(2)), "successive draws are not independent" >>,
                  << cur.nc * Cardinality(cur.rts) # 1 \/ k < 1 \/ ~spread \/ RLt("1e-12", RPowInt(q, k * len)), "all seeds give one history" >> >>
  IN
  /\ e.e = "uend"
  /\ Report(l + 1, Violated(conds))
  /\ PrintT("@SEEN " \o ToJson([pairs |-> pairs.n, seeds |-> Len(hist), random |-> IF RLt(q, ROne) THEN 1 ELSE 0]))
  /\ UNCHANGED << cur, xs, hist, pairs >>

DistConds(e) ==
  LET u == e.u n == e.n N == RInt(n)
      A == [j \in DOMAIN e.A |-> RDec(e.A[j])]
      D == Dist(e.o, A)
      at(i) == (20 * i) \div e.nq
  IN IF u.bad # << >> \/ Len(u.q) # e.nq \/ Len(u.b) # e.nb THEN << >> ELSE
     << << Within(RSub(RDec(u.mean), D.m), 7, RDiv(D.v, N), RAdd(RMul(Digits, D.m), e.clip)), "mean of a distribution" >>,
        << Within(RSub(Sq(RDec(u.sd)), D.v), 7, RDiv(RMul(RSub(D.k, ROne), Sq(D.v)), N), RAdd(RMul(D.v, RDiv(RInt(60), N)), RMul(D.v, e.clip))), "deviation of a distribution" >>,
        << D.q = << >> \/ \A i \in 1 .. e.nq - 1 :
             Within(RSub(RDec(u.q[i].hi), D.q[at(i)]), 7, RDiv(RMul(RFrac(i, e.nq), RFrac(e.nq - i, e.nq)), RMul(N, Sq(D.d[at(i)]))),
                    RAdd("1e-9", RMul("1e-5", D.q[at(i)]))), "quantiles of a distribution" >> >>
Dist1 ==
  LET e == Trace[l + 1]
      conds == << << e.rc = 0, "the run" >> >> \o (IF e.rc # 0 THEN << >> ELSE Consistent(e.u, e.n, e.nq, e.nb) \o DistConds(e))
  IN
  /\ e.e = "dist"
  /\ Report(l + 1, Violated(conds))
  /\ UNCHANGED << cur, xs, hist, pairs >>

Next == l < TraceLen /\ l' = l + 1 /\ (Load \/ Trial \/ Big \/ Again \/ End \/ Dist1) /\ Done(l + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
