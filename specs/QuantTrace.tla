----------------------------- MODULE QuantTrace -----------------------------
(* Conformance of recorded quantitative analyses with Quant.tla.
   Events: load (a model with the probability expression of every basic event) and quant (one run). *)
EXTENDS Quant, TraceBase

VARIABLES l, cur
vars == << l, cur >>
Init == l = 0 /\ cur = << >>

Rel == "2e-5"
Near(a, b, abs) == RClose(RDec(a), b, Rel, abs)     \* a: reported literal, b: expected
Probs(M, mt) ==
  LET env0 == [mt |-> mt, par |-> << >>, ini |-> "", fun |-> << >>]
      env == [env0 EXCEPT !.par = ParVals(M.par, env0)]
  IN [i \in 1 .. M.N |-> RRound(Eval(M.P[i], env), 80)]

\* Trees of and, or, atleast over plain arguments: nothing is ever complemented, no digit is lost.
Plain(M) == \A j \in DOMAIN M.G : M.G[j].o \in {"and", "or", "atleast", "null"} /\ \A k \in DOMAIN M.G[j].a : M.G[j].a[k] > 0
Consts(M) == \A i \in DOMAIN M.P : M.P[i].o = "c"
Fine(e) == cur.fine /\ e.approx # "mcub"
\* Absolute error of a probability computed with 16 digits.
Eps(e) == IF Fine(e) THEN RZero ELSE "4e-15"

Load ==
  LET e == Trace[l + 1] IN
  /\ e.e = "load"
  /\ cur' = [m |-> e.m, fns |-> GateFns(e.m, e.m.H), fine |-> Plain(e.m) /\ Consts(e.m), tops |-> Roots(e.m)]

\* A result: g top gate, prods sequence of [c |-> cube, p |-> probability, r |-> contribution], ...
\* Probability vectors are passed in so that they are evaluated once.
TopConds(e, r, f, N, P, tot) ==
  LET prods == [j \in DOMAIN r.prods |-> r.prods[j].c]
      sum == SumProb(prods, N, P)
      cubes == [j \in DOMAIN prods |-> CubeProb(prods[j], N, P)]
  IN << << r.bad = << >>, "numbers that are not finite" >>,
        << r.bad # << >> \/ Near(r.p, tot, IF Fine(e) THEN RZero ELSE "1e-12"), "total probability" >>,
        << r.bad # << >> \/ \A j \in DOMAIN prods : Near(r.prods[j].p, cubes[j], Eps(e)), "product probability" >>,
        << r.bad # << >> \/ \A j \in DOMAIN prods :
              IF RLe(sum, Eps(e)) THEN REq(sum, RZero) => (r.prods[j].r = "" \/ ~Fine(e))
              ELSE r.prods[j].r # "" /\ Near(r.prods[j].r, RDiv(cubes[j], sum), RDiv(RMul(RTwo, Eps(e)), sum)), "contribution" >>,
        << e.approx = "none" \/
             (IF RLt(tot, RSub(ROne, "1e-12")) THEN ~r.adj
              ELSE IF e.approx = "rare-event" THEN r.adj \/ RLt(sum, RAdd(ROne, "1e-12")) ELSE TRUE), "warning about adjusted probability" >>,
        << e.approx = "none" \/ e.limited \/ ~Monotone(f, N) \/
             (/\ RLe(RMul(Prob(f, N, P), RSub(ROne, Rel)), RAdd("1e-12", RDec(r.p)))
              /\ (e.approx = "mcub" => RLe(RMul(RDec(r.p), RSub(ROne, Rel)), RAdd("1e-12", sum)))), "ordering of the approximations" >> >>

ImpConds(e, r, f, N, P, tot) ==
  LET prods == [j \in DOMAIN r.prods |-> r.prods[j].c]
      occ(i) == Cardinality({j \in DOMAIN prods : Has(prods[j][1], i) \/ Has(prods[j][2], i)})
      shown == {r.imp[j].v : j \in DOMAIN r.imp}
      T(Q) == Total(e.approx, f, prods, N, Q)
      ok(x) ==
        LET F == Factors(T, tot, x.v, P)
            zero == REq(tot, RZero)
            lost == ~Fine(e) /\ RLe(tot, "1e-13")     \* nothing left but rounding
            e1 == IF zero \/ lost THEN RZero ELSE RDiv("1e-14", tot)
            F0(v) == REq(RDec(v), RZero)
            \* the reduction worth amplifies the rounding of tot - p mif
            left == RAbs(F.left)
            rel == IF REq(left, RZero) THEN ROne
                   ELSE IF Fine(e) THEN RAdd("1e-4", RMul("1e-14", RDiv(tot, left)))
                   ELSE RAdd("1e-4", RAdd(RDiv("1e-14", left), e1))
        IN << << x.occ = occ(x.v), "occurrence" >>,
              << Near(x.p, P[x.v], "1e-15"), "event probability" >>,
              << Near(x.mif, F.mif, "1e-13"), "MIF" >>,
              << lost \/ IF zero THEN F0(x.cif) ELSE Near(x.cif, F.cif, RMul(e1, RAdd(ROne, RAbs(F.cif)))), "CIF" >>,
              << lost \/ IF zero THEN F0(x.raw) ELSE Near(x.raw, F.raw, RMul(e1, RAdd(ROne, RAbs(F.raw)))), "RAW" >>,
              << lost \/ IF zero THEN F0(x.dif) ELSE Near(x.dif, F.dif, RMul(e1, RAdd(ROne, RAbs(F.raw)))), "DIF" >>,
              << lost \/ IF zero THEN F0(x.rrw)
                 ELSE IF RLt("1/4", rel) THEN F0(x.rrw) \/ RLt("1e6", RAbs(RDec(x.rrw))) \/ ~Fine(e)
                 ELSE RClose(RDec(x.rrw), F.rrw, rel, "0"), "RRW" >> >>
  IN << << e.limited \/ shown = {i \in 1 .. N : occ(i) > 0}, "events listed" >>,
        << Cardinality(shown) = Len(r.imp) /\ r.nimp = Len(r.imp), "event count" >> >>
     \o (IF r.bad # << >> THEN << >> ELSE FoldLeft(LAMBDA acc, x : acc \o ok(x), << >>, r.imp))

\* The curve: one point per time; a step that divides the mission time may yield one more by rounding.
CurveConds(e, r, f, N) ==
  LET prods == [j \in DOMAIN r.prods |-> r.prods[j].c]
      mt == RDec(e.mt)
      want == IF REq(RDec(e.step), RZero) THEN << >> ELSE Times(mt, RDec(e.step))
      got == r.curve
      extra == Len(got) = Len(want) + 1 /\ Len(want) > 1 /\ Near(got[Len(want)][1], mt, "0")
      tm(j) == IF j > Len(want) THEN mt ELSE want[j]
      val == [j \in DOMAIN want |-> Total(e.approx, f, prods, N, Probs(cur.m, want[j]))]
      vl(j) == IF j > Len(want) THEN val[Len(want)] ELSE val[j]
      pts == [j \in DOMAIN want |-> << want[j], val[j] >>]
      single == Len(want) = 1
      sumq(q) == RSum([j \in DOMAIN q |-> RDec(q[j].v)])
      bands(q, B) == Len(q) = 6 /\ \A k \in 1 .. 6 : Near(q[k].lo, B[k], "0") /\ Near(q[k].hi, B[k + 1], "0")
      fracs(q, pp, B) == \A k \in 1 .. 6 : Near(q[k].v, InBand(pp, B[k], B[k + 1]), "2e-6")
  IN IF r.bad # << >> THEN << >>
     ELSE << << Len(got) = Len(want) \/ extra, "points of the curve" >>,
        << \A j \in DOMAIN got : Near(got[j][1], tm(j), "1e-12"), "times of the curve" >>,
        << \A j \in DOMAIN got : Near(got[j][2], vl(j), "1e-12"), "probability over time" >>,
        << want = << >> \/ Near(r.p, vl(Len(want)), "1e-12"), "curve ends at the total probability" >>,
        << (r.sil = << >>) = ~e.sil, "safety integrity levels present" >> >>
     \o (IF ~e.sil \/ r.sil = << >> THEN << >>
         ELSE LET s == r.sil[1] IN
         << << bands(s.pfd, PfdBounds) /\ bands(s.pfh, PfhBounds), "SIL bands" >>,
            << Near(s.pfdavg, IF single THEN val[1] ELSE Average(pts), "1e-12"), "PFD average" >>,
            << RClose(sumq(s.pfd), ROne, "0", "1e-5"), "PFD fractions add up to one" >> >>
         \o (IF single
             THEN << << NearBound(pts, PfdBounds) \/ \A k \in 1 .. 6 : REq(RDec(s.pfd[k].v),
                          B2R((RLt(PfdBounds[k], val[1]) \/ (k = 1 /\ REq(val[1], RZero))) /\ RLe(val[1], PfdBounds[k + 1]))), "PFD fractions" >> >>
             ELSE << << Near(s.pfhavg, Average(Pfh(pts)), "1e-15"), "PFH average" >>,
                     << (\E j \in DOMAIN pts : RLt(ROne, Pfh(pts)[j][2])) \/ RClose(sumq(s.pfh), ROne, "0", "1e-5"), "PFH fractions add up to one" >>,
                     << NearBound(pts, PfdBounds) \/ fracs(s.pfd, pts, PfdBounds), "PFD fractions" >>,
                     << NearBound(Pfh(pts), PfhBounds) \/ fracs(s.pfh, Pfh(pts), PfhBounds), "PFH fractions" >> >>))

Quant1 ==
  LET e == Trace[l + 1]
      N == cur.m.N
      P == Probs(cur.m, RDec(e.mt))
      tops == {e.tops[j].g : j \in DOMAIN e.tops}
      one(r) ==
        LET tot == Total(e.approx, cur.fns[r.g], [j \in DOMAIN r.prods |-> r.prods[j].c], N, P)
        IN TopConds(e, r, cur.fns[r.g], N, P, tot)
           \o (IF e.imp THEN ImpConds(e, r, cur.fns[r.g], N, P, tot) ELSE << << r.imp = << >>, "importance not requested" >> >>)
           \o CurveConds(e, r, cur.fns[r.g], N)
      why == IF e.rc # 0 THEN << "exit status" >>
             ELSE IF tops # cur.tops \/ Len(e.tops) # Cardinality(tops) THEN << "set of top events" >>
             ELSE Violated(FoldLeft(LAMBDA acc, r : acc \o one(r), << >>, e.tops))
  IN /\ e.e = "quant"
     /\ UNCHANGED cur
     /\ Report(l + 1, why)

Next == l < TraceLen /\ (Load \/ Quant1) /\ l' = l + 1 /\ Done(l + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
