--------------------------- MODULE SettingsTrace ----------------------------
(* Conformance with Settings.tla.
   Events: reset      fresh settings
           set        one request [k, v] made to the real settings: ok (granted), s (all settings afterwards)
           load       a model
           cli        a whole run: p, c requests of project file and command line (sequences of <<setting, value>>),
                      bad (malformed command line or project file), validate (no analysis asked for),
                      rc, err, out (a report was written), obs (what the report states), results as in QuantTrace *)
EXTENDS Settings, QuantTrace

Same(k, a, b) == IF k \in Counts \cup Reals THEN Number(b) /\ REq(RDec(a), RDec(b)) ELSE a = b

SReset == Trace[l + 1].e = "reset" /\ cur' = [s |-> Default]
SSet ==
  LET e == Trace[l + 1] IN
  /\ e.e = "set"
  /\ LET ok == Granted(cur.s, e.k, e.v)
         t == Request(cur.s, << e.k, e.v >>)
     IN /\ cur' = [s |-> t]
        /\ IF e.s.algorithm = "nan" THEN Report(l + 1, << "program ended" >>) ELSE Report(l + 1, Violated(
             << << e.ok => ok, "request should be refused" >>, << ok => e.ok, "request should be granted" >> >>
             \o [j \in DOMAIN ProjectOrder |-> << Same(ProjectOrder[j], t[ProjectOrder[j]], e.s[ProjectOrder[j]]),
                                                  "setting " \o ProjectOrder[j] >>]))

Fn(reqs) == [k \in {reqs[j][1] : j \in DOMAIN reqs} |-> (CHOOSE j \in DOMAIN reqs : reqs[j][1] = k)]
Func(reqs) == LET f == Fn(reqs) IN [k \in DOMAIN f |-> reqs[f[k]][2]]

\* What a report must state about the analysis it comes from.
Stated(o, s) ==
  << << o.prime = s.prime, "kind of products" >>, << o.algorithm = s.algorithm, "algorithm" >>,
     << REq(RDec(o.limit), RDec(s.limit)), "order limit" >>,
     << o.probability = s.probability, "probability analysis" >>,
     << ~s.probability \/ o.approximation = s.approximation, "approximation" >>,
     << ~s.probability \/ RClose(RDec(o.mission), RDec(s.mission), "1e-5", RZero), "mission time" >>,
     << ~s.probability \/ RClose(RDec(o.step), RDec(s.step), "1e-5", RZero), "time step" >>,
     << o.importance = s.importance, "importance analysis" >>, << o.uncertainty = s.uncertainty, "uncertainty analysis" >>,
     << ~s.uncertainty \/ REq(RDec(o.trials), RDec(s.trials)), "number of trials" >>,
     << ~s.uncertainty \/ REq(RDec(o.seed), RDec(s.seed)), "seed" >>,
     << o.ccf = s.ccf, "common-cause analysis" >>, << o.sil = s.sil, "safety integrity levels" >> >>
\* What its results must be.
Enforced(o, s, tops, M) ==
  LET r == tops[1] N == M.N
      H == GateFns(M, M.H)
      f == H[o.top]
      all == IF s.prime THEN PrimeImplicants(f, N) ELSE {<< p, 0 >> : p \in MCS(f, N)}
      want == {t \in all : RLe(RInt(Order(t, N)), RDec(s.limit))}
      got == {<< r.prods[j].c[1], r.prods[j].c[2] >> : j \in DOMAIN r.prods}
      cubes == [j \in DOMAIN r.prods |-> << r.prods[j].c[1], r.prods[j].c[2] >>]
      P == Probs(M, RDec(s.mission))
  IN << << Len(tops) = 1, "one top event" >>,
        << o.ccfevents = (s.ccf /\ ~REq(RDec(s.limit), RZero)), "common-cause events in products" >>,
        << s.ccf \/ got = want, "products" >>,
        << o.rprobability = s.probability, "probability given" >>,
        << s.ccf \/ ~s.probability \/ Near(r.p, Total(s.approximation, f, cubes, N, P), "1e-12"), "probability" >>,
        << o.rimportance = s.importance, "importance factors given" >>,
        << o.rmeasure = s.uncertainty, "uncertainty measure given" >>,
        << ~s.uncertainty \/ (REq(RInt(o.quantiles), RDec(s.quantiles)) /\ REq(RInt(o.bins), RDec(s.bins))), "quantiles and bins" >>,
        << IF s.probability /\ ~REq(RDec(s.step), RZero)
           THEN o.points - Len(Times(RDec(s.mission), RDec(s.step))) \in {0, 1} ELSE o.points = 0, "points of the curve" >>,
        << o.rsil = s.sil, "SIL given" >> >>

SLoad == Trace[l + 1].e = "sload" /\ cur' = [m |-> Trace[l + 1].m]
SCli ==
  LET e == Trace[l + 1]
      eff == Effective(Func(e.p), Func(e.c))
      good == ~e.bad /\ eff.ok
      base == << << e.rc \in {0, 1}, "ends with a result or an error" >>,
                 << e.rc # 0 \/ good, "contradictory or out-of-range settings accepted" >>,
                 << e.rc # 1 \/ ~good, "legal settings rejected" >>,
                 << e.rc # 1 \/ (e.err # "" /\ ~e.out), "a refused run is explained and gives no result" >>,
                 << e.rc # 0 \/ e.out = ~e.validate, "report written" >> >>
  IN /\ e.e = "cli"
     /\ UNCHANGED cur
     /\ Report(l + 1, Violated(base \o (IF e.rc # 0 \/ ~good \/ e.validate \/ ~e.out THEN << >>
                                        ELSE Stated(e.obs, eff.s) \o Enforced(e.obs, eff.s, e.tops, cur.m))))

SNext == l < TraceLen /\ (SReset \/ SSet \/ SLoad \/ SCli) /\ l' = l + 1 /\ Done(l + 1)
SSpec == Init /\ [][SNext]_vars
=============================================================================
