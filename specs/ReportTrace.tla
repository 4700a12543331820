---------------------------- MODULE ReportTrace -----------------------------
(* Conformance of reports with Report.tla.  Events: load (a source; nm, the name of the model) and report (req: the
   settings requested; rc; r: the report as a tree, with w: the parsed warnings; same: digests of the report however it
   was written, without times; flat: the report written without indentation has none). *)
EXTENDS Report, TraceBase

Pattern == JsonDeserialize(IOEnv.SCHEMA)

VARIABLES l, cur, seen
vars == << l, cur, seen >>
Init == l = 0 /\ cur = << >> /\ seen = [x \in {} |-> 0]

Load ==
  LET e == Trace[l + 1] IN
  /\ e.e = "load"
  /\ \E E \in {Elements(e.m)} : \E b \in {Problems(e.m, E)} : cur' = [m |-> e.m, E |-> E, bad |-> b, nm |-> e.nm]
  /\ UNCHANGED seen

Func(reqs) == [k \in {reqs[j][1] : j \in DOMAIN reqs} |-> LET q == SelectSeq(reqs, LAMBDA x : x[1] = k) IN q[1][2]]
\* Plain fault trees: the products themselves.
Products_(s, r) ==
  LET m == cur.m E == cur.E
      B == Basics(E)
      N == Len(B)
      F == GateMeaning(E)
      sums == IF HasKid(r, "results") THEN Kids(Kid(r, "results"), "sum-of-products") ELSE << >>
      of(g) == SelectSeq(sums, LAMBDA x : Att(x, "name") = E[g].id)
      lit(y) == IF y.t = "not" THEN << "-", Att(y.c[1], "name") >> ELSE << "+", Att(y, "name") >>
      ids(v) == {E[B[i]].id : i \in Vars(v, N)}
      want(g) == IF s.prime THEN {{<< "+", i >> : i \in ids(t[1])} \cup {<< "-", i >> : i \in ids(t[2])} : t \in PrimeImplicants(F[g], N)}
                 ELSE {{<< "+", i >> : i \in ids(q)} : q \in MCS(F[g], N)}
  IN \A g \in TopGates(m, E) : \A x \in Range(of(g)) :
       {{lit(y) : y \in Range(p.c)} : p \in Range(x.c)} = {q \in want(g) : RLe(RInt(IF q = {} THEN 1 ELSE Cardinality(q)), RDec(s.limit))}

Checked ==
  LET e == Trace[l + 1] IN
  /\ e.e = "report"
  /\ UNCHANGED cur
  /\ \E run \in {Run(Default, Ordered(Func(e.req), CommandOrder))} :
     LET s == run.s
         o == [prob |-> s.probability, exact |-> s.approximation = "none", ccf |-> s.ccf]
         ok == run.ok /\ cur.bad = {} /\ OptionProblems(cur.m, cur.E, o) = {}
         plain == ~s.ccf /\ cur.m.sub = << >> /\ cur.m.al = << >> /\ \A j \in DOMAIN cur.m.ie : cur.m.ie[j].t = ""
         why == IF ~ok THEN (IF e.rc = 0 THEN << "an ill-formed model is analysed" >> ELSE << >>)
                ELSE IF e.rc # 0 THEN << "no report" >>
                ELSE Violated(<< << Valid(Pattern, e.r), "report schema" >>,
                                 << Cardinality(Range(e.same)) = 1, "formatting changes the report" >>,
                                 << e.flat, "indentation" >> >>
                              \o Stated(cur.m, cur.E, s, cur.nm, e.r)
                              \o << << ~plain \/ Products_(s, e.r), "products" >> >>)
         kinds == (IF ok THEN {"report"} ELSE {"refused"}) \cup {k \in Flags : ok /\ s[k]} \cup (IF ok THEN {"algorithm " \o s.algorithm} ELSE {})
                  \cup (IF ok THEN {"warning: " \o w[1] : w \in {<< x.h >> : x \in {y \in Range(e.r.w) : y.g}}} ELSE {})
                  \cup (IF ok /\ plain THEN {"products compared"} ELSE {})
     IN /\ Report(l + 1, why)
        /\ seen' = [x \in DOMAIN seen \cup kinds |-> (IF x \in DOMAIN seen THEN seen[x] ELSE 0) + (IF x \in kinds THEN 1 ELSE 0)]

Next == l < TraceLen /\ (Load \/ Checked) /\ l' = l + 1 /\ (l' = TraceLen => PrintT("@SEEN " \o ToJson(seen'))) /\ Done(l')
Spec == Init /\ [][Next]_vars
=============================================================================
