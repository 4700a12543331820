----------------------------- MODULE SourceTrace -----------------------------
(* Conformance of recorded runs on sources with Source.tla.  Events: load (a source) and
   run (the program on one presentation of the loaded source: option o, mode "validate" or "analyze", exit status and,
   for sources without event trees, the reported results). *)
EXTENDS Source, TraceBase

VARIABLES l, cur, seen
vars == << l, cur, seen >>
Init == l = 0 /\ cur = << >> /\ seen = [x \in {} |-> 0]

Load ==
  LET e == Trace[l + 1] IN
  /\ e.e = "load"
  /\ \E E \in {Elements(e.m)} : \E b \in {Problems(e.m, E)} : cur' = [m |-> e.m, E |-> E, bad |-> b]
  /\ UNCHANGED seen

Results(e) ==
  LET E == cur.E
      B == Basics(E)
      N == Len(B)
      tops == TopGates(cur.m, E)
      F == GateMeaning(E)
      res(i) == LET q == {j \in DOMAIN e.res : e.res[j].id = E[i].id} IN IF Cardinality(q) = 1 THEN CHOOSE j \in q : TRUE ELSE 0
      p(v) == Value(E, E[B[v]].e, E[B[v]].b)
      idset(q) == {E[B[v]].id : v \in Vars(q, N)}
  IN IF {e.res[j].id : j \in DOMAIN e.res} # {E[i].id : i \in tops} \/ Len(e.res) # Cardinality(tops) THEN << "set of top events" >>
     ELSE FoldLeft(LAMBDA acc, i :
        LET r == e.res[res(i)]
            want == MCS(F[i], N)
        IN acc \o Violated(<<
          << {Range(r.p[j].ids) : j \in DOMAIN r.p} = {idset(q) : q \in want} /\ Len(r.p) = Cardinality(want), "products" >>,
          << ~e.o.prob \/ \A j \in DOMAIN r.p : \A q \in want : Range(r.p[j].ids) = idset(q) /\ r.p[j].p # "" =>
               RClose(RDec(r.p[j].p), RProd([v \in 1 .. Cardinality(Vars(q, N)) |-> p(SetToSeq(Vars(q, N))[v])]), "1/100000", RZero),
             "probabilities" >> >>), << >>, SetToSeq(tops))

Run ==
  LET e == Trace[l + 1] IN
  /\ e.e = "run"
  /\ UNCHANGED cur
  /\ \E bad \in {IF e.broken # "" THEN {"invalid file: " \o e.broken} ELSE IF cur.bad # {} THEN cur.bad ELSE OptionProblems(cur.m, cur.E, e.o)} :
     LET why == Violated(<< << e.rc \in {0, 1}, "exit status" >>,
                            << bad = {} => e.rc = 0, "a well-formed model is rejected" >>,
                            << bad # {} => e.rc # 0, "an ill-formed model is accepted" >>,
                            << e.rc = 1 => e.msg, "no error message" >>,
                            << e.rc = 1 /\ e.broken = "" /\ cur.bad # {} => e.said.cls \in {ClassOf(k) : k \in bad} \cup {"ValidityError"}, "kind of the error" >>,
                            << e.rc = 1 /\ e.broken = "" /\ cur.bad # {} => ErrorTrue(cur.m, cur.E, e.said), "what the error says" >>,
                            << e.rc # 0 => ~e.out, "a report in spite of the error" >> >>)
                \o (IF bad = {} /\ e.rc = 0 /\ e.judge THEN Results(e) ELSE << >>)
         kinds == (IF bad = {} THEN {"well formed"} ELSE bad) \cup (IF Cardinality(bad) = 1 THEN {(CHOOSE b \in bad : TRUE) \o " -> " \o e.said.cls} ELSE {})
     IN /\ Report(l + 1, why)
        /\ seen' = [x \in DOMAIN seen \cup kinds |-> (IF x \in DOMAIN seen THEN seen[x] ELSE 0) + (IF x \in kinds THEN 1 ELSE 0)]

Next == l < TraceLen /\ (Load \/ Run) /\ l' = l + 1 /\ (l' = TraceLen => PrintT("@SEEN " \o ToJson(seen'))) /\ Done(l')
Spec == Init /\ [][Next]_vars
=============================================================================
