------------------------------- MODULE FtTrace ------------------------------
(* Conformance of recorded product analyses with FaultTree.tla.
   Events: load (a model, with the list of gates whose products will be reported) and
   analyze (an analysis of the loaded model with an algorithm and limit, with what was reported). *)
EXTENDS Products, TraceBase

VARIABLES l,     \* number of consumed events
          cur    \* what the loaded model means: N, roots, and per root its MCS and prime implicants
vars == << l, cur >>

Init == l = 0 /\ cur = << >>

Load ==
  LET e == Trace[l + 1] IN
  /\ e.e = "load"
  /\ LET fns == GateFns(e.m, e.m.H)
         tops == Roots(e.m)
     IN cur' = [N |-> e.m.N, tops |-> tops,
                mcs |-> [t \in tops |-> {<<p, 0>> : p \in MCS(fns[t], e.m.N)}],
                pi  |-> [t \in tops |-> IF e.pi THEN PrimeImplicants(fns[t], e.m.N) ELSE {}]]

Analyze ==
  LET e == Trace[l + 1] IN
  /\ e.e = "analyze"
  /\ UNCHANGED cur
  /\ LET tops == {e.tops[j].g : j \in DOMAIN e.tops}
         exp(t) == {c \in (IF e.pi THEN cur.pi[t] ELSE cur.mcs[t]) : Order(c, cur.N) <= e.lim}
         why == IF e.rc # 0 THEN << "exit status" >>
                ELSE IF tops # cur.tops \/ Len(e.tops) # Cardinality(tops) THEN << "set of top events" >>
                ELSE Violated(FoldLeft(LAMBDA acc, r : acc \o ListConds(r, exp(r.g), cur.N), << >>, e.tops))
     IN Report(l + 1, why)

Next == l < TraceLen /\ (Load \/ Analyze) /\ l' = l + 1 /\ Done(l + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
