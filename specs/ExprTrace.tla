----------------------------- MODULE ExprTrace ------------------------------
(* Conformance of accepted models and evaluated expressions with ExprDomain.tla.
   Event: [e |-> "model", m: [P: event expressions, par: parameter definitions], mt, rc, err, p: reported event probabilities]. *)
EXTENDS ExprDomain, TraceBase, FiniteSets

VARIABLES l, seen
Init == l = 0 /\ seen = [T |-> 0, F |-> 0, U |-> 0, values |-> 0]

Conds(e, a) ==
  << << e.rc \in {0, 1}, "ends with a result or an error" >>,
     << a.st # "T" \/ e.rc # 1, "valid model rejected" >>,
     << a.st # "F" \/ e.rc # 0, "invalid model analysed" >>,
     << e.rc # 1 \/ (e.err /\ ~e.out), "a rejected model is explained and gives no result" >>,
     << e.rc # 0 \/ Len(e.p) = Len(a.p), "every event reported" >>,
     << e.rc # 0 \/ Len(e.p) # Len(a.p) \/ \A i \in DOMAIN a.p :
           a.p[i].st # "T" \/ (e.p[i] # "" /\ RClose(RDec(e.p[i]), a.p[i].v, "6e-6", "2e-15")), "value of an expression" >> >>

Step ==
  /\ l < TraceLen
  /\ LET e == Trace[l + 1] IN \E a \in {AnalyseModel(e.m, RDec(e.mt))} :
        /\ Report(l + 1, Violated(Conds(e, a)))
        /\ seen' = [seen EXCEPT ![a.st] = @ + 1, !.values = @ + (IF e.rc = 0 THEN Cardinality({i \in DOMAIN a.p : a.p[i].st = "T"}) ELSE 0)]
  /\ l' = l + 1
  /\ (l' = TraceLen => PrintT("@SEEN " \o ToJson(seen'))) /\ Done(l')
Next == Step
Spec == Init /\ [][Next]_<< l, seen >>
=============================================================================
