--------------------------- MODULE ReadOnceTrace ----------------------------
(* Conformance of analyses of large read-once trees with ReadOnce.tla.  Events: load (a tree and the probabilities of its
   events) and run (an analysis of one of its presentations). *)
EXTENDS ReadOnce, TraceBase

VARIABLES l, cur
vars == << l, cur >>
Init == l = 0 /\ cur = << >>
Ev == Trace[l + 1]

Load == /\ Ev.e = "load"
        /\ cur' = Ev

Near(a, b, abs) == RClose(RDec(a), b, "1e-5", abs)
\* c: a product, a set of signed events
ProdP(c) == LET s == SetToSeq(c) IN RProd([j \in DOMAIN s |-> IF s[j] > 0 THEN cur.p[s[j]] ELSE RSub(ROne, cur.p[-s[j]])])
Events(S) == {IF v < 0 THEN -v ELSE v : v \in UNION S}
Total(e, prods) ==
  LET s == SetToSeq(prods) p == TLCEval([j \in DOMAIN s |-> ProdP(s[j])]) IN
  CASE e.ap = "exact" -> TreeProb(cur.N, cur.G, cur.p)
    [] e.ap = "rare-event" -> RMin(ROne, RSum(p))
    [] e.ap = "mcub" -> RSub(ROne, FoldLeft(LAMBDA acc, x : RRound(RMul(acc, RSub(ROne, x)), 60), ROne, p))
\* The marginal importance of an event of a tree.
Mif(i) == LET at(v) == TreeProb(cur.N, cur.G, [cur.p EXCEPT ![i] = v]) IN RSub(at(ROne), at(RZero))

Conds(e, prods) ==
  LET got == {Range(e.p[j]) : j \in DOMAIN e.p}
      size(k) == Cardinality({c \in prods : Cardinality(c) = k \/ (k = 1 /\ c = {})})
      top == IF prods = {} THEN 0 ELSE CHOOSE k \in 1 .. cur.N : size(k) > 0 /\ \A q \in k + 1 .. cur.N : size(q) = 0
  IN << << prods \subseteq got, "missing products" >>,
        << got \subseteq prods, "unexpected products" >>,
        << Len(e.p) = Cardinality(got), "repeated products" >>,
        << e.np = Cardinality(prods), "product count" >>,
        << e.ne = Cardinality(Events(prods)), "event count" >>,
        << e.dist = [k \in 1 .. top |-> size(k)], "distribution" >>,
        << e.warn = (IF {} \in prods THEN "The set is UNITY/Base." ELSE IF prods = {} THEN "The set is NULL/Empty." ELSE ""), "unity/null warning" >>,
        << e.ap = "-" \/ (e.total # "?" /\ Near(e.total, Total(e, prods), "1e-12")), "total probability" >>,
        << \A j \in DOMAIN e.pp : e.pp[j].p # "?" /\ Near(e.pp[j].p, ProdP(Range(e.p[e.pp[j].i])), "1e-14"), "product probability" >>,
        << e.imp = << >> \/ {e.imp[j].v : j \in DOMAIN e.imp} = Events(prods), "events with importance" >>,
        << \A j \in DOMAIN e.imp : e.imp[j].n = Cardinality({c \in prods : e.imp[j].v \in c \/ -e.imp[j].v \in c}), "occurrence" >>,
        << \A j \in DOMAIN e.imp : e.imp[j].m = "" \/ Near(e.imp[j].m, Mif(e.imp[j].v), "1e-12"), "marginal importance" >> >>

Run ==
  /\ Ev.e = "run"
  /\ UNCHANGED cur
  /\ \E prods \in {IF Ev.rc # 0 THEN {} ELSE IF Ev.pi THEN TreePrimes(cur.N, cur.G, Ev.lim) ELSE TreeCuts(cur.N, cur.G, Ev.lim)} :
       /\ Report(l + 1, IF Ev.rc = -14 THEN << >> ELSE IF Ev.rc # 0 THEN << "exit status" >> ELSE Violated(Conds(Ev, prods)))
       /\ PrintT("@SEEN " \o ToJson([products |-> Cardinality(prods), large |-> IF Cardinality(prods) > 100 THEN 1 ELSE 0,
                                     late |-> IF Ev.rc = -14 THEN 1 ELSE 0, truncated |-> IF Ev.lim < 90 THEN 1 ELSE 0]))

Next == l < TraceLen /\ (Load \/ Run) /\ l' = l + 1 /\ Done(l + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
