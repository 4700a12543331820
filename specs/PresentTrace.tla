---------------------------- MODULE PresentTrace ----------------------------
(* Conformance of analyses of one model in many presentations: every presentation is a valid rewriting of the model
   (Present.tla), and a question (limit, approximation, kind of products) has one answer, whatever the algorithm and
   presentation.  Events: base (a model), present (a presentation), run (an analysis). *)
EXTENDS Present, Rat, TraceBase

VARIABLES l, cur, ref    \* ref: the answers so far, a sequence of [q, alg, tops]
vars == << l, cur, ref >>
Init == l = 0 /\ cur = << >> /\ ref = << >>
Ev == Trace[l + 1]

Base == /\ Ev.e = "base"
        /\ cur' = Ev
        /\ ref' = << >>

Pres == /\ Ev.e = "present"
        /\ UNCHANGED << cur, ref >>
        /\ Report(l + 1, Violated([j \in DOMAIN Ev.rw |-> << Valid(Ev.rw[j], cur.N, cur.G), "the harness rewrote gate " \o ToString(Ev.rw[j].g) \o " wrongly" >>]))
        /\ (Ev.rw # << >> => PrintT("@SEEN " \o ToJson([rewritten |-> 1])))

Num(x) == x # "?"
Near(a, b, rel, abs) ==
  IF Num(a) /\ Num(b)
  THEN LET x == RDec(a) y == RDec(b)
       IN RLe(RAbs(RSub(x, y)), RMax(RDec(abs), RMul(RDec(rel), RMax(RAbs(x), RAbs(y)))))
  ELSE a = b

\* CIF, DIF, RAW and RRW of an event; the last grows without bound as CIF approaches 1
SameQuotients(a, b) ==
  /\ Near(a[4], b[4], "0.00001", "0.0000001")
  /\ Near(a[5], b[5], "0.00001", "0.0000001")
  /\ Near(a[6], b[6], "0.00001", "0.0000001")
  /\ \/ Near(a[7], b[7], "0.00001", "0.0000001")
     \/ Num(a[4]) /\ RLe(RDec("0.99"), RDec(a[4]))
     \/ ~Num(a[4])

\* The probability of a top event is known to about 1e-13, which its quotients magnify.
SameFactors(a, b, tiny) ==
  /\ a[1] = b[1] /\ a[2] = b[2]
  /\ Near(a[3], b[3], "0.00001", "0.0000000001")
  /\ tiny \/ SameQuotients(a, b)

Same(x, y, exact) ==       \* two answers for one top event
  LET s == "gate " \o ToString(x.g) \o ": " IN
  << << x.np = y.np, s \o "number of products" >>,
     << x.ne = y.ne, s \o "number of events" >>,
     << x.dist = y.dist, s \o "distribution" >>,
     << x.dig = y.dig, s \o "products" >>,
     << Near(x.p, y.p, "0.00001", IF exact THEN "1e-13" ELSE "0"), s \o "probability" >>,
     << [j \in DOMAIN x.imp |-> x.imp[j][1]] = [j \in DOMAIN y.imp |-> y.imp[j][1]], s \o "events with importance" >>,
     << Len(x.imp) = Len(y.imp) => \A j \in DOMAIN x.imp : SameFactors(x.imp[j], y.imp[j], exact /\ Num(x.p) /\ RLt(RDec(x.p), RDec("1e-7"))), s \o "importance factors" >> >>

Products(x) ==      \* the products shown are minimal cut sets
  [j \in DOMAIN x.some |->
     << (\A v \in Range(x.some[j]) : v > 0) /\ IsMcs(cur.G, cur.N, cur.coherent, x.g, Range(x.some[j])),
        "gate " \o ToString(x.g) \o ": not a minimal cut set: " \o ToString(x.some[j]) >>]

Run ==
  /\ Ev.e = "run"
  /\ UNCHANGED cur
  /\ LET tops == {Ev.tops[j].g : j \in DOMAIN Ev.tops}
         old == {j \in DOMAIN ref : ref[j].q = Ev.q}
         at(s, g) == CHOOSE j \in DOMAIN s : s[j].g = g
         slow == Ev.rc = -14
         why == IF slow THEN << >>
                ELSE IF Ev.rc # 0 THEN << "exit status" >>
                ELSE IF tops # Range(cur.roots) \/ Len(Ev.tops) # Cardinality(tops) THEN << "set of top events" >>
                ELSE Violated(FoldLeft(LAMBDA s, x : s \o Products(x), << >>, Ev.tops)
                       \o (IF old = {} THEN << >>
                           ELSE LET o == ref[CHOOSE j \in old : TRUE]
                                IN FoldLeft(LAMBDA s, x : s \o Same(o.tops[at(o.tops, x.g)], x, Ev.exact), << >>, Ev.tops)))
     IN /\ Report(l + 1, why)
        /\ ref' = IF old = {} /\ ~slow /\ Ev.rc = 0 /\ why = << >> THEN Append(ref, [q |-> Ev.q, tops |-> Ev.tops]) ELSE ref
        /\ PrintT("@SEEN " \o ToJson(IF slow THEN [slow |-> 1, first |-> 0, compared |-> 0] ELSE IF old = {} THEN [slow |-> 0, first |-> 1, compared |-> 0] ELSE [slow |-> 0, first |-> 0, compared |-> 1]))

\* Sources of every construct: a result has a kind t, an identification id, a digest d of its content without numbers, and
\* the sequence n of its numbers.
Whole == /\ Ev.e = "whole"
         /\ cur' = Ev
         /\ ref' = << >>

Result ==
  /\ Ev.e = "result"
  /\ UNCHANGED cur
  /\ LET old == {j \in DOMAIN ref : ref[j].q = Ev.q}
         o == ref[CHOOSE j \in old : TRUE]
         n == IF Len(Ev.res) < Len(o.res) THEN Len(Ev.res) ELSE Len(o.res)
         differ(x, y) == x.d # y.d \/ Len(x.n) # Len(y.n) \/ \E k \in DOMAIN x.n : ~Near(x.n[k], y.n[k], "0.00001", "0.0000001")
         bad == {j \in 1 .. n : differ(Ev.res[j], o.res[j])}
         why == IF old = {} THEN << >>
                ELSE IF Ev.rc # o.rc THEN << "exit status" >>
                ELSE IF [j \in DOMAIN Ev.res |-> << Ev.res[j].t, Ev.res[j].id >>] # [j \in DOMAIN o.res |-> << o.res[j].t, o.res[j].id >>]
                     THEN << "results present" >>
                ELSE IF bad # {} THEN << "changed results " \o ToString({<< Ev.res[j].t, Ev.res[j].id >> : j \in bad}) >>
                ELSE << >>
     IN /\ Report(l + 1, why)
        /\ ref' = IF old = {} THEN Append(ref, [q |-> Ev.q, rc |-> Ev.rc, res |-> Ev.res]) ELSE ref
        /\ PrintT("@SEEN " \o ToJson(IF old = {} THEN [first |-> 1, compared |-> 0, results |-> Len(Ev.res)] ELSE [first |-> 0, compared |-> 1, results |-> Len(Ev.res)]))

Next == l < TraceLen /\ (Base \/ Pres \/ Run \/ Whole \/ Result) /\ l' = l + 1 /\ Done(l + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
