------------------------------- MODULE GenTrace -------------------------------
(* Conformance of recorded runs of the generator with Generator.tla.  Events: par (parameters p), run (what: plain, again with the
   same parameters in another process, nest, aralia; rc, tb: ended by a traceback, out: a model was written, sha: digest of what was written, m:
   the model, ok: exit status of scram --validate, head and sum: the comments of the file). *)
EXTENDS Generator, TraceBase

VARIABLES l, cur, first
vars == << l, cur, first >>
Init == l = 0 /\ cur = << >> /\ first = << >>

Par == Trace[l + 1].e = "par" /\ cur' = Trace[l + 1] /\ first' = << >>

Shape(p, m, nested) == Violated(<<
  << m.odd = << >>, "something else is in the file" >>,
  << m.ft = p.ft, "name of the fault tree" >>,
  << Named(m), "names" >>,
  << Refers(m), "references" >>,
  << Sorted(m), "cycle, or gates not in topological order" >>,
  << OneTop(m, p.root), "single top event" >>,
  << Formulas(m), "formulas" >>,
  << Connectives(p, m), "connectives" >>,
  << Probabilities(p, m), "probabilities" >>,
  << Groups(m), "CCF groups" >>,
  << Cardinality(BasicNames(m)) = N(p.b), "number of basic events" >>,
  << Len(m.house) = N(p.h), "number of house events" >>,
  << Len(m.ccf) = N(p.c), "number of CCF groups" >>,
  << nested \/ N(p.g) = 0 \/ Len(m.gates) = N(p.g), "number of gates" >> >>)
\* the figures of parameters that are used as given
HeadOk(p, h) == /\ h.ft = p.ft /\ h.root = p.root
                /\ \A k \in {"b", "h", "c", "a", "minp", "maxp"} : Near(h[k], V(p[k]))
                /\ (N(p.g) = 0 => \A k \in {"cb", "cg", "pb", "pg"} : Near(h[k], V(p[k])))
                /\ Len(h.w) = 5 /\ \A i \in 1..5 : Near(h.w[i], Weight(p, i))
Extra(e, p) == Violated(<<
  << e.ok = 0, "scram rejects the model" >>,
  << HeadOk(p, e.head), "description of the parameters" >>,
  << SummaryOk(e.m, e.sum), "summary" >>,
  << OpCounts(e.m, e.sum), "summary of connectives" >>,
  << cur.kind # "big" \/ Mix(p, e.m), "mix of connectives" >>,
  << cur.kind # "big" \/ AverageArgs(p, e.m), "average number of arguments" >> >>)

Run ==
  LET e == Trace[l + 1]
      p == cur.p
  IN
  /\ e.e = "run"
  /\ UNCHANGED cur
  /\ first' = IF e.what = "plain" THEN e ELSE first
  /\ Report(l + 1,
       IF e.rc = -1 THEN << "the generator does not end" >>
       ELSE IF e.rc # 0 THEN Violated(<< << ~Admissible(p) \/ Undecided(p), "admissible parameters are rejected" >>,
                                         << e.rc \in {1, 2} /\ ~e.tb, "the generator fails" >>,
                                         << ~e.out, "a model in spite of an error" >> >>)
       ELSE IF ~Admissible(p) /\ ~Undecided(p) THEN << "inadmissible parameters are accepted" >>
       ELSE CASE e.what = "plain" -> LET s == Shape(p, e.m, FALSE) IN IF s = << >> THEN Extra(e, p) ELSE s
              [] e.what = "again" -> Violated(<< << e.sha = first.sha, "another model for the same parameters" >> >>)
              [] e.what = "nest" -> LET s == Shape(p, e.m, TRUE) IN
                                    IF s = << >> THEN Violated(<< << e.ok = 0, "scram rejects the model" >>,
                                                                  << SameNested(first.m, e.m), "another model with nested formulas" >> >>) ELSE s
              [] e.what = "aralia" -> Violated(<< << e.m.odd = << >>, "something else is in the file" >>,
                                                  << SameAralia(first.m, e.m), "another model in the Aralia format" >> >>)
              [] OTHER -> << "?" >>)
Next == l < TraceLen /\ (Par \/ Run) /\ l' = l + 1 /\ Done(l')
Spec == Init /\ [][Next]_vars
===============================================================================
