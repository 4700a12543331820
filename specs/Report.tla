------------------------------- MODULE Report -------------------------------
(* What a report must say about a well-formed source (Source.tla) analysed with settings s (Settings.tla): the
   inventory, the elements left unused, the analyses, the results present and their bookkeeping.
   A report is an XML tree as in Schema.tla. *)
EXTENDS Source, Settings, Schema

LOCAL Rng(s) == {s[j] : j \in DOMAIN s}
Kids(x, t) == SelectSeq(x.c, LAMBDA y : y.t = t)
Kid(x, t) == LET q == Kids(x, t) IN q[1]
HasKid(x, t) == Kids(x, t) # << >>
HasAtt(x, n) == \E j \in DOMAIN x.a : x.a[j].n = n
Att(x, n) == IF HasAtt(x, n) THEN x.a[CHOOSE j \in DOMAIN x.a : x.a[j].n = n].v ELSE ""
Counted(q) == ToString(Len(q))
Count(q) == ToString(Cardinality(q))

\* ---- inventory -----------------------------------------------------------------------------------------
Inventory(m, E) ==
  LET n(k) == Cardinality({i \in DOMAIN E : E[i].k = k})
      all == << << "gates", n("gate") >>, << "basic-events", n("basic") >>, << "house-events", n("house") >>, << "ccf-groups", n("ccf") >>,
                << "fault-trees", Cardinality({b \in Rng(m.box) : b.up = ""}) >>, << "event-trees", Len(m.et) >>,
                << "functional-events", FoldLeft(LAMBDA a, t : a + Len(t.fe), 0, m.et) >>, << "sequences", Len(Sequences_(m)) >>,
                << "rules", Len(m.rule) >>, << "initiating-events", Len(m.ie) >>, << "substitutions", Len(m.sub) >> >>
      some == SelectSeq(all, LAMBDA q : q[2] > 0)
  IN {<< q[1], ToString(q[2]) >> : q \in Rng(some)}

\* ---- elements left unused ------------------------------------------------------------------------------
\* An element is used when something refers to it.
TreeInstructions(m) ==
  UNION ({Rng(Inside(b.ins)) : b \in UNION {Rng(TreeBranches(t)) : t \in Rng(m.et)}}
         \cup {Rng(Inside(q.ins)) : q \in Rng(Sequences_(m)) \cup Rng(m.rule)})
UsedEvents(m, E) ==
  UNION ({ArgsOf(E, E[i].d.f, E[i].b) : i \in {j \in DOMAIN E : E[j].k = "gate"}}
         \cup {ArgsOf(E, i.f, "") : i \in {j \in TreeInstructions(m) : j.k = "cf"}}
         \cup {ArgsOf(E, q.h, "") \cup {Arg(E, q.tgt, "")} \cup {Resolve(E, "basic-event", q.src[j], "") : j \in DOMAIN q.src} : q \in Rng(m.sub)})
UsedParams(m, E) ==
  LET at(x, b) == {Resolve(E, "parameter", q.r, b) : q \in Rng(ParamRefs(x))}
  IN UNION ({at(E[i].e, E[i].b) : i \in {j \in DOMAIN E : E[j].k \in {"basic", "param", "ccf"}}}
            \cup {at(E[i].d.fac, E[i].b) : i \in {j \in DOMAIN E : E[j].k = "ccf"}}
            \cup {at(i.x, "") : i \in {j \in TreeInstructions(m) : j.k \in {"ce", "if"}}})
Unused(m, E) ==
  LET ids(k, used) == {E[i].id : i \in {j \in DOMAIN E : E[j].k = k} \ used}
      ins == TreeInstructions(m)
      named(k) == {i.n : i \in {j \in ins : j.k = k}}
      tgt(t, k) == {b.t.n : b \in {x \in Rng(TreeBranches(t)) : x.t.k = k}}
      all == << << "Unused basic events", ids("basic", UsedEvents(m, E)) >>, << "Unused house events", ids("house", UsedEvents(m, E)) >>,
                << "Unused parameters", ids("param", UsedParams(m, E)) >>,
                << "Unused initiating events", {i.n : i \in {j \in Rng(m.ie) : j.t = ""}} >>,
                << "Unused event trees", {t.n : t \in Rng(m.et)} \ (named("link") \cup {i.t : i \in Rng(m.ie)}) >>,
                << "Unused sequences", {q.n : q \in Rng(Sequences_(m))} \ UNION {tgt(t, "seq") : t \in Rng(m.et)} >>,
                << "Unused rules", {q.n : q \in Rng(m.rule)} \ named("rule") >> >>
             \o Flatten([j \in DOMAIN m.et |->
                  << << "In event tree " \o m.et[j].n \o ", unused branches", {b.n : b \in Rng(m.et[j].br)} \ tgt(m.et[j], "branch") >>,
                     << "In event tree " \o m.et[j].n \o ", unused functional events", Rng(m.et[j].fe) \ tgt(m.et[j], "fork") >> >>])
  IN {q \in Rng(all) : q[2] # {}}

\* ---- analyses ------------------------------------------------------------------------------------------
AlgorithmName(a) == CASE a = "bdd" -> "Binary Decision Diagram" [] a = "zbdd" -> "Zero-Suppressed Binary Decision Diagram" [] a = "mocus" -> "MOCUS"
MethodName(a) == CASE a = "none" -> "Binary Decision Diagram" [] a = "rare-event" -> "Rare-Event Approximation" [] a = "mcub" -> "MCUB Approximation"
\* [name, approximation, method, limits: sequence of <<name, value>>]
Analyses(s) ==
  LET q(on, n, ap, me, li) == IF on THEN << [n |-> n, ap |-> ap, me |-> me, li |-> li] >> ELSE << >>
      zero(v) == REq(RDec(v), RZero)
  IN q(TRUE, IF s.prime THEN "Prime Implicants" ELSE "Minimal Cut Sets", "", AlgorithmName(s.algorithm), << << "product-order", s.limit >> >>)
     \o q(s.ccf, "Common Cause Failure Analysis", "", "", << >>)
     \o q(s.probability, "Probability Analysis", s.approximation, MethodName(s.approximation),
          << << "mission-time", s.mission >> >> \o (IF zero(s.step) THEN << >> ELSE << << "time-step", s.step >> >>))
     \o q(s.sil, "Safety Integrity Levels", "", "", << >>)
     \o q(s.importance, "Importance Analysis", "", "", << >>)
     \o q(s.uncertainty, "Uncertainty Analysis", "", "Monte Carlo", << << "number-of-trials", s.trials >>, << "seed", s.seed >> >>)
SameAnalysis(x, q) ==
  /\ Att(x, "name") = q.n
  /\ Att(x, "approximation") = q.ap
  /\ IF q.me = "" THEN x.c = << >>
     ELSE /\ Len(x.c) = 1 /\ Att(x.c[1], "name") = q.me /\ Len(x.c[1].c) = 1
          /\ LET li == x.c[1].c[1].c
             IN /\ [j \in DOMAIN li |-> li[j].t] = [j \in DOMAIN q.li |-> q.li[j][1]]
                /\ \A j \in DOMAIN li : RClose(RDec(li[j].x), RDec(q.li[j][2]), "1e-5", RZero)

\* ---- results -------------------------------------------------------------------------------------------
\* Executing instructions (conditions are constant): the simple instructions executed, in order.
Executed(m, E, ins) ==
  LET RECURSIVE go(_)
      go(is) == Flatten([j \in DOMAIN is |->
        LET i == is[j]
        IN CASE i.k = "if" -> IF REq(Value(E, i.x, ""), RZero) THEN go(i.e) ELSE go(i.t)
             [] i.k = "block" -> go(i.is)
             [] i.k = "rule" -> go((CHOOSE q \in Rng(m.rule) : q.n = i.n).ins)
             [] OTHER -> << i >>])
  IN go(ins)
\* The sequences a path through branch b of tree t can end in: pairs <<sequence, expressions have been collected>>.
Ends(m, E, t0) ==
  LET RECURSIVE from(_, _, _)
      collects(ins) == \E j \in DOMAIN ins : ins[j].k = "ce"
      from(t, b, x) ==
        LET ex == Executed(m, E, b.ins)
            y == x \/ collects(ex)
        IN CASE b.t.k = "fork" -> UNION {from(t, b.t.ps[j].b, y) : j \in DOMAIN b.t.ps}
             [] b.t.k = "branch" -> from(t, BranchNamed(t, b.t.n), y)
             [] b.t.k = "seq" ->
                  LET is == Executed(m, E, SequenceNamed(m, b.t.n).ins)
                      links == {j \in DOMAIN is : is[j].k = "link"}
                  IN IF links = {} THEN {<< b.t.n, y \/ collects(is) >>}
                     ELSE UNION {LET u == TreeNamed(m, is[j].n) IN from(u, u.init, y \/ collects(SubSeq(is, 1, j))) : j \in links}
  IN from(t0, t0.init, FALSE)

Contexts(m) == IF m.al = << >> THEN {<< "", "" >>} ELSE UNION {{<< a.n, p.n >> : p \in Rng(a.ph)} : a \in Rng(m.al)}
\* All results: [n: name, ie: initiating event or "", al, ph, fta: products are given].
Results_(m, E) ==
  {[n |-> E[g].id, ie |-> "", al |-> c[1], ph |-> c[2], fta |-> TRUE] : g \in TopGates(m, E), c \in Contexts(m)}
  \cup UNION {LET ends == Ends(m, E, TreeNamed(m, i.t))
              IN {[n |-> q, ie |-> i.n, al |-> c[1], ph |-> c[2], fta |-> << q, TRUE >> \notin ends] : q \in {x[1] : x \in ends}, c \in Contexts(m)}
              : i \in {j \in Rng(m.ie) : j.t # ""}}
IdOf(x) == << Att(x, "name"), Att(x, "initiating-event"), Att(x, "alignment"), Att(x, "phase") >>
Key(q) == << q.n, q.ie, q.al, q.ph >>
Once(q, keys) == {IdOf(x) : x \in Rng(q)} = keys /\ Len(q) = Cardinality(keys)

\* A literal in a product: << complemented, event >>, the event named by its attributes and the members it stands for.
Literal(x) == IF x.t = "not" THEN << TRUE, x.c[1] >> ELSE << FALSE, x >>
EventName(x) == IF x.t = "basic-event" THEN << Att(x, "name") >> ELSE << "", Att(x, "ccf-group"), {Att(y, "name") : y \in Rng(x.c)} >>
EventKnown(m, E, ccf, x) ==
  IF x.t = "basic-event" THEN \E i \in DOMAIN E : E[i].k = "basic" /\ E[i].id = Att(x, "name") /\ (ccf => E[i].d.k # "ccf")
  ELSE \E i \in DOMAIN E : /\ ccf /\ E[i].k = "ccf" /\ E[i].id = Att(x, "ccf-group")
                           /\ {Att(y, "name") : y \in Rng(x.c)} \subseteq Rng(E[i].d.mem) /\ Cardinality({Att(y, "name") : y \in Rng(x.c)}) = Len(x.c)
                           /\ Att(x, "order") = Counted(x.c) /\ Att(x, "group-size") = Counted(E[i].d.mem)

\* The number of warnings joined in an attribute.
Warnings(w) == IF w = "" THEN 0 ELSE 1 + Cardinality({i \in 1 .. Len(w) - 1 : SubSeq(w, i, i + 1) = "; "})

\* The bookkeeping of a sum of products.
SumProblems(m, E, s, x) ==
  LET ps == x.c
      lits(p) == [j \in DOMAIN p.c |-> LET q == Literal(p.c[j]) IN << q[1], EventName(q[2]) >>]
      order(p) == IF p.c = << >> THEN 1 ELSE Len(p.c)
      events == UNION {{Literal(y)[2] : y \in Rng(p.c)} : p \in Rng(ps)}
      names == {EventName(y) : y \in events}
      high == FoldLeft(LAMBDA a, p : IF order(p) > a THEN order(p) ELSE a, 0, ps)
      dist == [k \in 1 .. high |-> Cardinality({j \in DOMAIN ps : order(ps[j]) = k})]
      join == FoldLeft(LAMBDA a, k : a \o (IF k = 1 THEN "" ELSE " ") \o ToString(dist[k]), "", [k \in 1 .. high |-> k])
      prods == [j \in DOMAIN ps |-> Rng(lits(ps[j]))]
      known == \A y \in events : EventKnown(m, E, s.ccf, y)
      total == RSum([j \in DOMAIN ps |-> RDec(Att(ps[j], "probability"))])
  IN << << Att(x, "products") = Counted(ps), "count of products" >>,
        << Att(x, "basic-events") = Count(names), "count of events" >>,
        << Att(x, "distribution") = join, "distribution of orders" >>,
        << \A p \in Rng(ps) : Att(p, "order") = ToString(order(p)), "order of a product" >>,
        << Cardinality(Rng(prods)) = Len(ps), "a product listed twice" >>,
        << \A p \in Rng(ps) : Cardinality(Rng(lits(p))) = Len(p.c), "a literal listed twice" >>,
        << known, "an event that is not in the model" >>,
        << \A p \in Rng(ps) : RLe(RInt(order(p)), RDec(s.limit)) \/ p.c = << >>, "order limit" >>,
        << HasAtt(x, "probability") = s.probability /\ \A p \in Rng(ps) : HasAtt(p, "probability") = s.probability, "probability given" >>,
        << ~s.probability \/ \A p \in Rng(ps) : HasAtt(p, "contribution") =>
             RClose(RMul(RDec(Att(p, "contribution")), total), RDec(Att(p, "probability")), "1/10000", RDec("1e-300")), "contribution" >>,
        << (Att(x, "warning") # "") => (ps = << >> \/ \E p \in Rng(ps) : p.c = << >> \/ s.approximation # "none"), "warning" >>,
        << ps = << >> => Att(x, "warning") # "", "warning about an empty set" >>,
        \* one warning about a trivial set, one about an approximation that reached certainty
        << (ps # << >> /\ \A p \in Rng(ps) : p.c = << >>) =>
             Warnings(Att(x, "warning")) >= (IF s.probability /\ s.approximation # "none" THEN 2 ELSE 1), "warnings about a set of everything" >> >>

\* Everything a report must state, as a sequence of <<holds, name>>.  nm: name of the model ("" if it has none).
Stated(m, E, s, nm, r) ==
  LET info == Kid(r, "information")
      feat == Kid(info, "model-features")
      warn == Kids(info, "warning")
      quant == Kids(info, "calculated-quantity")
      want == Analyses(s)
      all == Results_(m, E)
      keys == {Key(q) : q \in all}
      fta == {Key(q) : q \in {x \in all : x.fta}}
      res(t) == IF HasKid(r, "results") THEN Kids(Kid(r, "results"), t) ELSE << >>
      times == IF HasKid(info, "performance") THEN Kids(Kid(info, "performance"), "calculation-time") ELSE << >>
      timed(x) == {y.t : y \in Rng(x.c)}
      ies == {<< i.n, c[1], c[2] >> : i \in {j \in Rng(m.ie) : j.t # ""}, c \in Contexts(m)}
      got == [j \in DOMAIN res("initiating-event") |-> LET x == res("initiating-event")[j] IN << Att(x, "name"), Att(x, "alignment"), Att(x, "phase") >>]
      sums == res("sum-of-products")
      curve == s.probability /\ ~REq(RDec(s.step), RZero)
      onlyif(c, S) == IF c THEN S ELSE {}
  IN << << r.t = "report" /\ Len(r.c) <= 2, "layers" >>,
        << Att(Kid(info, "software"), "name") = "SCRAM", "software" >>,
        << Att(feat, "name") = nm, "name of the model" >>,
        << {<< x.t, x.x >> : x \in Rng(feat.c)} = Inventory(m, E), "inventory" >>,
        << {<< w.h, Rng(w.n) >> : w \in Rng(r.w)} = Unused(m, E) /\ Len(r.w) = Len(warn), "unused elements" >>,
        << Len(quant) = Len(want) /\ \A j \in DOMAIN want : SameAnalysis(quant[j], want[j]), "analyses" >>,
        << Once(times, keys), "results timed" >>,
        << \A x \in Rng(times) : timed(x) = onlyif(IdOf(x) \in fta, {"products"}) \cup onlyif(s.probability, {"probability"})
                                            \cup onlyif(s.importance /\ IdOf(x) \in fta, {"importance"}) \cup onlyif(s.uncertainty, {"uncertainty"}), "analyses timed" >>,
        << Once(sums, fta), "sums of products" >>,
        << Once(res("curve"), onlyif(curve, keys)), "curves" >>,
        << Once(res("safety-integrity-levels"), onlyif(s.sil, keys)), "safety integrity levels" >>,
        << Once(res("importance"), onlyif(s.importance, fta)), "importance results" >>,
        << Once(res("measure"), onlyif(s.uncertainty, keys)), "uncertainty results" >>,
        << Rng(got) = onlyif(s.probability, ies) /\ Len(got) = Cardinality(Rng(got)), "initiating events" >>,
        << \A x \in Rng(res("initiating-event")) :
             LET mine == {q.n : q \in {y \in all : y.ie = Att(x, "name") /\ y.al = Att(x, "alignment") /\ y.ph = Att(x, "phase")}}
             IN /\ Att(x, "sequences") = Count(mine) /\ Len(x.c) = Cardinality(mine) /\ {Att(y, "name") : y \in Rng(x.c)} = mine, "sequences" >>,
        << \A x \in Rng(res("importance")) :
             LET own == UNION {UNION {{EventName(Literal(y)[2]) : y \in Rng(p.c)} : p \in Rng(z.c)} : z \in {w \in Rng(sums) : IdOf(w) = IdOf(x)}}
             IN /\ Att(x, "basic-events") = Counted(x.c) /\ Len(x.c) = Cardinality(own)
                /\ {EventName(y) : y \in Rng(x.c)} = own /\ \A y \in Rng(x.c) : EventKnown(m, E, s.ccf, y), "events of importance results" >>,
        << \A x \in Rng(res("measure")) :
             /\ Att(Kid(x, "quantiles"), "number") = Counted(Kid(x, "quantiles").c) /\ REq(RInt(Len(Kid(x, "quantiles").c)), RDec(s.quantiles))
             /\ Att(Kid(x, "histogram"), "number") = Counted(Kid(x, "histogram").c) /\ REq(RInt(Len(Kid(x, "histogram").c)), RDec(s.bins))
             /\ \A y \in {Kid(x, "quantiles"), Kid(x, "histogram")} : \A j \in DOMAIN y.c : Att(y.c[j], "number") = ToString(j), "quantiles and bins" >> >>
     \o Flatten([j \in DOMAIN sums |-> SumProblems(m, E, s, sums[j])])
=============================================================================
