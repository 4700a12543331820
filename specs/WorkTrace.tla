----------------------------- MODULE WorkTrace -------------------------------
(* Conformance of sessions of analyses in the editor's window.
   Events: begin; project (bad: a file or its model that is none); doc (the document changed or was opened, m: the one shown now); settings; run; results (tables of one
   result); export.  m: [N, H, G, P (expressions), miss (variables without one), tops (gates of the results, as numbers)]. *)
EXTENDS QuantTrace, Workbench

None == [set |-> Initial, m |-> << >>, tm |-> "0", ana |-> << >>, fns |-> << >>, fine |-> FALSE, pr |-> << >>]
WInit == l = 0 /\ cur = None
Meaning(c, m) == [c EXCEPT !.m = m, !.fns = GateFns(m, m.H), !.fine = Plain(m) /\ Consts(m)]
EnvAt(t) == [mt |-> RDec(t), par |-> << >>, ini |-> "", fun |-> << >>]
PAt(m, t) == [i \in 1 .. m.N |-> RRound(Eval(m.P[i], EnvAt(t)), 80)]

\* Probabilities of the table of basic events: of the mission time of the last run.
Shown(c, e) ==
  LET P == PAt(e.m, c.tm) IN
  << << \A i \in 1 .. e.m.N : i \in Range(e.m.miss) \/ RClose(RDec(e.pr[i]), P[i], "1e-9", "1e-15"), "probabilities of the table" >>,
     << \A i \in Range(e.m.miss) : e.pr[i] = "", "a probability without an expression" >> >>
Seen(c, e) ==
  << << e.hasReport = (c.ana # << >>), "results while there are none" >>,
     << c.ana # << >> \/ e.tabs = 0, "tables of results that are gone" >>,
     << e.on.ExportReportAs = (c.ana # << >>), "export" >>,
     << e.on.Run, "running" >> >> \o Shown(c, e)

DocStep(e) ==
  LET c1 == Meaning(cur, e.m)
      c2 == [c1 EXCEPT !.ana = << >>, !.tm = IF e.fresh THEN cur.set.time ELSE @]
  IN /\ cur' = c2
     /\ Report(l + 1, Violated(Seen(c2, e)))

\* The editor starts with a project: its files and settings.
ProjectStep(e) ==
  LET c1 == IF e.bad THEN cur ELSE [Meaning(cur, e.m) EXCEPT !.ana = << >>, !.set = e.set, !.tm = e.set.time]
  IN /\ cur' = c1
     /\ Report(l + 1, Violated(<< << e.taken = ~e.bad, "a project taken" >>, << e.critical = e.bad, "a message about a project" >> >>
          \o (IF e.bad THEN << << ~e.has, "a document of no project" >> >> ELSE IF ~e.has THEN << << FALSE, "no document" >> >> ELSE Seen(c1, e))))

SetStep(e) ==
  LET first == Open(cur.set)
      before(j) == IF j = 1 THEN e.open ELSE e.steps[j - 1].d
      Same(x, y) == [x EXCEPT !.time = ""] = [y EXCEPT !.time = ""] /\ REq(RDec(x.time), RDec(y.time))
      last == IF e.steps = << >> THEN e.open ELSE e.steps[Len(e.steps)].d
      new == IF e.ok THEN Accepted(last) ELSE cur.set
      c2 == [cur EXCEPT !.set = new]
  IN /\ cur' = c2
     /\ Report(l + 1, Violated(<< << Same(e.open, first), "settings shown" >>,
          << \A j \in DOMAIN e.steps : Same(e.steps[j].d, After(before(j), e.steps[j].g)), "a click in the settings" >>,
          << Valid(Accepted(last)), "settings no analysis can have" >> >>
          \o (IF cur.m = << >> THEN << >> ELSE Seen(c2, e))))

\* The row of a number of things, and of a probability.
CountRow(t, n) == t.n = ToString(n)
Expected(c, g) == {x \in ProductsOf(c.fns[g], c.m.N, c.ana[1].pi, c.ana[1].order) : TRUE}
AnaOf(s) == [approx |-> s.approx, limited |-> TRUE, imp |-> s.imp, mt |-> s.time]
Tot(c, g) == LET s == c.ana[1] x == Expected(c, g) P == PAt(c.m, s.time)
             IN Total(s.approx, c.fns[g], SetToSeq(x), c.m.N, P)

RunStep(e) ==
  LET refused == cur.set.prob /\ cur.m.miss # << >>
      c2 == IF refused THEN cur ELSE [cur EXCEPT !.ana = << cur.set >>, !.tm = cur.set.time]
      rows == {e.rows[j].g : j \in DOMAIN e.rows}
      okRow(r) ==
        LET x == Expected(c2, r.g) s == c2.ana[1] IN
        << << Len(r.k) = (IF s.imp THEN 3 ELSE IF s.prob THEN 2 ELSE 1), "kinds of results" >>,
           << Len(r.k) > 0 /\ r.k[1] = ToString(Cardinality(x)), "number of products" >>,
           << Len(r.k) < 2 \/ Near(r.k[2], Tot(c2, r.g), "1e-12"), "probability shown" >>,
           << Len(r.k) < 3 \/ r.k[3] = ToString(Cardinality(UNION {Vars(t[1], c2.m.N) \cup Vars(t[2], c2.m.N) : t \in x})), "number of factors" >> >>
  IN /\ cur' = c2
     /\ Report(l + 1, Violated(<< << e.critical = refused, "a refusal" >>, << e.same, "the document after a run" >> >> \o Seen(c2, e)
          \o (IF c2.ana = << >> THEN << >>
              ELSE << << rows = Range(c2.m.tops) /\ Len(e.rows) = Len(c2.m.tops), "the results listed" >> >>
                   \o (IF rows \subseteq DOMAIN c2.fns THEN FoldLeft(LAMBDA a, r : a \o okRow(r), << >>, e.rows) ELSE << >>))))

Sorted(r, prob) == \A j \in 1 .. Len(r.prods) - 1 :
                     IF prob THEN RLe(RDec(r.prods[j + 1].p), RDec(r.prods[j].p)) ELSE r.ord[j] <= r.ord[j + 1]
\* A result, as its tables or an exported report give it.
ResConds(r, table) ==
  LET s == cur.ana[1] N == cur.m.N f == cur.fns[r.g] P == PAt(cur.m, s.time)
      want == Expected(cur, r.g)
      got == {<< r.prods[j].c[1], r.prods[j].c[2] >> : j \in DOMAIN r.prods}
      same == got = want /\ Len(r.prods) = Cardinality(want)
      tot == Tot(cur, r.g)
      e == AnaOf(s)
      x == [r EXCEPT !.adj = ~RLt(tot, RSub(ROne, "1e-12"))]
  IN << << same, "products" >>,
        << \A j \in DOMAIN r.prods : r.ord[j] = (IF r.prods[j].c = << 0, 0 >> THEN 1 ELSE Order(<< r.prods[j].c[1], r.prods[j].c[2] >>, N)), "order" >>,
        << ~table \/ Sorted(r, s.prob), "order of the rows" >>,
        << s.imp \/ r.imp = << >>, "importance not requested" >> >>
     \o (IF ~same \/ ~s.prob THEN << >> ELSE TopConds(e, x, f, N, P, tot))
     \o (IF ~same \/ ~s.imp THEN << >> ELSE ImpConds([e EXCEPT !.limited = FALSE], x, f, N, P, tot))

ResultsStep(e) ==
  /\ UNCHANGED cur
  /\ Report(l + 1, Violated(<< << e.g \in Range(cur.m.tops), "the result named" >>, << e.opened, "a table not opened" >>, << ~e.probTable, "a table of nothing" >> >>
       \o (IF e.g \in Range(cur.m.tops) THEN ResConds(e.r, TRUE) ELSE << >>)))

ExportStep(e) ==
  LET s == cur.ana[1] IN
  /\ UNCHANGED cur
  /\ Report(l + 1, Violated(<< << e.ok, "an exported report" >> >>
       \o (IF ~e.ok THEN << >> ELSE
           << << {e.tops[j].g : j \in DOMAIN e.tops} = Range(cur.m.tops) /\ Len(e.tops) = Len(cur.m.tops), "results of the report" >>,
              << (e.time # "") = s.prob /\ (s.prob => REq(RDec(e.time), RDec(s.time))), "mission time of the report" >>,
              << e.order = ToString(s.order), "limit of the report" >> >>
           \o FoldLeft(LAMBDA a, r : IF r.g \in Range(cur.m.tops) THEN a \o ResConds(r, FALSE) ELSE a, << >>, e.tops))))

WNext ==
  /\ l < TraceLen
  /\ LET e == Trace[l + 1] IN
     /\ IF e.e \in {"begin", "doc"} THEN TRUE ELSE IF e.gone \/ e.err # "" THEN TRUE ELSE PrintT("@SEEN " \o ToJson(
          [settings |-> IF e.e = "settings" THEN 1 ELSE 0, clicks |-> IF e.e = "settings" THEN Len(e.steps) ELSE 0,
           runs |-> IF e.e = "run" THEN 1 ELSE 0, refused |-> IF e.e = "run" /\ e.critical THEN 1 ELSE 0,
           tables |-> IF e.e = "results" THEN 1 ELSE 0, products |-> IF e.e = "results" /\ e.opened THEN Len(e.r.prods) ELSE 0,
           factors |-> IF e.e = "results" /\ e.opened THEN Len(e.r.imp) ELSE 0, reports |-> IF e.e = "export" THEN 1 ELSE 0]))
     /\ CASE e.e = "begin" -> cur' = None
          [] e.gone \/ e.err # "" -> UNCHANGED cur /\ Report(l + 1, << "the editor fails: " \o e.err >>)
          [] e.e = "doc" -> DocStep(e)
          [] e.e = "project" -> ProjectStep(e)
          [] e.e = "settings" -> SetStep(e)
          [] e.e = "run" -> RunStep(e)
          [] e.e \in {"results", "export"} /\ (cur.ana = << >> \/ cur.m = << >>) -> UNCHANGED cur /\ Report(l + 1, << "results of no analysis" >>)
          [] e.e = "results" -> ResultsStep(e)
          [] e.e = "export" -> ExportStep(e)
  /\ l' = l + 1
  /\ Done(l + 1)
WSpec == WInit /\ [][WNext]_vars
=============================================================================
