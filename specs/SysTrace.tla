------------------------------ MODULE SysTrace ------------------------------
(* Conformance of whole analyses with System.tla.
   Events: load (the model) and
           sys  one run: alg, approx, lim, pi, prob, imp, mt, step, rc, err, out,
                tops: sequence of results [k: "g" | "s", g: gate | ie, s: sequence, al, ph, result as in QuantTrace and Products]
                xres: results without products [ie, s, al, ph, curve]
                eta : sequence of [ie, al, ph, n, seqs: sequence of <<sequence, value>>] *)
EXTENDS System, QuantTrace

SLoad ==
  LET e == Trace[l + 1] IN
  /\ e.e = "sload"
  /\ cur' = [m |-> e.m, fns |-> << >>, fine |-> FALSE, tops |-> {}]

IdsOf(M, c, mean) ==
  {<< "g", j, 0, c.al, c.ph >> : j \in Tops(M)}
  \cup UNION {{<< "s", i, s, c.al, c.ph >> : s \in {q \in DOMAIN mean.ie[i] : ~mean.ie[i][q].expr}} : i \in WithTree(M)}
Id(r) == << r.k, IF r.k = "g" THEN r.g ELSE r.ie, r.s, r.al, r.ph >>

InUnit(v) == RLe(RZero, v) /\ RLe(v, ROne)
\* A value the report must state; sequences whose value is not a probability are not judged here.
SameValue(e, want, got) == Near(got, want, "1e-12")

ResultConds(e, M, r, f0, mt) ==
  LET N == M.N
      f == f0 \cap Allowed(M.subs, N)
      all == IF e.pi THEN PrimeImplicants(f, N) ELSE {<< p, 0 >> : p \in SubstMCS(f0, M.subs, N)}
      want == {t \in all : Order(t, N) <= e.lim}
      cubes == [j \in DOMAIN r.prods |-> << r.prods[j].c[1], r.prods[j].c[2] >>]
      e1 == [e EXCEPT !.mt = RMul(mt, ROne)]
  IN ListConds([p |-> cubes, np |-> r.np, ne |-> r.ne, dist |-> r.dist, ord |-> r.ord, warn |-> r.warn], want, N)
     \o (IF ~e.prob THEN << >>
         ELSE LET P == Probs(M, mt)
                  tot == Total(e.approx, f, cubes, N, P)
              IN TopConds([e EXCEPT !.limited = @ \/ \E j \in DOMAIN M.subs : ~Declarative(M.subs[j])], r, f, N, P, tot)
                 \o (IF e.imp THEN ImpConds(e, r, f, N, P, tot) ELSE << << r.imp = << >>, "importance not requested" >> >>)
                 \o CurveConds(e1, r, f, N))

EtaConds(e, M, c, mean) ==
  LET mine == SelectSeq(e.eta, LAMBDA x : x.al = c.al /\ x.ph = c.ph)
      one(x) ==
        LET R == mean.ie[x.ie]
            named == {x.seqs[j][1] : j \in DOMAIN x.seqs}
            \* value of a formula sequence: the total of its result
            of(s) == SelectSeq(e.tops, LAMBDA r : r.k = "s" /\ r.ie = x.ie /\ r.s = s /\ r.al = c.al /\ r.ph = c.ph)
        IN << << x.n = Len(x.seqs) /\ Cardinality(named) = Len(x.seqs), "every sequence once" >>,
              << named = DOMAIN R, "sequences reached" >> >>
           \o (IF named # DOMAIN R THEN << >>
               ELSE << << \A j \in DOMAIN x.seqs :
                        LET s == x.seqs[j][1] IN
                        IF R[s].expr THEN R[s].mixed \/ M.subs # << >> \/ ~InUnit(R[s].v) \/ SameValue(e, R[s].v, x.seqs[j][2])
                        ELSE of(s) = << >> \/ SameValue(e, RDec(of(s)[1].p), x.seqs[j][2]), "value of a sequence" >> >>)
  IN IF ~e.prob THEN << << mine = << >>, "values of sequences not requested" >> >> ELSE
     << << {mine[j].ie : j \in DOMAIN mine} = WithTree(M) /\ Len(mine) = Cardinality(WithTree(M)), "initiating events" >> >>
     \o (IF {mine[j].ie : j \in DOMAIN mine} = WithTree(M) THEN FoldLeft(LAMBDA acc, x : acc \o one(x), << >>, mine) ELSE << >>)

\* The curves of expression sequences (the only results they have besides their value).
XresConds(e, M, c, mean) ==
  LET mine == SelectSeq(e.xres, LAMBDA r : r.al = c.al /\ r.ph = c.ph)
      ids == {<< mine[j].ie, mine[j].s >> : j \in DOMAIN mine}
      timed == e.prob /\ ~REq(RDec(e.step), RZero)
      want == IF timed THEN UNION {{<< i, s >> : s \in {q \in DOMAIN mean.ie[i] : mean.ie[i][q].expr}} : i \in WithTree(M)} ELSE {}
      tms == IF timed THEN Times(RMul(mean.mt, ROne), RDec(e.step)) ELSE << >>
      at(r, t) == Sequences(M, c, r.ie, mean.mt, t)[r.s]
      fine(r) == /\ Len(r.curve) \in {Len(tms), Len(tms) + 1}
                 /\ \A j \in DOMAIN r.curve :
                      LET t == IF j > Len(tms) THEN mean.mt ELSE tms[j] v == at(r, t)
                      IN Near(r.curve[j][1], t, "1e-12") /\ (v.mixed \/ M.subs # << >> \/ ~InUnit(v.v) \/ Near(r.curve[j][2], v.v, "1e-12"))
  IN << << ids = want /\ Len(mine) = Cardinality(want), "expression sequences reported" >>,
        << ids # want \/ \A j \in DOMAIN mine : fine(mine[j]), "curve of an expression sequence" >> >>

ContextConds(e, M, c, mean) ==
  LET mine == SelectSeq(e.tops, LAMBDA r : r.al = c.al /\ r.ph = c.ph)
      ids == {Id(mine[j]) : j \in DOMAIN mine}
      want == IdsOf(M, c, mean)
      fn(r) == IF r.k = "g" THEN mean.fns[r.g] ELSE mean.ie[r.ie][r.s].f
  IN EtaConds(e, M, c, mean) \o XresConds(e, M, c, mean)
     \o << << ids = want /\ Len(mine) = Cardinality(want), "results reported" >> >>
     \o FoldLeft(LAMBDA acc, r : IF Id(r) \in want THEN acc \o ResultConds(e, M, r, fn(r), mean.mt) ELSE acc, << >>, mine)

SysRun ==
  LET e == Trace[l + 1] M == cur.m legal == Legal(M, e.approx) ctx == Contexts(M)
      base == << << e.rc \in {0, 1}, "ends with a result or an error" >>,
                 << legal # "T" \/ e.rc # 1, "legal model rejected" >>,
                 << legal # "F" \/ e.rc # 0, "illegal model analysed" >>,
                 << e.rc # 1 \/ (e.err # "" /\ ~e.out), "a rejected model is explained and gives no result" >> >>
  IN /\ e.e = "sys"
     /\ UNCHANGED cur
     /\ IF e.rc # 0 \/ legal = "F" THEN Report(l + 1, Violated(base))
        ELSE \E means \in {[j \in DOMAIN ctx |-> Meaning(M, ctx[j], RDec(e.mt))]} :
               Report(l + 1, Violated(
                 base \o << << \A j \in DOMAIN e.tops : \E k \in DOMAIN ctx : e.tops[j].al = ctx[k].al /\ e.tops[j].ph = ctx[k].ph, "results outside the phases" >>,
                            << \A j \in DOMAIN e.eta : \E k \in DOMAIN ctx : e.eta[j].al = ctx[k].al /\ e.eta[j].ph = ctx[k].ph, "results outside the phases" >> >>
                 \o FoldLeft(LAMBDA acc, j : acc \o ContextConds(e, M, ctx[j], means[j]), << >>, [j \in DOMAIN ctx |-> j])))

SNext == l < TraceLen /\ (SLoad \/ SysRun) /\ l' = l + 1 /\ Done(l + 1)
SSpec == Init /\ [][SNext]_vars
=============================================================================
