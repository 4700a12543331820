----------------------------- MODULE WindowTrace -----------------------------
(* Conformance of the real main window with Window.tla.
   Every event is [e (the command), ..., dialogs (those met: [d, ...]), obs (what the window shows), gone, err].
   The state: has (a document is open), m, hist (the documents along the history; << >> for one that was not seen), pos,
   clean (position of the last save, -1: none), files, recent, fs (path -> << document >> or << >> for an invalid file), report. *)
EXTENDS Window, TraceBase

VARIABLES l, w
tvars == << l, w >>

Parts(m, j) ==
  LET n == Abs(j)
      inter == Ids(m) \cap Ids(n)
      same(f) == \A i \in inter : m.els[i][f] = n.els[i][f]
  IN << << Good(j), "elements are unique" >>, << m.name = n.name, "name of the model" >>, << m.trees = n.trees, "fault trees" >>,
        << Ids(m) = Ids(n), "elements" >>, << same("kind"), "types" >>, << same("label"), "labels" >>, << same("attrs"), "attributes" >>,
        << same("flavor"), "flavours" >>, << same("expr"), "expressions" >>, << same("state"), "states" >>,
        << same("conn") /\ same("min") /\ same("args"), "formulas" >>, << same("ft"), "gates of fault trees" >> >>
Same(m, j) == Violated(Parts(m, j)) = << >>

\* ---- what the window shows ---------------------------------------------------------------------------------
CellsOf(r) == LET c == RowOf([r EXCEPT !.expr = ""]) IN IF r.kind = "basic" THEN << << c[1][1], c[1][2], c[1][4] >>, c[2] >> ELSE c
TableOk(m, kind, rs) ==
  /\ {<< rs[j].c, [k \in DOMAIN rs[j].k |-> rs[j].k[k].c[1]] >> : j \in DOMAIN rs} = {CellsOf(m.els[i]) : i \in {x \in Ids(m) : m.els[x].kind = kind}}
  /\ Len(rs) = Count(m, kind)
TreeOk(m, rs) == /\ Len(rs) = 4 /\ [j \in 1..4 |-> rs[j].c[1]] = TreeRows(m)
                 /\ {rs[1].k[j].c[1] : j \in DOMAIN rs[1].k} = DOMAIN m.trees /\ Len(rs[1].k) = Cardinality(DOMAIN m.trees)
Shown(v, o) == << << o.recent = v.recent, "recent files" >> >> \o   \* v: the state after the command
  IF ~v.has THEN << << ~o.has, "no document" >>, << ~o.modified, "unmodified" >> >>
  ELSE IF ~o.has THEN << << FALSE, "a document" >> >>
  ELSE Parts(v.m, o.model) \o
    << << o.title = (IF v.m.name = "" THEN "Unnamed Model" ELSE v.m.name) \o "[*]", "title" >>,
       << o.modified = (v.pos # v.clean), "modified mark" >>,
       << o.on.Save = o.modified /\ o.on.SaveAs /\ o.on.AddElement /\ o.on.Run /\ o.on.RenameModel, "actions" >>,
       << o.index = v.pos /\ o.count = Len(v.hist) - 1, "position in the history" >>,
       << o.hasReport = v.report /\ o.on.ExportReportAs = v.report, "results are there" >>,
       << TableOk(v.m, "gate", o.tables.gate), "table of gates" >>, << TableOk(v.m, "basic", o.tables.basic), "table of basic events" >>,
       << TableOk(v.m, "house", o.tables.house), "table of house events" >>, << TreeOk(v.m, o.tables.tree), "tree of the model" >> >>

\* ---- dialogs ---------------------------------------------------------------------------------------------
Met(e) == [j \in DOMAIN e.dialogs |-> e.dialogs[j].d]
SameDialog(d, s, types) ==   \* s: as it was shown
  << << s.name = d.name.t, "name in the dialog" >>, << s.label = d.label, "label in the dialog" >>, << s.type = d.type, "type in the dialog" >>,
     << Range(s.types) = types, "types that can be chosen" >>, << s.state = d.state, "state in the dialog" >>,
     << s.hasExpr = d.hasExpr /\ s.etype = d.etype, "kind of expression in the dialog" >>,
     << (d.hasExpr /\ d.etype = 0 /\ InExpr(d)) => (s.cv = d.const.v), "probability in the dialog" >>,
     << (d.hasExpr /\ d.etype = 1 /\ InExpr(d)) => (s.rv = d.rate.v), "rate in the dialog" >>,
     << d.type = GateT => s.conn = d.conn - 1, "connective in the dialog" >>, << d.type = GateT /\ ConnAt[d.conn] = "atleast" => s.min = d.min, "minimum in the dialog" >>,
     << d.type = GateT => s.args = d.args, "arguments in the dialog" >>, << s.ft = d.ft.t, "fault tree in the dialog" >> >>
RECURSIVE Gestures(_, _, _, _, _)
\* The dialog after each gesture, against what was shown; << conditions, last dialog >>.
Gestures(m, id, d, gs, steps) ==
  IF gs = << >> THEN << << >>, d >>
  ELSE LET n == Gesture(m, id, d, Head(gs))
           s == Head(steps)
           r == Gestures(m, id, n, Tail(gs), Tail(steps))
       IN << SameDialog(n, s, TypesFor(m, id)) \o << << s.ok = Acceptable(m, id, n), "dialog can be accepted" >> >> \o r[1], r[2] >>

Push(v, m, o) ==   \* m after an edit: as many entries of the history as the window says
  IF m = v.m THEN v
  ELSE LET k == IF o.index > v.pos + 1 /\ o.index <= v.pos + 40 THEN o.index - v.pos ELSE 1 IN
       [v EXCEPT !.m = m, !.pos = @ + k, !.report = FALSE, !.clean = IF @ > v.pos THEN -1 ELSE @,
                 !.hist = SubSeq(@, 1, v.pos + 1) \o [j \in 1..k |-> IF j = k THEN << m >> ELSE << >>]]
Replaced(v, m, files) == [v EXCEPT !.has = TRUE, !.m = m, !.hist = << << m >> >>, !.pos = 0, !.clean = 0, !.files = files, !.report = FALSE]
Modified(v) == v.has /\ v.pos # v.clean
Saved(v, path) == [v EXCEPT !.clean = v.pos, !.files = << path >>, !.fs = With(@, path, << v.m >>)]
NoDir(path) == path = "missing/x.xml"
\* Saving, asking for a file (p: << >> when that is cancelled): << dialogs, saved, state >>.
SaveAs(v, p) == IF p = << >> THEN << << "file" >>, FALSE, v >>
                ELSE IF NoDir(p[1]) THEN << << "file", "critical" >>, FALSE, v >> ELSE << << "file" >>, TRUE, Saved(v, p[1]) >>
Save(v, p) == IF Len(v.files) = 1 THEN << << >>, TRUE, Saved(v, v.files[1]) >> ELSE SaveAs(v, p)
\* The recently opened files, latest first.
Latest(fs, old) == LET all == fs \o SelectSeq(old, LAMBDA p : p \notin Range(fs)) IN SubSeq(all, 1, IF Len(all) > 5 THEN 5 ELSE Len(all))
\* Opening more files.
Open(v, fs) ==
  LET all == v.files \o fs
      docs == [j \in DOMAIN all |-> v.fs[all[j]]]
      ok == /\ Cardinality(Range(all)) = Len(all) /\ \A j \in DOMAIN docs : docs[j] # << >>
            /\ LET ms == [j \in DOMAIN docs |-> docs[j][1]] IN Disjoint(ms) /\ Loadable(Joined(ms))
  IN IF ok THEN << << >>, [Replaced(v, WithTops(Joined([j \in DOMAIN docs |-> docs[j][1]])), all) EXCEPT !.recent = Latest(fs, @)] >> ELSE << << "critical" >>, v >>

Edit(e, v) ==   \* add and edit: << conditions, state >>
  LET id == IF e.e = "add" THEN "" ELSE e.id
      D == e.dialogs[1]
      ts == IF id = "" THEN {} ELSE TreesOf(v.m, id)
      d0 == IF id = "" THEN Fresh ELSE Opened(v.m, id, IF ts = {} THEN "" ELSE IF D.open.ft \in ts THEN D.open.ft ELSE CHOOSE t \in ts : TRUE)
      r == Gestures(v.m, id, d0, e.g, D.steps)
      took == e.ok /\ Acceptable(v.m, id, r[2])
  IN IF Met(e) # << "event" >> \/ Len(D.steps) # Len(e.g) THEN << << << FALSE, "one dialog" >> >>, v >>
     ELSE << SameDialog(d0, D.open, TypesFor(v.m, id)) \o << << D.open.ok = Acceptable(v.m, id, d0), "dialog can be accepted" >> >> \o r[1],
             IF took THEN Push(v, Accept(v.m, id, r[2]), e.obs) ELSE v >>

Asked(e, v) == Modified(v)
Do(e, v) ==   \* << conditions, state >>
  CASE e.e = "start" -> << << << Met(e) = << >>, "no dialog" >> >>, v >>
    [] e.e \in {"add", "edit"} -> Edit(e, v)
    [] e.e = "remove" ->
         IF CanRemove(v.m, e.id) THEN << << << Met(e) = << >>, "removed" >> >>, Push(v, Removed(v.m, e.id), e.obs) >>
         ELSE << << << Met(e) = << "information" >>, "removal is refused" >> >>, v >>
    [] e.e = "name" ->
         LET s == Typed(e.v) D == e.dialogs[1] took == e.ok /\ (s.ok \/ s.t = "") IN
         IF Met(e) # << "name" >> THEN << << << FALSE, "one dialog" >> >>, v >>
         ELSE << << << D.open = v.m.name, "name in the dialog" >>, << D.shown = s.t, "name typed" >>, << D.ok = (s.ok \/ s.t = ""), "name can be accepted" >> >>,
                 IF took THEN Push(v, [v.m EXCEPT !.name = s.t], e.obs) ELSE v >>
    [] e.e \in {"undo", "redo"} ->
         LET p == IF e.e = "undo" THEN v.pos - 1 ELSE v.pos + 1
             h == IF p + 1 \notin DOMAIN v.hist \/ v.hist[p + 1] = << >> THEN << Abs(e.obs.model) >> ELSE v.hist[p + 1]
         IN << << << Met(e) = << >>, "no dialog" >>, << p + 1 \in DOMAIN v.hist, "history" >>, << Sound(h[1]), "a sound document" >> >>,
               IF p + 1 \notin DOMAIN v.hist THEN v ELSE [v EXCEPT !.pos = p, !.m = h[1], !.hist[p + 1] = h, !.report = FALSE] >>
    [] e.e = "save" -> LET r == Save(v, e.p) IN << << << Met(e) = r[1], "dialogs of saving" >> >>, r[3] >>
    [] e.e = "saveas" -> LET r == SaveAs(v, e.p) IN << << << Met(e) = r[1], "dialogs of saving" >> >>, r[3] >>
    [] e.e = "new" ->
         LET r == Save(v, e.p)
             asked == IF Modified(v) THEN << "question" >> ELSE << >>
             saves == Modified(v) /\ e.b = "Save"
             goes == ~Modified(v) \/ e.b = "Discard" \/ (saves /\ r[2])
             u == IF saves THEN r[3] ELSE v
         IN << << << Met(e) = asked \o (IF saves THEN r[1] ELSE << >>), "dialogs of a new model" >> >>, IF goes THEN Replaced(u, Empty, << >>) ELSE u >>
    [] e.e = "close" ->
         LET r == Save(v, e.p)
             saves == Modified(v) /\ e.b = "Save"
             goes == ~Modified(v) \/ e.b = "Discard" \/ (saves /\ r[2])
         IN << << << Met(e) = (IF Modified(v) THEN << "question" >> ELSE << >>) \o (IF saves THEN r[1] ELSE << >>), "dialogs of closing" >>,
                  << e.closed = goes, "closed" >> >>, IF saves THEN r[3] ELSE v >>
    [] e.e = "open" ->
         IF e.files = << >> THEN << << << Met(e) = << "file" >>, "dialogs of opening" >> >>, v >>
         ELSE LET r == Save(v, e.p)
                  u == IF Modified(v) THEN r[3] ELSE v
                  goes == ~Modified(v) \/ r[2]
                  x == Open(u, e.files)
              IN << << << Met(e) = << "file" >> \o (IF Modified(v) THEN r[1] ELSE << >>) \o (IF goes THEN x[1] ELSE << >>), "dialogs of opening" >> >>,
                    IF goes THEN x[2] ELSE u >>
    [] e.e = "recent" ->
         LET r == Save(v, e.p)
             u == IF Modified(v) THEN r[3] ELSE v
             goes == ~Modified(v) \/ r[2]
             x == Open(u, e.files)
         IN << << << e.n < Len(v.recent) /\ e.files = << v.recent[e.n + 1] >>, "the recent file" >>,
                  << Met(e) = (IF Modified(v) THEN r[1] ELSE << >>) \o (IF goes THEN x[1] ELSE << >>), "dialogs of opening" >> >>,
               IF goes THEN x[2] ELSE u >>
    [] e.e = "clear" -> << << << Met(e) = << >>, "no dialog" >> >>, [v EXCEPT !.recent = << >>] >>
    \* The timer of automatic saving: modifications go to the file of the document, when it has one.
    [] e.e = "auto" -> << << << Met(e) = << >>, "no dialog" >> >>, IF e.fired /\ Modified(v) /\ Len(v.files) = 1 THEN Saved(v, v.files[1]) ELSE v >>
    [] e.e = "load" ->   \* a saved file, read again
         << << << Loadable(v.fs[e.file][1]) => e.why = "", "saved file can be read" >> >>
            \o (IF e.why = "" THEN LET d == v.fs[e.file][1]
                                      p == Parts(IF Loadable(d) THEN WithTops(d) ELSE d, e.loaded) IN [j \in DOMAIN p |-> << p[j][1] \/ (p[j][2] = "fault trees" /\ ~Loadable(v.fs[e.file][1])), "saved file: " \o p[j][2] >>]
                ELSE << >>), v >>
    [] e.e = "run" -> << << << Met(e) = << >>, "dialogs of the analysis" >> >>, [v EXCEPT !.report = TRUE] >>

Start(e) == [has |-> FALSE, m |-> Empty, hist |-> << << >> >>, pos |-> 0, clean |-> 0, files |-> << >>, report |-> FALSE, recent |-> << >>,
             fs |-> [p \in {e.fs[j].path : j \in DOMAIN e.fs} |->
                       LET x == e.fs[CHOOSE j \in DOMAIN e.fs : e.fs[j].path = p] IN IF x.doc = << >> THEN << >> ELSE << WithTops(Abs(x.doc[1])) >>]]

\* A session is judged up to its first event that the specification does not allow.
Lost == [lost |-> TRUE]
TStep == LET e == Trace[l + 1]
             v == IF e.e = "start" THEN Start(e) ELSE w IN
         IF v = Lost THEN w' = v
         ELSE IF e.gone \/ e.err # "" THEN w' = Lost /\ Report(l + 1, << IF e.gone THEN "program ended" ELSE "error: " \o e.err >>)
         ELSE \E r \in {Do(e, v)} : \E bad \in {Violated(r[1] \o Shown(r[2], e.obs))} :
                /\ w' = IF bad = << >> THEN r[2] ELSE Lost
                /\ Report(l + 1, bad)
TInit == l = 0 /\ w = << >>
TNext == l < TraceLen /\ TStep /\ l' = l + 1 /\ Done(l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
