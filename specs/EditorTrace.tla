----------------------------- MODULE EditorTrace -----------------------------
(* Conformance of the real command layer and item models with Editor.tla.
   Events: load  want (the model written to the file), got (the model as it is), views
           do    c (the command), got, index, count, views, gone (the program ended), err
           undo, redo, attach   got, ...
           save  also saved: the saved file, loaded again
   A view is [v (which), mirror, live, trouble, psorted, plive]: the rows as followed by notifications, and as they are;
   psorted and plive are those of a sorted proxy; it shows all elements, or those that a search keeps.
   diagrams: of the gates that were there when the views were attached, [gone, root, nodes in order]. *)
EXTENDS Editor, TraceBase

VARIABLES l, hist, pos
tvars == << l, hist, pos >>

Names(s) == {s[j].id : j \in DOMAIN s}
El(r) == [id |-> r.id, kind |-> r.kind, label |-> r.label, attrs |-> Range(r.attrs), flavor |-> r.flavor, expr |-> r.expr,
          p |-> r.p, state |-> r.state, conn |-> r.conn, min |-> r.min, args |-> r.args, ft |-> r.ft]
Abs(j) ==
  [name |-> j.name, trees |-> [t \in {j.trees[k].name : k \in DOMAIN j.trees} |->
                                 [label |-> j.trees[CHOOSE k \in DOMAIN j.trees : j.trees[k].name = t].label]],
   els |-> [i \in Names(j.els) |-> El(j.els[CHOOSE k \in DOMAIN j.els : j.els[k].id = i])]]
Good(j) == Cardinality(Names(j.els)) = Len(j.els) /\ Cardinality({j.trees[k].name : k \in DOMAIN j.trees}) = Len(j.trees)

\* Which part of the model differs.
Parts(m, j) ==
  LET n == Abs(j)
      inter == Ids(m) \cap Ids(n)
      same(f) == \A i \in inter : m.els[i][f] = n.els[i][f]
  IN << << Good(j), "elements are unique" >>, << m.name = n.name, "name of the model" >>, << m.trees = n.trees, "fault trees" >>,
        << Ids(m) = Ids(n), "elements" >>, << same("kind"), "types" >>, << same("label"), "labels" >>, << same("attrs"), "attributes" >>,
        << same("flavor"), "flavours" >>, << same("expr") /\ same("p"), "expressions" >>, << same("state"), "states" >>,
        << same("conn") /\ same("min") /\ same("args"), "formulas" >>, << same("ft"), "gates of fault trees" >> >>

Rows(rs) == {<< rs[j].c, [k \in DOMAIN rs[j].k |-> rs[j].k[k].c[1]] >> : j \in DOMAIN rs}
TreeOk(m, rs) ==
  /\ Len(rs) = 4
  /\ [j \in 1..4 |-> rs[j].c[1]] = TreeRows(m)
  /\ {rs[1].k[j].c[1] : j \in DOMAIN rs[1].k} = DOMAIN m.trees
  /\ Len(rs[1].k) = Cardinality(DOMAIN m.trees)
  /\ \A j \in 2..4 : rs[j].k = << >>
TableOk(m, kind, rs) == Rows(rs) = Table(m, kind) /\ Len(rs) = Count(m, kind)
ViewOk(m, v) ==
  LET kind == IF v.v = "gates" THEN "gate" ELSE v.v IN
  << << v.trouble = "", "notification that fits no row: " \o v.v >>,
     << v.mirror = v.live, "a view that follows the notifications: " \o v.v >>,
     << IF v.v = "tree" THEN TreeOk(m, v.live) ELSE TableOk(m, kind, v.live), "content of the view: " \o v.v >> >>
  \o (IF v.v = "tree" THEN << >>
      ELSE << << v.psorted = v.plive, "a sorted view that follows the notifications: " \o v.v >>,
              << TableOk(IF v.all THEN m ELSE [m EXCEPT !.els = [i \in DOMAIN @ \cap Range(v.keep) |-> @[i]]], kind, v.plive), "content of the sorted view: " \o v.v >> >>)
RECURSIVE AllViews(_, _)
AllViews(m, vs) == IF vs = << >> THEN << >> ELSE ViewOk(m, Head(vs)) \o AllViews(m, Tail(vs))

\* ---- diagrams: of one gate each; gates are drawn once, transfers lead to them from elsewhere ---------------------
RECURSIVE Draw(_, _, _, _)
\* << nodes (depth, kind, id) in order, gates drawn >>
Draw(m, id, depth, seen) ==
  LET r == m.els[id] node(k) == << << depth, k, id >> >> IN
  CASE r.kind = "basic" -> << node(IF r.flavor = "Undeveloped" THEN "undeveloped" ELSE "basic"), seen >>
    [] r.kind = "house" -> << node("house"), seen >>
    [] r.kind = "gate" /\ id \in seen -> << node("transfer"), seen >>
    [] OTHER -> LET f[j \in 0 .. Len(r.args)] == IF j = 0 THEN << node("gate"), seen >>
                       ELSE LET d == Draw(m, r.args[j], depth + 1, f[j - 1][2]) IN << f[j - 1][1] \o d[1], d[2] >>
                    last == f[Len(r.args)]
                IN << last[1], last[2] \cup {id} >>
DiagramOk(m, d) ==
  LET N == d.nodes IN
  IF d.gone THEN << << N = << >>, "a diagram of a gate that is gone" >> >>
  ELSE IF ~Has(m, d.root, "gate") THEN << << FALSE, "a diagram of no gate" >> >>
  ELSE << << [j \in DOMAIN N |-> << N[j].d, N[j].k, N[j].id >>] = Draw(m, d.root, 0, {})[1], "events of the diagram" >>,
          << \A j \in DOMAIN N : N[j].k = "gate" /\ Has(m, N[j].id, "gate") =>
               /\ N[j].sym = m.els[N[j].id].conn
               /\ N[j].text = (IF m.els[N[j].id].conn = "atleast" THEN ToString(m.els[N[j].id].min) \o "/" \o ToString(Len(m.els[N[j].id].args)) ELSE ""),
             "symbols of the diagram" >>,
          << \A j \in DOMAIN N : N[j].k = "gate" => N[j].out = (\E k \in DOMAIN N : N[k].k = "transfer" /\ N[k].id = N[j].id), "transfers of the diagram" >> >>
RECURSIVE AllDiagrams(_, _)
AllDiagrams(m, ds) == IF ds = << >> THEN << >> ELSE DiagramOk(m, Head(ds)) \o AllDiagrams(m, Tail(ds))

Verdict(e, m) ==
  IF e.gone THEN << << FALSE, "program ended" >> >>
  ELSE << << e.err = "", "request refused" >> >> \o (IF "got" \in DOMAIN e THEN Parts(m, e.got) ELSE << >>)
       \o (IF "views" \in DOMAIN e THEN AllViews(m, e.views) \o AllDiagrams(m, e.diagrams) ELSE << >>)

TLoad == LET e == Trace[l + 1] m == Abs(e.want) IN
         /\ e.e = "load"
         /\ hist' = << m >> /\ pos' = 0
         /\ Report(l + 1, Violated(Verdict(e, m)))
TDo == LET e == Trace[l + 1] IN
       /\ e.e = "do"
       /\ \E c \in {IF e.c.op \in {"add", "type"} THEN [e.c EXCEPT !.el = El(@)]
                    ELSE IF e.c.op = "macro" THEN [e.c EXCEPT !.cs = [j \in DOMAIN @ |-> IF @[j].op = "add" THEN [@[j] EXCEPT !.el = El(@)] ELSE @[j]]]
                    ELSE e.c} : \E m \in {Apply(hist[pos + 1], c)} :
            /\ hist' = SubSeq(hist, 1, pos + 1) \o << m >> /\ pos' = pos + 1
            /\ Report(l + 1, Violated(<< << Legal(hist[pos + 1], c), "(specification) legal request" >>,
                                         << e.gone \/ (e.index = pos' /\ e.count = pos'), "position in the history" >> >> \o Verdict(e, m)))
TMove == LET e == Trace[l + 1] IN
         /\ e.e \in {"undo", "redo", "attach", "save"}
         /\ pos' = (CASE e.e = "undo" -> pos - 1 [] e.e = "redo" -> pos + 1 [] OTHER -> pos)
         /\ UNCHANGED hist
         /\ Report(l + 1, Violated(<< << e.gone \/ (e.index = pos' /\ e.count = Len(hist) - 1), "position in the history" >> >>
                                   \o Verdict(e, hist[pos' + 1])
                                   \o (IF e.e = "save" /\ ~e.gone /\ e.err = ""
                                       THEN LET p == Parts(hist[pos' + 1], e.saved) IN [j \in DOMAIN p |-> << p[j][1], "saved file: " \o p[j][2] >>]
                                       ELSE << >>)))
TInit == l = 0 /\ hist = << >> /\ pos = 0
TNext == l < TraceLen /\ (TLoad \/ TDo \/ TMove) /\ l' = l + 1 /\ Done(l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
