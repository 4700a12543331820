-------------------------------- MODULE Serial --------------------------------
(* Saving a model as a document and loading it again.
   A model is a record
     nm, lab, att : name ("" if it has none), label, attributes
     ft    : fault trees [n, lab, att]
     gate  : [n, ft, lab, att, f]        formula f: [o, k, m, a], argument [x: complemented, n: event, c: "", "true" or "false"]
     basic : [n, lab, att, e]            expression e: [k: "none" | "c" (value v) | "exp", v, x: arguments]
     house : [n, lab, att, s]
   attributes are sequences of [n, v, t].  Values are shortest decimals of doubles.
   A document is a tree [t: tag, a: attributes [n, v], x: text, c: children]. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

LOCAL Rng(s) == {s[j] : j \in DOMAIN s}
LOCAL Map(s, f(_)) == [j \in DOMAIN s |-> f(s[j])]
LOCAL Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, << >>, ss)

El(t, a, c) == [t |-> t, a |-> a, x |-> "", c |-> c]
At(n, v) == [n |-> n, v |-> v]
Txt(t, x) == [t |-> t, a |-> << >>, x |-> x, c |-> << >>]

\* ---- saving --------------------------------------------------------------------------------------------
Header(lab, att) ==
  (IF lab = "" THEN << >> ELSE << Txt("label", lab) >>)
  \o (IF att = << >> THEN << >>
      ELSE << El("attributes", << >>, Map(att, LAMBDA q : El("attribute", << At("name", q.n), At("value", q.v) >> \o (IF q.t = "" THEN << >> ELSE << At("type", q.t) >>), << >>))) >>)
Named(n) == << At("name", n) >>
ArgDoc(a) ==
  LET x == IF a.c # "" THEN El("constant", << At("value", a.c) >>, << >>) ELSE El("event", Named(a.n), << >>)
  IN IF a.x THEN El("not", << >>, << x >>) ELSE x
FormulaDoc(f) ==
  IF f.o = "null" THEN ArgDoc(f.a[1])
  ELSE El(f.o, CASE f.o = "atleast" -> << At("min", ToString(f.k)) >>
                 [] f.o = "cardinality" -> << At("min", ToString(f.k)), At("max", ToString(f.m)) >>
                 [] OTHER -> << >>, Map(f.a, ArgDoc))
RECURSIVE ExprDoc(_)
ExprDoc(e) ==
  CASE e.k = "none" -> << >>
    [] e.k = "c" -> << El("float", << At("value", e.v) >>, << >>) >>
    [] OTHER -> << El("exponential", << >>, Cat(Map(e.x, ExprDoc))) >>
Saved(m) ==
  El("opsa-mef", IF m.nm = "" THEN << >> ELSE Named(m.nm),
     Header(m.lab, m.att)
     \o Map(m.ft, LAMBDA t : El("define-fault-tree", Named(t.n),
          Header(t.lab, t.att) \o Map(SelectSeq(m.gate, LAMBDA g : g.ft = t.n),
                                      LAMBDA g : El("define-gate", Named(g.n), Header(g.lab, g.att) \o << FormulaDoc(g.f) >>))))
     \o << El("model-data", << >>,
              Map(m.basic, LAMBDA b : El("define-basic-event", Named(b.n), Header(b.lab, b.att) \o ExprDoc(b.e)))
              \o Map(m.house, LAMBDA h : El("define-house-event", Named(h.n), Header(h.lab, h.att) \o << El("constant", << At("value", IF h.s THEN "true" ELSE "false") >>, << >>) >>))) >>)

\* ---- loading -------------------------------------------------------------------------------------------
Get(x, n) == LET q == SelectSeq(x.a, LAMBDA y : y.n = n) IN IF q = << >> THEN "" ELSE q[1].v
Kids(x, t) == SelectSeq(x.c, LAMBDA y : y.t = t)
Label(x) == LET q == Kids(x, "label") IN IF q = << >> THEN "" ELSE q[1].x
Attrs(x) == LET q == Kids(x, "attributes") IN IF q = << >> THEN << >> ELSE Map(q[1].c, LAMBDA y : [n |-> Get(y, "name"), v |-> Get(y, "value"), t |-> Get(y, "type")])
Body(x) == SelectSeq(x.c, LAMBDA y : y.t \notin {"label", "attributes"})
ReadArg(x) ==
  LET y == IF x.t = "not" THEN x.c[1] ELSE x
  IN [x |-> x.t = "not", n |-> IF y.t = "constant" THEN "" ELSE Get(y, "name"), c |-> IF y.t = "constant" THEN Get(y, "value") ELSE ""]
RECURSIVE ReadExpr(_)
ReadExpr(q) ==
  IF q = << >> THEN [k |-> "none", v |-> "", x |-> << >>]
  ELSE IF q[1].t = "exponential" THEN [k |-> "exp", v |-> "", x |-> Map(q[1].c, LAMBDA y : ReadExpr(<< y >>))]
  ELSE [k |-> "c", v |-> Get(q[1], "value"), x |-> << >>]
\* What a document says, whatever the order of definitions: sets of records.
\* The order of arguments matters for implications only.
Args(o, a) == IF o = "imply" THEN Map(a, LAMBDA y : {y}) ELSE << Rng(a) >>
ReadFormula(q) ==
  LET x == q[1]
      p == x.t \in {"event", "gate", "basic-event", "house-event", "constant"}
      o == IF p THEN "null" ELSE x.t
  IN [o |-> o, k |-> IF o \in {"atleast", "cardinality"} THEN Get(x, "min") ELSE "", m |-> IF o = "cardinality" THEN Get(x, "max") ELSE "",
      a |-> IF p THEN Args(o, << ReadArg(x) >>) ELSE Args(o, Map(x.c, ReadArg)), n |-> IF p THEN 1 ELSE Len(x.c)]
Within(x, ts) == Cat(Map(x.c, LAMBDA y : IF y.t \in ts THEN << y >> ELSE << >>))
Read(d) ==
  LET trees == Kids(d, "define-fault-tree")
      at(t) == Within(d, {"model-data", "define-fault-tree"})
      defs(t) == Cat(Map(Within(d, {"model-data", "define-fault-tree"}), LAMBDA y : Kids(y, t)))
      gates == Cat(Map(trees, LAMBDA t : Map(Kids(t, "define-gate"), LAMBDA g : [n |-> Get(g, "name"), ft |-> Get(t, "name"), lab |-> Label(g), att |-> Rng(Attrs(g)), f |-> ReadFormula(Body(g))])))
      basics == Map(defs("define-basic-event"), LAMBDA b : [n |-> Get(b, "name"), lab |-> Label(b), att |-> Rng(Attrs(b)), e |-> ReadExpr(Body(b))])
      houses == Map(defs("define-house-event"), LAMBDA h : [n |-> Get(h, "name"), lab |-> Label(h), att |-> Rng(Attrs(h)), s |-> Body(h) # << >> /\ Get(Body(h)[1], "value") = "true"])
      fts == Map(trees, LAMBDA t : [n |-> Get(t, "name"), lab |-> Label(t), att |-> Rng(Attrs(t))])
  IN [nm |-> Get(d, "name"), lab |-> Label(d), att |-> Rng(Attrs(d)), ft |-> Rng(fts), gate |-> Rng(gates), basic |-> Rng(basics), house |-> Rng(houses),
      count |-> << Len(fts), Len(gates), Len(basics), Len(houses) >>, rest |-> {y.t : y \in Rng(d.c)} \ {"label", "attributes", "define-fault-tree", "model-data"}]

\* Loading what has been saved gives the model back, and saving that again changes nothing.
Meaning(m) == Read(Saved(m))
=============================================================================
