-------------------------------- MODULE Window --------------------------------
(* The editor's main window: the document it shows, the dialogs that edit it, its files and its history.
   A document is a model of Editor.tla whose trees also carry their top gate: [name, trees: name -> [label, top], els].
   An expression is [k ("none" | "c" (a probability) | "x" (exponential)), v (its number, as text), t (the time of an
   exponential; "T" is the mission time)].
   The state of an event dialog is
     [name, type, label, state, hasExpr, etype, const, rate, conn, min, args, ft]
   with texts [t (text), ok (acceptable)], numbers [v (the number as text), ok], and the positions of the boxes. *)
EXTENDS Editor

\* ---- names as they are typed -----------------------------------------------------------------------
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
WordChars == Letters \cup {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "_"}
\* Where a name stands after one more character: "none" | "word" | "dash" (a name cannot end here); "no" when it is not taken.
Step(q, c) == CASE q = "none" -> IF c \in Letters THEN "word" ELSE "no"
                [] q = "word" -> IF c \in WordChars THEN "word" ELSE IF c = "-" THEN "dash" ELSE "no"
                [] q = "dash" -> IF c \in WordChars THEN "word" ELSE "no"
RECURSIVE Type(_, _, _)
Type(s, q, text) ==
  IF s = "" THEN [t |-> text, ok |-> q = "word"]
  ELSE LET c == SubSeq(s, 1, 1) r == Step(q, c) rest == SubSeq(s, 2, Len(s)) IN
       IF r = "no" THEN Type(rest, q, text) ELSE Type(rest, r, text \o c)
Typed(s) == Type(s, "none", "")
Named(s) == [t |-> s, ok |-> TRUE]

\* ---- documents -------------------------------------------------------------------------------------
Empty == [name |-> "", trees |-> << >>, els |-> << >>]
GatesOf(m, t) == {g \in Ids(m) : m.els[g].kind = "gate" /\ m.els[g].ft = t}
\* The gates of a tree that no gate of that tree uses.
Roots(m, t) == {g \in GatesOf(m, t) : \A p \in GatesOf(m, t) : g \notin ArgSet(m.els[p])}
Loadable(m) == WellFormed(m) /\ \A t \in DOMAIN m.trees : Cardinality(Roots(m, t)) = 1
WithTops(m) == [m EXCEPT !.trees = [t \in DOMAIN @ |-> [label |-> @[t].label, top |-> CHOOSE g \in Roots(m, t) : TRUE]]]
\* Several files as one document; the first one gives the name.
Disjoint(ms) == \A i, j \in DOMAIN ms : i < j =>
                  DOMAIN ms[i].els \cap DOMAIN ms[j].els = {} /\ DOMAIN ms[i].trees \cap DOMAIN ms[j].trees = {}
Joined(ms) ==
  LET in(f(_), x) == CHOOSE j \in DOMAIN ms : x \in f(j)
      E(j) == DOMAIN ms[j].els
      T(j) == DOMAIN ms[j].trees
  IN [name |-> ms[1].name, trees |-> [t \in UNION {T(j) : j \in DOMAIN ms} |-> ms[in(T, t)].trees[t]],
      els |-> [i \in UNION {E(j) : j \in DOMAIN ms} |-> ms[in(E, i)].els[i]]]

\* ---- the event dialog --------------------------------------------------------------------------------
ConnAt == << "and", "or", "atleast", "xor", "not", "nand", "nor", "null" >>
ConnIndex(c) == CHOOSE j \in DOMAIN ConnAt : ConnAt[j] = c
HouseT == 0  BasicT == 1  UndevelopedT == 2  GateT == 3
NoText == [t |-> "", ok |-> FALSE]
NoNumber == [v |-> "", ok |-> FALSE]
Fresh == [name |-> NoText, type |-> HouseT, label |-> "", state |-> 0, hasExpr |-> TRUE, etype |-> 0, const |-> NoNumber, rate |-> NoNumber,
          conn |-> 1, min |-> 2, args |-> << >>, ft |-> NoText]
MaxMin(d) == IF Len(d.args) > 2 THEN Len(d.args) - 1 ELSE 2
Clamp(d) == IF d.min > MaxMin(d) THEN [d EXCEPT !.min = MaxMin(d)] ELSE d
\* The fault trees an event may be said to belong to.
TreesOf(m, id) == IF m.els[id].kind = "gate" THEN {m.els[id].ft} ELSE {m.els[g].ft : g \in Parents(m, id)}
IsTop(m, id) == \E t \in DOMAIN m.trees : m.trees[t].top = id
TypesFor(m, id) == IF id = "" THEN 0..3 ELSE IF IsTop(m, id) THEN {GateT} ELSE IF TreesOf(m, id) = {} THEN 0..2 ELSE 0..3
\* The dialog of an event; ft is one of TreesOf.
Opened(m, id, ft) ==
  LET r == m.els[id]
      d == [Fresh EXCEPT !.name = Named(id), !.label = r.label, !.ft = IF ft = "" THEN NoText ELSE Named(ft)]
  IN CASE r.kind = "house" -> [d EXCEPT !.type = HouseT, !.state = IF r.state THEN 1 ELSE 0]
       [] r.kind = "basic" ->
            [d EXCEPT !.type = IF r.flavor = "Undeveloped" THEN UndevelopedT ELSE BasicT, !.hasExpr = r.expr.k # "none",
                      !.etype = IF r.expr.k = "x" THEN 1 ELSE 0,
                      !.const = IF r.expr.k = "c" THEN [v |-> r.expr.v, ok |-> TRUE] ELSE @,
                      !.rate = IF r.expr.k = "x" THEN [v |-> r.expr.v, ok |-> TRUE] ELSE @]
       [] r.kind = "gate" -> [d EXCEPT !.type = GateT, !.conn = ConnIndex(r.conn), !.args = r.args, !.min = IF r.conn = "atleast" THEN r.min ELSE 2]

InExpr(d) == d.type \in {BasicT, UndevelopedT}
\* A number is typed as v, which stands for n / 10^6 when it is complete (n = -1 otherwise).
Number(g, top) == [v |-> IF g.num >= 0 THEN g.cv ELSE "", ok |-> g.num >= 0 /\ (top => g.num <= 1000000)]
Refused(m, id, d, s) ==
  \/ s.t = "" \/ ~s.ok
  \/ \E j \in DOMAIN d.args : d.args[j] = s.t
  \/ s.t = d.name.t
  \/ id # "" /\ Has(m, s.t, "gate") /\ id \in Below(m, ArgSet(m.els[s.t]), Cardinality(Ids(m)))
Gesture(m, id, d, g) ==
  CASE g.k = "name" -> [d EXCEPT !.name = Typed(g.v)]
    [] g.k = "label" -> [d EXCEPT !.label = g.words]
    [] g.k = "type" -> IF g.n \in TypesFor(m, id) THEN [d EXCEPT !.type = g.n] ELSE d
    [] g.k = "state" -> IF d.type = HouseT THEN [d EXCEPT !.state = g.n] ELSE d
    [] g.k = "hasExpr" -> IF InExpr(d) THEN [d EXCEPT !.hasExpr = (g.n = 1)] ELSE d
    [] g.k = "etype" -> IF InExpr(d) /\ d.hasExpr THEN [d EXCEPT !.etype = g.n] ELSE d
    [] g.k = "const" -> IF InExpr(d) /\ d.hasExpr /\ d.etype = 0 THEN [d EXCEPT !.const = Number(g, TRUE)] ELSE d
    [] g.k = "rate" -> IF InExpr(d) /\ d.hasExpr /\ d.etype = 1 THEN [d EXCEPT !.rate = Number(g, FALSE)] ELSE d
    [] g.k = "conn" -> IF d.type = GateT THEN [d EXCEPT !.conn = g.n + 1] ELSE d
    [] g.k = "min" -> IF d.type = GateT /\ ConnAt[d.conn] = "atleast" THEN Clamp([d EXCEPT !.min = IF g.n < 2 THEN 2 ELSE g.n]) ELSE d
    [] g.k \in {"addarg", "addenter"} ->
         LET s == Typed(g.v) IN IF d.type # GateT \/ Refused(m, id, d, s) THEN d ELSE Clamp([d EXCEPT !.args = Append(@, s.t)])
    [] g.k = "rmarg" ->
         LET n == Len(d.args) at == IF g.n < 0 \/ g.n >= n THEN n ELSE g.n + 1 IN
         IF d.type # GateT \/ n = 0 THEN d ELSE Clamp([d EXCEPT !.args = SubSeq(@, 1, at - 1) \o SubSeq(@, at + 1, n)])
    [] g.k = "ft" -> IF id = "" /\ d.type = GateT THEN [d EXCEPT !.ft = Typed(g.v)] ELSE d

\* Whether the dialog can be accepted.
Acceptable(m, id, d) ==
  /\ d.name.ok /\ (d.name.t = id \/ d.name.t \notin Ids(m))
  /\ InExpr(d) /\ d.hasExpr => IF d.etype = 0 THEN d.const.ok ELSE d.rate.ok
  /\ d.type = GateT => /\ GoodFormula(ConnAt[d.conn], d.min, d.args)
                       /\ \A j \in DOMAIN d.args : d.args[j] # d.name.t
                       /\ id = "" => d.ft.ok /\ d.ft.t \notin DOMAIN m.trees

\* ---- what accepting it does -----------------------------------------------------------------------------
None == [label |-> "", attrs |-> {}, flavor |-> "", expr |-> [k |-> "none", v |-> "", t |-> ""], p |-> "", state |-> FALSE, conn |-> "", min |-> 0,
         args |-> << >>, ft |-> ""]
Undeveloped == {<< "flavor", "undeveloped", "" >>}
Mk(id, kind, f) == [id |-> id, kind |-> kind] @@ f @@ None
KindOf(d) == CASE d.type = HouseT -> "house" [] d.type = GateT -> "gate" [] OTHER -> "basic"
ExprOf(d) == IF ~d.hasExpr THEN None.expr
             ELSE IF d.etype = 0 THEN [k |-> "c", v |-> d.const.v, t |-> ""] ELSE [k |-> "x", v |-> d.rate.v, t |-> "T"]
\* An expression that is kept: the dialog shows its kind and number only.
SameExpr(a, b) == a.k = b.k /\ a.v = b.v
\* The event the dialog describes.
Described(d) ==
  CASE d.type = HouseT -> Mk(d.name.t, "house", [label |-> d.label, state |-> d.state = 1])
    [] d.type = GateT -> Mk(d.name.t, "gate", [label |-> d.label, conn |-> ConnAt[d.conn], args |-> d.args, ft |-> d.ft.t,
                                               min |-> IF ConnAt[d.conn] = "atleast" THEN d.min ELSE 0])
    [] OTHER -> Mk(d.name.t, "basic", [label |-> d.label, expr |-> ExprOf(d), flavor |-> IF d.type = BasicT THEN "Basic" ELSE "Undeveloped",
                                       attrs |-> IF d.type = BasicT THEN {} ELSE Undeveloped])
\* An event that keeps its type keeps what the dialog does not show.
Edited(r, d) ==
  LET x == Described(d) IN
  CASE r.kind = "house" -> [r EXCEPT !.label = x.label, !.state = x.state]
    [] r.kind = "gate" -> [r EXCEPT !.label = x.label, !.conn = x.conn, !.min = x.min, !.args = x.args]
    [] r.kind = "basic" -> LET s == IF r.flavor = x.flavor THEN r ELSE SetFlavorOf(r, x.flavor) IN
                           [s EXCEPT !.label = x.label, !.expr = IF SameExpr(@, x.expr) THEN @ ELSE x.expr]
RenameAll(m, old, new) ==
  LET n == Rename(m, old, new) IN [n EXCEPT !.trees = [t \in DOMAIN @ |-> IF @[t].top = old THEN [@[t] EXCEPT !.top = new] ELSE @[t]]]
\* Arguments that are no events of the model become undeveloped events.
Undefined(m, d) == IF d.type # GateT THEN {} ELSE {d.args[j] : j \in DOMAIN d.args} \ Ids(m)
AddAll(m, ids) == [m EXCEPT !.els = [i \in DOMAIN @ \cup ids |-> IF i \in ids THEN Mk(i, "basic", [flavor |-> "Undeveloped", attrs |-> Undeveloped]) ELSE @[i]]]
Accept(m, id, d) ==
  IF id = "" THEN
    LET n == AddAll(m, Undefined(m, d))
        k == SetEl(n, d.name.t, Described(d))
    IN IF d.type # GateT THEN k ELSE [k EXCEPT !.trees = With(@, d.ft.t, [label |-> "", top |-> d.name.t])]
  ELSE
    LET n == RenameAll(m, id, d.name.t)
        r == n.els[d.name.t]
        k == AddAll(n, Undefined(n, d))
    IN SetEl(k, d.name.t, IF KindOf(d) = r.kind THEN Edited(r, d) ELSE Described(d))

\* ---- removal --------------------------------------------------------------------------------------------
CanRemove(m, id) == Parents(m, id) = {} /\ (IsTop(m, id) => GatesOf(m, m.els[id].ft) = {id})
Removed(m, id) == [m EXCEPT !.els = Without(@, id), !.trees = IF IsTop(m, id) THEN Without(@, m.els[id].ft) ELSE @]

\* ---- documents as JSON values ---------------------------------------------------------------------------
JNames(s) == {s[j].id : j \in DOMAIN s}
El(r) == [id |-> r.id, kind |-> r.kind, label |-> r.label, attrs |-> {r.attrs[k] : k \in DOMAIN r.attrs}, flavor |-> r.flavor, expr |-> r.expr,
          p |-> "", state |-> r.state, conn |-> r.conn, min |-> r.min, args |-> r.args, ft |-> r.ft]
Abs(j) ==
  [name |-> j.name, trees |-> [t \in {j.trees[k].name : k \in DOMAIN j.trees} |->
                                 LET x == j.trees[CHOOSE k \in DOMAIN j.trees : j.trees[k].name = t] IN [label |-> x.label, top |-> x.top]],
   els |-> [i \in JNames(j.els) |-> El(j.els[CHOOSE k \in DOMAIN j.els : j.els[k].id = i])]]
Good(j) == Cardinality(JNames(j.els)) = Len(j.els) /\ Cardinality({j.trees[k].name : k \in DOMAIN j.trees}) = Len(j.trees)
\* ---- every document of the window -----------------------------------------------------------------------
Sound(m) == /\ WellFormed(m)
            /\ \A t \in DOMAIN m.trees : m.trees[t].top \in GatesOf(m, t)
            /\ \A i \in Ids(m) : m.els[i].kind = "gate" => m.els[i].ft \in DOMAIN m.trees
=============================================================================
