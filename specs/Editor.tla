------------------------------- MODULE Editor -------------------------------
(* The graphical editor's command layer.
   A model m is [name, trees: function name -> [label], els: function id -> element]; an element is a record
     [id, kind ("basic" | "house" | "gate"), label, attrs (set of <<name, value, type>>), flavor, expr, p, state, conn, min,
      args (sequence of ids), ft (the fault tree of a gate)].
   A command is a record with field op.  Apply gives its meaning.  New, Redo and Undo specify how the commands are
   carried out: each is an object that keeps one snapshot and exchanges it with the model. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Without(f, x) == [k \in DOMAIN f \ {x} |-> f[k]]
With(f, x, v) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN v ELSE f[k]]
Ids(m) == DOMAIN m.els
SetEl(m, id, r) == [m EXCEPT !.els = With(@, id, r)]
Has(m, id, kind) == id \in Ids(m) /\ m.els[id].kind = kind
ArgSet(r) == {r.args[j] : j \in DOMAIN r.args}
Parents(m, id) == {g \in Ids(m) : id \in ArgSet(m.els[g])}

RECURSIVE Below(_, _, _)
\* The ids reachable from ids in n steps.
Below(m, ids, n) == LET next == ids \cup UNION {ArgSet(m.els[i]) : i \in ids \cap Ids(m)} IN
                    IF n = 0 \/ next = ids THEN ids ELSE Below(m, next, n - 1)
Acyclic(m) == \A g \in Ids(m) : g \notin Below(m, ArgSet(m.els[g]), Cardinality(Ids(m)))

GoodFormula(conn, min, args) ==
  LET n == Len(args) IN
  /\ Cardinality({args[j] : j \in DOMAIN args}) = n
  /\ CASE conn \in {"and", "or", "nand", "nor"} -> n >= 2
       [] conn \in {"not", "null"} -> n = 1
       [] conn = "xor" -> n = 2
       [] conn = "atleast" -> min >= 2 /\ n > min
       [] OTHER -> FALSE
\* What every model the editor works on satisfies.
WellFormed(m) ==
  /\ \A i \in Ids(m) : LET r == m.els[i] IN
       /\ r.id = i
       /\ ArgSet(r) \subseteq Ids(m)
       /\ r.kind = "gate" <=> (r.ft # "" /\ r.ft \in DOMAIN m.trees)
       /\ r.kind = "gate" => GoodFormula(r.conn, r.min, r.args)
       /\ r.kind # "gate" => r.args = << >>
  /\ Acyclic(m)

\* ---- meaning -------------------------------------------------------------------------------------
SetFlavorOf(r, v) ==
  [r EXCEPT !.flavor = v,
            !.attrs = {a \in @ : a[1] # "flavor"} \cup (IF v = "Undeveloped" THEN {<< "flavor", "undeveloped", "" >>} ELSE {})]
Rename(m, old, new) ==
  LET sub(s) == [j \in DOMAIN s |-> IF s[j] = old THEN new ELSE s[j]]
      fix(r) == [r EXCEPT !.args = sub(@)]
  IN IF old = new THEN m
     ELSE [m EXCEPT !.els = [k \in (DOMAIN @ \ {old}) \cup {new} |->
             IF k = new THEN [fix(m.els[old]) EXCEPT !.id = new] ELSE fix(m.els[k])]]

RECURSIVE Apply(_, _)
Apply(m, c) ==
  CASE c.op = "label" -> [m EXCEPT !.els[c.id].label = c.v]
    [] c.op = "rename" -> Rename(m, c.id, c.v)
    [] c.op = "flavor" -> IF m.els[c.id].flavor = c.v THEN m ELSE [m EXCEPT !.els[c.id] = SetFlavorOf(@, c.v)]
    [] c.op = "expr" -> [m EXCEPT !.els[c.id].expr = c.v, !.els[c.id].p = c.p]
    [] c.op = "state" -> [m EXCEPT !.els[c.id].state = c.v]
    [] c.op = "formula" -> [m EXCEPT !.els[c.id].conn = c.conn, !.els[c.id].min = c.min, !.els[c.id].args = c.args]
    [] c.op = "add" -> SetEl(m, c.el.id, c.el)
    [] c.op = "remove" -> [m EXCEPT !.els = Without(@, c.id)]
    [] c.op = "type" -> SetEl(m, c.el.id, c.el)
    [] c.op = "addft" -> [m EXCEPT !.trees = With(@, c.v, [label |-> ""])]
    [] c.op = "rmft" -> [m EXCEPT !.trees = Without(@, c.v)]
    [] c.op = "mname" -> [m EXCEPT !.name = c.v]
    [] c.op = "macro" -> LET f[j \in 0..Len(c.cs)] == IF j = 0 THEN m ELSE Apply(f[j - 1], c.cs[j]) IN f[Len(c.cs)]

\* When a command may be given.
RECURSIVE Legal(_, _)
Legal(m, c) ==
  CASE c.op = "label" -> c.id \in Ids(m)
    [] c.op = "rename" -> c.id \in Ids(m) /\ (c.v = c.id \/ c.v \notin Ids(m))
    [] c.op \in {"flavor", "expr"} -> Has(m, c.id, "basic")
    [] c.op = "state" -> Has(m, c.id, "house")
    [] c.op = "formula" -> Has(m, c.id, "gate") /\ WellFormed(Apply(m, c))
    [] c.op = "add" -> c.el.id \notin Ids(m) /\ WellFormed(Apply(m, c))
    [] c.op = "remove" -> c.id \in Ids(m) /\ Parents(m, c.id) = {}
    [] c.op = "type" -> c.el.id \in Ids(m) /\ m.els[c.el.id].kind # c.el.kind /\ WellFormed(Apply(m, c))
    [] c.op = "addft" -> c.v \notin DOMAIN m.trees
    [] c.op = "rmft" -> c.v \in DOMAIN m.trees /\ \A i \in Ids(m) : m.els[i].ft # c.v
    [] c.op = "mname" -> TRUE
    [] c.op = "macro" -> LET f[j \in 0..Len(c.cs)] == IF j = 0 THEN << m, TRUE >>
                                ELSE IF ~f[j - 1][2] THEN f[j - 1] ELSE << Apply(f[j - 1][1], c.cs[j]), Legal(f[j - 1][1], c.cs[j]) >>
                         IN f[Len(c.cs)][2]

\* ---- mechanism: each step gives << model, object >> ------------------------------------------------
\* Involutions exchange the kept value with the current one; nothing happens when they are equal.
Swap(m, o) ==
  CASE o.op = "label" -> << Apply(m, o), [o EXCEPT !.v = m.els[o.id].label] >>
    [] o.op = "rename" -> << Rename(m, o.id, o.v), [o EXCEPT !.id = o.v, !.v = o.id] >>
    [] o.op = "flavor" ->
         LET r == m.els[o.id] mine == {a \in r.attrs : a[1] = "flavor"} IN
         IF r.flavor = o.v THEN << m, o >>
         ELSE << [m EXCEPT !.els[o.id].flavor = o.v, !.els[o.id].attrs = (r.attrs \ mine) \cup o.attr],
                 [o EXCEPT !.v = r.flavor, !.attr = mine] >>
    [] o.op = "expr" -> << Apply(m, o), [o EXCEPT !.v = m.els[o.id].expr, !.p = m.els[o.id].p] >>
    [] o.op = "state" -> << Apply(m, o), [o EXCEPT !.v = m.els[o.id].state] >>
    [] o.op = "formula" -> << Apply(m, o), [o EXCEPT !.conn = m.els[o.id].conn, !.min = m.els[o.id].min, !.args = m.els[o.id].args] >>
    [] o.op = "mname" -> << Apply(m, o), [o EXCEPT !.v = m.name] >>
    [] o.op = "type" -> << SetEl(m, o.el.id, o.el), [o EXCEPT !.el = m.els[o.el.id]] >>
RECURSIVE New(_)
New(c) == CASE c.op = "flavor" -> [op |-> "flavor", id |-> c.id, v |-> c.v,
                                   attr |-> IF c.v = "Undeveloped" THEN {<< "flavor", "undeveloped", "" >>} ELSE {}]
            [] c.op = "remove" -> [op |-> "remove", id |-> c.id, el |-> << >>]
            [] c.op = "rmft" -> [op |-> "rmft", v |-> c.v, tree |-> << >>]
            [] c.op = "macro" -> [op |-> "macro", cs |-> [j \in DOMAIN c.cs |-> New(c.cs[j])]]
            [] OTHER -> c
RECURSIVE Redo(_, _), Undo(_, _)
Through(m, os, step(_, _), up) ==   \* a macro: its commands in turn (up), or backwards
  LET n == Len(os)
      at(j) == IF up THEN j ELSE n + 1 - j
      f[j \in 0..n] == IF j = 0 THEN << m, os >>
                       ELSE LET r == step(f[j - 1][1], f[j - 1][2][at(j)]) IN << r[1], [f[j - 1][2] EXCEPT ![at(j)] = r[2]] >>
  IN f[n]
Redo(m, o) ==
  CASE o.op \in {"add", "addft"} -> << Apply(m, o), o >>
    [] o.op = "rmft" -> << Apply(m, o), [o EXCEPT !.tree = m.trees[o.v]] >>
    [] o.op = "remove" -> << Apply(m, o), [o EXCEPT !.el = m.els[o.id]] >>
    [] o.op = "macro" -> LET r == Through(m, o.cs, Redo, TRUE) IN << r[1], [o EXCEPT !.cs = r[2]] >>
    [] OTHER -> Swap(m, o)
Undo(m, o) ==
  CASE o.op = "add" -> << [m EXCEPT !.els = Without(@, o.el.id)], o >>
    [] o.op = "remove" -> << SetEl(m, o.id, o.el), o >>
    [] o.op = "addft" -> << [m EXCEPT !.trees = Without(@, o.v)], o >>
    [] o.op = "rmft" -> << [m EXCEPT !.trees = With(@, o.v, o.tree)], o >>
    [] o.op = "macro" -> LET r == Through(m, o.cs, Undo, FALSE) IN << r[1], [o EXCEPT !.cs = r[2]] >>
    [] OTHER -> Swap(m, o)

\* ---- what the views show -------------------------------------------------------------------------
GateType(r) == IF r.conn = "atleast" THEN "at-least " \o ToString(r.min) ELSE r.conn
RowOf(r) ==
  CASE r.kind = "basic" -> << << r.id, r.flavor, r.p, r.label >>, << >> >>
    [] r.kind = "house" -> << << r.id, IF r.state THEN "True" ELSE "False", r.label >>, << >> >>
    [] r.kind = "gate" -> << << r.id, GateType(r), ToString(Len(r.args)), r.label >>, r.args >>
Table(m, kind) == {RowOf(m.els[i]) : i \in {j \in Ids(m) : m.els[j].kind = kind}}
Count(m, kind) == Cardinality({j \in Ids(m) : m.els[j].kind = kind})
TreeRows(m) == << "Fault Trees (" \o ToString(Cardinality(DOMAIN m.trees)) \o ")", "Gates (" \o ToString(Count(m, "gate")) \o ")",
                  "Basic Events (" \o ToString(Count(m, "basic")) \o ")", "House Events (" \o ToString(Count(m, "house")) \o ")" >>
=============================================================================
