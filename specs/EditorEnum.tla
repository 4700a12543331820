----------------------------- MODULE EditorEnum ------------------------------
(* Histories of editor commands.  The undo stack is a sequence of command objects with a position; hist remembers the
   models along the surviving commands.  TLC checks that the one-snapshot mechanism of Editor.tla always reproduces
   them.  With LEN = 2 every pair of commands is explored; with -simulate long random histories are drawn.
   Each history of LEN requests is printed for replay in the real editor. *)
EXTENDS Editor, Randomization, Json, IOUtils, SequencesExt

CONSTANT Random
Names == IF Random THEN {"a", "b", "c", "g", "h", "k", "n", "p", "r"} ELSE {"a", "b", "g", "h", "n"}
Labels == IF Random THEN {"", "L", "a label", "M"} ELSE {"", "L"}
Exprs == {<< "none", "" >>, << "c:0.5", "0.5" >>}
         \cup (IF Random THEN {<< "c:0.25", "0.25" >>, << "x:0,5", "0" >>, << "x:1000,1000", "1" >>} ELSE {})
Conns == IF Random THEN {"and", "or", "nand", "nor", "xor", "not", "null", "atleast"} ELSE {"and", "atleast", "not", "null"}
Trees == IF Random THEN {"F", "S", "T"} ELSE {"T"}
LEN == atoi(IOEnv.LEN)
INIT == atoi(IOEnv.INITIAL)

VARIABLES m, stack, pos, hist, log
vars == << m, stack, pos, hist, log >>

None == [label |-> "", attrs |-> {}, flavor |-> "", expr |-> "", p |-> "", state |-> FALSE, conn |-> "", min |-> 0, args |-> << >>, ft |-> ""]
Mk(id, kind, f) == [id |-> id, kind |-> kind] @@ f @@ None
Basic(id, l, fl, x) == Mk(id, "basic", [label |-> l, flavor |-> fl, expr |-> x[1], p |-> x[2],
                                        attrs |-> IF fl = "Undeveloped" THEN {<< "flavor", "undeveloped", "" >>} ELSE {}])
House(id, l, s) == Mk(id, "house", [label |-> l, state |-> s])
Gate(id, l, c, k, a, ft) == Mk(id, "gate", [label |-> l, conn |-> c, min |-> k, args |-> a, ft |-> ft])
Table0(rs) == [i \in {rs[j].id : j \in DOMAIN rs} |-> rs[CHOOSE j \in DOMAIN rs : rs[j].id = i]]
X == CHOOSE x \in Exprs : x[1] # "none"
Y == CHOOSE x \in Exprs : x[1] = "none"

Initial ==
  << [name |-> "", trees |-> << >>, els |-> << >>],
     [name |-> "M", trees |-> [F |-> [label |-> ""]],
      els |-> Table0(<< Basic("a", "", "Basic", X), Gate("g", "L", "null", 0, << "a" >>, "F") >>)],
     [name |-> "", trees |-> [F |-> [label |-> "tree"], G |-> [label |-> ""]],
      els |-> Table0(<< [Basic("a", "La", "Basic", X) EXCEPT !.attrs = {<< "flavor", "conditional", "str" >>, << "note", "1", "" >>}],
                        [Basic("b", "", "Undeveloped", Y) EXCEPT !.attrs = @ \cup {<< "note", "2", "t" >>}],
                        House("h", "", TRUE),
                        [Gate("g", "", "atleast", 2, << "a", "b", "h" >>, "F") EXCEPT !.attrs = {<< "x", "y", "" >>}],
                        Gate("k", "L", "and", 0, << "g", "a" >>, "F"), Gate("r", "", "xor", 0, << "h", "b" >>, "G") >>)],
     \* gates below several gates
     [name |-> "D", trees |-> [F |-> [label |-> ""]],
      els |-> Table0(<< Basic("a", "", "Basic", X), Basic("b", "", "Undeveloped", X), House("h", "", FALSE),
                        Gate("k", "", "or", 0, << "g", "p", "n" >>, "F"), Gate("g", "", "and", 0, << "a", "n" >>, "F"),
                        Gate("p", "", "atleast", 2, << "n", "b", "h" >>, "F"), Gate("n", "", "nand", 0, << "a", "b" >>, "F") >>)] >>

\* What may be asked for in model m.
Kinds == {"basic", "house", "gate"}
Args(md) == LET I == Ids(md) IN {<< x >> : x \in I} \cup (I \X I) \cup (I \X I \X I)
Forms(md) == {<< c, k, a >> : c \in Conns, k \in {0, 2}, a \in Args(md)}
GoodForms(md) == {f \in Forms(md) : GoodFormula(f[1], f[2], f[3]) /\ (f[1] = "atleast" <=> f[2] # 0)}
NewEls(md, ids) ==
  {Basic(i, l, f, x) : i \in ids, l \in Labels, f \in {"Basic", "Undeveloped"}, x \in Exprs}
  \cup {House(i, l, s) : i \in ids, l \in Labels, s \in BOOLEAN}
GateEls(md, ids) == UNION {{Gate(i, "", f[1], f[2], f[3], t) : f \in (GoodForms(md))} : i \in ids, t \in DOMAIN md.trees}
OfKind(md, k) == {i \in Ids(md) : md.els[i].kind = k}
Commands(md) ==
  LET fresh == Names \ Ids(md)
      one == IF fresh = {} THEN {} ELSE {CHOOSE x \in fresh : TRUE}
  IN {[op |-> "label", id |-> i, v |-> l] : i \in Ids(md), l \in Labels}
     \cup {[op |-> "rename", id |-> i, v |-> n] : i \in Ids(md), n \in (fresh)}
     \cup {[op |-> "rename", id |-> i, v |-> i] : i \in Ids(md)}
     \cup {[op |-> "flavor", id |-> i, v |-> f] : i \in OfKind(md, "basic"), f \in {"Basic", "Undeveloped"}}
     \cup {[op |-> "expr", id |-> i, v |-> x[1], p |-> x[2]] : i \in OfKind(md, "basic"), x \in Exprs}
     \cup {[op |-> "state", id |-> i, v |-> s] : i \in OfKind(md, "house"), s \in BOOLEAN}
     \cup {[op |-> "formula", id |-> i, conn |-> f[1], min |-> f[2], args |-> f[3]] : i \in OfKind(md, "gate"), f \in GoodForms(md)}
     \cup {[op |-> "add", el |-> r] : r \in (NewEls(md, one))}
     \cup {[op |-> "add", el |-> r] : r \in (GateEls(md, one))}
     \cup {[op |-> "remove", id |-> i] : i \in Ids(md)}
     \cup {[op |-> "type", el |-> r] : r \in (NewEls(md, Ids(md)))}
     \cup {[op |-> "type", el |-> r] : r \in (GateEls(md, OfKind(md, "basic") \cup OfKind(md, "house")))}
     \cup {[op |-> "addft", v |-> t] : t \in Trees}
     \cup {[op |-> "rmft", v |-> t] : t \in DOMAIN md.trees}
     \cup {[op |-> "mname", v |-> n] : n \in {"", "M", "N"}}
     \cup {[op |-> "macro", cs |-> << [op |-> "addft", v |-> t], [op |-> "add", el |-> [r EXCEPT !.ft = t]] >>] :
             t \in Trees \ DOMAIN md.trees, r \in (GateEls([md EXCEPT !.trees = [Z |-> [label |-> ""]]], one))}
     \cup {[op |-> "macro", cs |-> << [op |-> "remove", id |-> i], [op |-> "rmft", v |-> md.els[i].ft] >>] : i \in OfKind(md, "gate")}

Init == /\ m = Initial[INIT] /\ stack = << >> /\ pos = 0 /\ hist = << m >> /\ log = << >>
Push(c) ==
  LET r == Redo(m, New(c)) IN
  /\ m' = r[1]
  /\ stack' = SubSeq(stack, 1, pos) \o << r[2] >>
  /\ pos' = pos + 1
  /\ hist' = SubSeq(hist, 1, pos + 1) \o << Apply(m, c) >>
  /\ log' = log \o << c >>
DoUndo ==
  /\ pos > 0
  /\ LET r == Undo(m, stack[pos]) IN m' = r[1] /\ stack' = [stack EXCEPT ![pos] = r[2]]
  /\ pos' = pos - 1 /\ UNCHANGED hist /\ log' = log \o << [op |-> "undo"] >>
DoRedo ==
  /\ pos < Len(stack)
  /\ LET r == Redo(m, stack[pos + 1]) IN m' = r[1] /\ stack' = [stack EXCEPT ![pos + 1] = r[2]]
  /\ pos' = pos + 1 /\ UNCHANGED hist /\ log' = log \o << [op |-> "redo"] >>

\* Random requests: a kind, then its arguments.
Pick(S) == RandomElement(S)
SomeArgs(md, n) == LET k == IF n > Cardinality(Ids(md)) THEN Cardinality(Ids(md)) ELSE n
                       t == SetToSeq(RandomSubset(k, Ids(md)))
                   IN IF Pick(BOOLEAN) THEN t ELSE Reverse(t)
SomeForm(md) ==
  LET c == Pick(Conns)
      n == IF c \in {"not", "null"} THEN 1 ELSE IF c = "xor" THEN 2 ELSE IF c = "atleast" THEN Pick({3, 4}) ELSE Pick({2, 3})
  IN << c, IF c = "atleast" THEN n - 1 ELSE 0, SomeArgs(md, n) >>
SomeEl(md, id, ft) ==
  LET k == Pick({"basic", "basic", "house", "gate"}) IN
  IF k = "basic" THEN Basic(id, Pick(Labels), Pick({"Basic", "Undeveloped"}), Pick(Exprs))
  ELSE IF k = "house" \/ ft = "" THEN House(id, Pick(Labels), Pick(BOOLEAN))
  ELSE LET f == SomeForm(md) IN Gate(id, Pick(Labels), f[1], f[2], f[3], ft)
Candidate(md, k) ==
  LET i == Pick(Ids(md))
      j == Pick(Names)
      f == SomeForm(md)
      t == Pick(Trees)
      old == IF DOMAIN md.trees = {} THEN "" ELSE Pick(DOMAIN md.trees)
      x == Pick(Exprs)
      bs == IF OfKind(md, "basic") = {} THEN Ids(md) ELSE OfKind(md, "basic")
      gs == IF OfKind(md, "gate") = {} THEN Ids(md) ELSE OfKind(md, "gate")
      hs == IF OfKind(md, "house") = {} THEN Ids(md) ELSE OfKind(md, "house")
      free == {y \in Ids(md) : Parents(md, y) = {}}
      v == Pick(IF free = {} THEN Ids(md) ELSE free)
  IN CASE k = "label" -> [op |-> k, id |-> i, v |-> Pick(Labels)]
       [] k = "rename" -> [op |-> k, id |-> i, v |-> j]
       [] k = "flavor" -> [op |-> k, id |-> Pick(bs), v |-> Pick({"Basic", "Undeveloped"})]
       [] k = "expr" -> [op |-> k, id |-> Pick(bs), v |-> x[1], p |-> x[2]]
       [] k = "state" -> [op |-> k, id |-> Pick(hs), v |-> Pick(BOOLEAN)]
       [] k = "formula" -> [op |-> k, id |-> Pick(gs), conn |-> f[1], min |-> f[2], args |-> f[3]]
       [] k = "add" -> [op |-> k, el |-> SomeEl(md, j, old)]
       [] k = "remove" -> [op |-> k, id |-> v]
       [] k = "type" -> [op |-> k, el |-> SomeEl(md, i, IF md.els[i].ft # "" THEN md.els[i].ft ELSE old)]
       [] k = "addft" -> [op |-> k, v |-> t]
       [] k = "rmft" -> [op |-> k, v |-> t]
       [] k = "mname" -> [op |-> k, v |-> Pick({"", "M", "N"})]
       [] k = "addtree" -> [op |-> "macro", cs |-> << [op |-> "addft", v |-> t], [op |-> "add", el |-> Gate(j, Pick(Labels), f[1], f[2], f[3], t)] >>]
       [] k = "rmtree" -> [op |-> "macro", cs |-> << [op |-> "remove", id |-> v], [op |-> "rmft", v |-> md.els[v].ft] >>]
KindSeq == << "label", "rename", "rename", "flavor", "expr", "state", "formula", "formula", "add", "add", "remove", "remove",
              "type", "type", "addft", "rmft", "mname", "addtree", "rmtree" >>
Requests == IF Random THEN IF Ids(m) = {} THEN {} ELSE {c \in {Candidate(m, KindSeq[Pick(DOMAIN KindSeq)]) : z \in 1..4} : Legal(m, c)}
            ELSE {c \in Commands(m) : Legal(m, c)}
Next == /\ Len(log) < LEN
        /\ \/ \E c \in Requests : Push(c)
           \/ DoUndo \/ DoRedo
        /\ Len(log') = LEN => PrintT("@HIST " \o ToJson(log'))
Spec == Init /\ [][Next]_vars

Sound == m = hist[pos + 1] /\ WellFormed(m)
\* Undoing everything restores the original; redoing everything restores the last model.
RECURSIVE Back(_, _, _), Forth(_, _, _)
Back(md, st, p) == IF p = 0 THEN md ELSE LET r == Undo(md, st[p]) IN Back(r[1], st, p - 1)
Forth(md, st, p) == IF p = Len(st) THEN md ELSE LET r == Redo(md, st[p + 1]) IN Forth(r[1], st, p + 1)
Restores == Back(m, stack, pos) = hist[1] /\ Forth(m, stack, pos) = hist[Len(hist)]
=============================================================================
