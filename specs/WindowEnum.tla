------------------------------ MODULE WindowEnum ------------------------------
(* The dialogs that can be reached with a few gestures, and what accepting them does: every document stays sound.
   The documents to begin with are read from the file named by DOCS (as JSON); the accepted dialogs are printed as
   sessions (sequences of commands) for the real window. *)
EXTENDS Window, TLC, Json, IOUtils

LEN == atoi(IOEnv.LEN)       \* gestures of a dialog
CMDS == atoi(IOEnv.CMDS)     \* dialogs of a session
Docs == JsonDeserialize(IOEnv.DOCS)

VARIABLES doc, m, open, id, d, gs, log
vars == << doc, m, open, id, d, gs, log >>
View == << doc, m, open, id, d, Len(gs), Len(log) >>

G(k, v, n) == [k |-> k, v |-> v, n |-> n, words |-> v, num |-> -1, cv |-> ""]
N(k, v, n) == [k |-> k, v |-> v, n |-> 0, words |-> v, num |-> n, cv |-> v]
Alphabet ==
  {G("name", v, 0) : v \in {"x", "n-"} \cup Ids(m)} \cup {G("type", "", n) : n \in 0..3} \cup {G("state", "", 1), G("label", "L", 0)}
  \cup {N("const", "0.5", 500000), N("const", "1.5", 1500000), N("rate", "3", 3000000)}
  \cup {G("hasExpr", "", 0), G("hasExpr", "", 1), G("etype", "", 0), G("etype", "", 1)}
  \cup {G("conn", "", n) : n \in {0, 2, 3, 4}} \cup {G("min", "", 3), G("rmarg", "", -1)}
  \cup {G("addarg", v, 0) : v \in {"x", "y", "n-"} \cup Ids(m)} \cup {G("ft", "T", 0), G("ft", "F", 0)}

Init == \E k \in 1..Len(Docs) : /\ doc = k /\ m = WithTops(Abs(Docs[k])) /\ open = FALSE /\ id = "" /\ d = Fresh /\ gs = << >> /\ log = << >>
Trees(i) == IF i = "" \/ TreesOf(m, i) = {} THEN {""} ELSE TreesOf(m, i)
OpenIt == /\ ~open /\ Len(log) < CMDS
          /\ \E i \in Ids(m) \cup {""} : \E t \in Trees(i) :
               id' = i /\ d' = IF i = "" THEN Fresh ELSE Opened(m, i, t)
          /\ open' = TRUE /\ gs' = << >> /\ UNCHANGED << doc, m, log >>
Act == /\ open /\ Len(gs) < LEN
       /\ \E g \in Alphabet : LET n == Gesture(m, id, d, g) IN n # d /\ d' = n /\ gs' = Append(gs, g)
       /\ UNCHANGED << doc, m, open, id, log >>
Command == IF id = "" THEN [e |-> "add", kind |-> "", id |-> "", g |-> gs, ok |-> TRUE] ELSE [e |-> "edit", kind |-> m.els[id].kind, id |-> id, g |-> gs, ok |-> TRUE]
Take == /\ open /\ Acceptable(m, id, d)
        /\ m' = Accept(m, id, d) /\ open' = FALSE /\ log' = Append(log, Command)
        /\ PrintT("@HIST " \o ToJson([doc |-> doc, log |-> log']))
        /\ id' = "" /\ d' = Fresh /\ gs' = << >> /\ UNCHANGED doc
Drop == /\ ~open /\ Len(log) < CMDS
        /\ \E i \in Ids(m) : CanRemove(m, i) /\ m' = Removed(m, i)
                            /\ log' = Append(log, [e |-> "remove", kind |-> m.els[i].kind, id |-> i, g |-> << >>, ok |-> TRUE])
        /\ UNCHANGED << doc, open, id, d, gs >>
Next == OpenIt \/ Act \/ Take \/ Drop
Spec == Init /\ [][Next]_vars

SoundDoc == Sound(m)
\* Accepting an untouched dialog changes nothing; what can be accepted describes what the next dialog of the event shows.
Untouched == \A i \in Ids(m) : \A t \in Trees(i) : Acceptable(m, i, Opened(m, i, t)) /\ Accept(m, i, Opened(m, i, t)) = m
Shows == open /\ Acceptable(m, id, d) =>
  LET n == Accept(m, id, d) o == Opened(n, d.name.t, d.ft.t) IN
  /\ o.type = d.type /\ o.label = d.label /\ o.name = d.name
  /\ d.type = HouseT => o.state = d.state
  /\ InExpr(d) => o.hasExpr = d.hasExpr /\ (d.hasExpr => o.etype = d.etype /\ (d.etype = 0 => o.const = d.const) /\ (d.etype = 1 => o.rate = d.rate))
  /\ d.type = GateT => o.conn = d.conn /\ o.args = d.args /\ (ConnAt[d.conn] = "atleast" => o.min = d.min)
=============================================================================
