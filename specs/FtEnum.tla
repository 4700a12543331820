------------------------------- MODULE FtEnum -------------------------------
(* Enumeration of all fault trees of a small shape, gate by gate; every complete tree is printed (as the
   model record of FaultTree.tla) for replay into the implementation.  Size and AllOps choose the shape:
   two events; MaxG gates, each new gate using the previous one. *)
EXTENDS FaultTree, TLC, Json, IOUtils
CONSTANTS N, MaxG, AllOps   \* AllOps: all connectives and complements; otherwise the coherent ones
VARIABLE G
vars == << G >>

Signed(S) == S \cup (IF AllOps THEN {-x : x \in S} ELSE {})
Events == 1 .. N
\* Sequences of distinct (by magnitude) arguments; unordered connectives use increasing magnitudes.
Pairs(S) == {s \in Signed(S) \X Signed(S) : (IF s[1] < 0 THEN -s[1] ELSE s[1]) < (IF s[2] < 0 THEN -s[2] ELSE s[2])}
Triples(S) == {s \in Signed(S) \X Signed(S) \X Signed(S) :
                 LET A(x) == IF x < 0 THEN -x ELSE x IN A(s[1]) < A(s[2]) /\ A(s[2]) < A(s[3])}
Args == LET S == Events \cup (IF G = << >> THEN {} ELSE {100 + Len(G)} \cup (IF Len(G) > 1 THEN {100 + Len(G) - 1} ELSE {}))
        IN S
Uses(s) == G = << >> \/ \E j \in DOMAIN s : s[j] = 100 + Len(G) \/ s[j] = -(100 + Len(G))
Gate(o, k, m, a) == [o |-> o, k |-> k, m |-> m, a |-> a]

NewGates ==
  LET P == {s \in Pairs(Args) : Uses(s)}
      T == {s \in Triples(Args) : Uses(s)}
      one == {<<x>> : x \in Args}
      rev(s) == << s[2], s[1] >>
  IN {Gate(o, 0, 0, s) : o \in {"and", "or"} \cup (IF AllOps THEN {"nand", "nor"} ELSE {}), s \in P \cup T}
     \cup {Gate("atleast", 2, 0, s) : s \in T}
     \cup (IF ~AllOps THEN {} ELSE
             {Gate(o, 0, 0, s) : o \in {"xor", "iff", "imply"}, s \in P}
             \cup {Gate("imply", 0, 0, rev(s)) : s \in P}
             \cup {Gate(o, 0, 0, s) : o \in {"not", "null"}, s \in {q \in one : Uses(q)}}
             \cup {Gate("cardinality", km[1], km[2], s) : s \in P, km \in {<<0, 1>>, <<1, 1>>, <<0, 0>>, <<2, 2>>}})

Init == G = << >>
Next == /\ Len(G) < MaxG
        /\ \E g \in NewGates : G' = Append(G, g)
        /\ Len(G') = MaxG => PrintT("@MODEL " \o ToJson([N |-> N, H |-> << >>, G |-> G']))
Spec == Init /\ [][Next]_vars
\* Every enumerated tree has one top gate.
OneRoot == G = << >> \/ Len(G) \in Roots([N |-> N, H |-> << >>, G |-> G])
=============================================================================
