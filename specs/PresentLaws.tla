----------------------------- MODULE PresentLaws ----------------------------
(* Every lawful rewriting keeps the meaning: checked for every gate of up to three arguments (basic events, one
   other gate) and every cluster the laws can relate it to. *)
EXTENDS Present
CONSTANT N
Ops == {"and", "or", "nand", "nor", "not", "xor", "atleast"}
Lits == {-3, -2, -1, 1, 2, 3}
Seqs(k, S) == {s \in [1 .. k -> S] : \A i, j \in 1 .. k : i # j => AbsV(s[i]) # AbsV(s[j])}
Gate(o, a) == [o |-> o, k |-> IF o = "atleast" THEN 2 ELSE 0, m |-> 0, a |-> a]
\* gate 1 is or(1, -2) or and(1, 3); gate 2 is the one rewritten
VARIABLES g1, old, c, inl
vars == << g1, old, c, inl >>
Own == N + 1          \* reference of gate 1
New == N + 3          \* reference of the new gate
GatesOf(S) == {Gate(o, a) : o \in {"and", "or", "nand", "nor", "xor"}, a \in Seqs(2, S)} \cup {Gate("not", a) : a \in Seqs(1, S)}
Big == {Gate(o, a) : o \in {"and", "or", "atleast"}, a \in {<<1, 2, 3>>, <<1, -2, 3>>, <<2, 3, Own>>, <<3, 1, Own>>}}
Init == /\ g1 \in {Gate("or", <<1, -2>>), Gate("and", <<1, 3>>)}
        /\ old \in GatesOf({1, -2, 3, Own}) \cup Big
        /\ inl \in {<< >>, << 1 >>}
        /\ c \in {<< x >> : x \in GatesOf({1, -1, 2, -2, 3, -3, Own, -Own}) \cup Big \cup {Gate(o, a) : o \in {"and", "or"}, a \in Seqs(3, {1, -2, 3, 2})}}
                 \cup {<< x, y >> : x \in GatesOf({1, -2, 3, Own}), y \in {Gate("not", << New >>)} \cup {Gate(o, << New, z >>) : o \in {"and", "or"}, z \in {1, -2, 3, Own}}}
                 \cup {<< g1, y >> : y \in GatesOf({1, -2, 3, New})}
Next == UNCHANGED vars
W == [g |-> 2, inl |-> inl, first |-> New, c |-> c]
Sound == Lawful(W, N, << g1, old >>) => SameMeaning(W, N, << g1, old >>)
=============================================================================
