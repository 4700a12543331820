------------------------------- MODULE System -------------------------------
(* A whole analysis: fault trees, initiating events with event trees, alignments with phases, substitutions.
   Beyond the parts described in FaultTree, EventTree and Subst a model M has
     ft    : the fault tree every gate belongs to (a sequence of numbers)
     ie    : sequence of initiating events [n: name, t: event tree or 0]
     al    : sequence of alignments, each a sequence of phases [n: name, fr: time fraction, set: sequence of <<house event or 0, state>>]
     subs  : sequence of substitutions *)
EXTENDS EventTree, Subst, Products

\* ---- alignments --------------------------------------------------------------------------------------
PhaseH(H, ph) == FoldLeft(LAMBDA h, s : [h EXCEPT ![s[1]] = s[2]], H, ph.set)
\* The settings under which everything is analysed: one without alignments, otherwise one per phase.
Contexts(M) ==
  IF M.al = << >> THEN << [al |-> 0, ph |-> 0, fr |-> ROne, H |-> M.H] >>
  ELSE FoldLeft(LAMBDA acc, a : acc \o [p \in DOMAIN M.al[a] |->
                   [al |-> a, ph |-> p, fr |-> RDec(M.al[a][p].fr), H |-> PhaseH(M.H, M.al[a][p])]],
                << >>, [a \in DOMAIN M.al |-> a])

AlignmentLegal(a) ==
  LET off == RAbs(RSub(RSum([p \in DOMAIN a |-> RDec(a[p].fr)]), ROne))
  IN IF \E p \in DOMAIN a : RLe(RDec(a[p].fr), RZero) \/ RLt(ROne, RDec(a[p].fr)) THEN "F"
     ELSE IF \E p, q \in DOMAIN a : p # q /\ a[p].n = a[q].n THEN "F"
     ELSE IF \E p \in DOMAIN a : \E j \in DOMAIN a[p].set : a[p].set[j][1] = 0 THEN "F"
     ELSE IF RLt(off, "9e-5") THEN "T" ELSE IF RLt("1.1e-4", off) THEN "F" ELSE "U"

Legal(M, approx) ==
  IF ~SubsLegal(M.subs, approx) \/ \E a \in DOMAIN M.al : AlignmentLegal(M.al[a]) = "F" THEN "F"
  ELSE IF \E a \in DOMAIN M.al : AlignmentLegal(M.al[a]) = "U" THEN "U" ELSE "T"

\* ---- what is analysed ----------------------------------------------------------------------------------
\* Gates no other gate of the same fault tree uses.
Tops(M) == {j \in DOMAIN M.G : \A i \in DOMAIN M.G : M.ft[i] = M.ft[j] =>
              \A k \in DOMAIN M.G[i].a : M.G[i].a[k] # 100 + j /\ M.G[i].a[k] # -(100 + j)}
WithTree(M) == {i \in DOMAIN M.ie : M.ie[i].t # 0}

\* What context c must report: the functions of all gates and, per initiating event with a tree, its sequences.
Sequences(M, c, i, mt, xt) == Reached(Paths([M |-> M, mt |-> mt, xt |-> xt, ini |-> M.ie[i].n], M.ie[i].t, c.H))
Meaning(M, c, mt) ==
  LET t == RMul(mt, c.fr)
  IN [fns |-> GateFns(M, c.H), mt |-> t, ie |-> [i \in WithTree(M) |-> Sequences(M, c, i, t, t)]]
=============================================================================
