---------------------------- MODULE ReadOnceLaws ----------------------------
(* ReadOnce.tla agrees with FaultTree.tla on every tree of two gates (three with a single one on top) over N events. *)
EXTENDS ReadOnce, FaultTree
CONSTANT M
VARIABLES tree
Ops == {"and", "or", "nand", "nor", "xor", "iff", "imply", "atleast", "cardinality", "not", "null"}
Sizes(o) == IF o \in {"not", "null"} THEN {1} ELSE IF o \in {"xor", "iff", "imply"} THEN {2} ELSE IF o = "atleast" THEN {3} ELSE {2, 3}
Ks(o, n) == IF o = "atleast" THEN {<< k, 0 >> : k \in 2 .. n - 1} ELSE IF o = "cardinality" THEN {<< k, m >> \in (0 .. n) \X (0 .. n) : k <= m /\ m - k < n} ELSE {<< 0, 0 >>}
GatesOn(n, refs) == {[o |-> o, k |-> km[1], m |-> km[2], a |-> s] : o \in {x \in Ops : n \in Sizes(x)}, km \in (0 .. n) \X (0 .. n), s \in refs}
Ok(g) == << g.k, g.m >> \in Ks(g.o, Len(g.a))
Sign(s) == {[j \in DOMAIN s |-> s[j] * z[j]] : z \in [DOMAIN s -> {1, -1}]}
Trees(n, k) ==       \* lower gate over events 1..k, upper over the rest, with the lower first or last
  LET N == n
      low == {g \in GatesOn(k, Sign([j \in 1 .. k |-> j])) : Ok(g)}
      rest == [j \in 1 .. n - k |-> k + j]
      high == {g \in GatesOn(n - k + 1, Sign(<< N + 1 >> \o rest) \cup Sign(rest \o << N + 1 >>)) : Ok(g)}
  IN {[N |-> N, G |-> << a, b >>] : a \in low, b \in high}
Init == tree \in UNION {Trees(n, k) : n \in 1 .. M, k \in 1 .. 3} /\ Len(tree.G[1].a) <= tree.N
Next == UNCHANGED tree
TopFn(t) ==
  LET m == [N |-> t.N, H |-> << >>, G |-> [j \in DOMAIN t.G |->
              [t.G[j] EXCEPT !.a = [i \in DOMAIN @ |-> IF @[i] > t.N THEN 100 + @[i] - t.N ELSE IF -@[i] > t.N THEN @[i] + t.N - 100 ELSE @[i]]]]]
      fs == GateFns(m, m.H)
  IN fs[Len(fs)]
Cube(t) == Vars(t[1], tree.N) \cup {-v : v \in Vars(t[2], tree.N)}
P(v) == RFrac(v, 7)
Point(b) == RProd([v \in 1 .. tree.N |-> IF Has(b, v) THEN P(v) ELSE RSub(ROne, P(v))])
Agree ==
  \E top \in {TopFn(tree)} :
  \E cuts \in {{Vars(x, tree.N) : x \in MCS(top, tree.N)}}, primes \in {{Cube(x) : x \in PrimeImplicants(top, tree.N)}} :
    /\ \A lim \in 0 .. tree.N :
         /\ TreeCuts(tree.N, tree.G, lim) = {c \in cuts : Cardinality(c) <= lim}
         /\ TreePrimes(tree.N, tree.G, lim) = {c \in primes : Cardinality(c) <= lim}
    /\ RClose(TreeProb(tree.N, tree.G, [v \in 1 .. tree.N |-> P(v)]), RSum([j \in 1 .. Cardinality(top) |-> Point(SetToSeq(top)[j])]), "1e-50", "1e-50")
=============================================================================
