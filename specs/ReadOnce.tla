------------------------------ MODULE ReadOnce ------------------------------
(* Fault trees in which every event and every gate is used once and no gate is constant, of any size: what they mean is computed from the
   arguments of a gate, which depend on different events, without looking at combinations of events.
   Format of Present.tla: N events, gates G in an order in which arguments precede their users, the last is the top;
   a reference is +-i (event i) or +-(N + j) (gate j).  That this agrees with FaultTree.tla is checked by
   ReadOnceLaws.tla. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Rat

LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
LOCAL Idx(n) == [j \in 1 .. n |-> j]

\* Numbers of true arguments for which a gate is true; n arguments.
Counts(g) ==
  LET n == Len(g.a) IN
  CASE g.o = "and" -> {n}                    [] g.o = "nand" -> 0 .. n - 1
    [] g.o = "or" -> 1 .. n                  [] g.o = "nor" -> {0}
    [] g.o = "atleast" -> g.k .. n           [] g.o = "cardinality" -> g.k .. g.m
    [] g.o = "xor" -> {1}                    [] g.o = "iff" -> {0, 2}
    [] g.o = "not" -> {0}                    [] g.o = "null" -> {1}
    [] g.o = "imply" -> {1, 2}
\* An implication is a disjunction with the first argument complemented.
Args(g) == IF g.o = "imply" THEN << -g.a[1], g.a[2] >> ELSE g.a

\* Values of all gates, given those of events (Lit), of complements (Neg) and of a gate from its arguments (Of).
Fold(N, G, Lit(_), Neg(_), Of(_, _)) ==
  FoldLeft(LAMBDA acc, g :
             LET ar == Args(g)
                 arg(x) == LET v == IF Abs(x) <= N THEN Lit(Abs(x)) ELSE acc[Abs(x) - N] IN IF x < 0 THEN Neg(v) ELSE v
                 xs == TLCEval([j \in DOMAIN ar |-> arg(ar[j])])
             IN Append(acc, TLCEval(Of(g, xs))),
           << >>, G)

Join(A, B, lim) == {c \in {a \cup b : a \in A, b \in B} : Cardinality(c) <= lim}
\* Unions of one set of each of k of the families Fs, up to size lim
Choose(Fs, k, lim) ==
  LET step(E, F) == TLCEval([i \in 0 .. k |-> E[i] \cup (IF i = 0 THEN {} ELSE Join(E[i - 1], F, lim))])
  IN FoldLeft(step, [i \in 0 .. k |-> IF i = 0 THEN {{}} ELSE {}], Fs)[k]

(* Cut sets.  d: the value when no event occurs; f: the minimal sets of events, of at most lim events, whose occurrence
   (and no others') gives the other value. *)
CutOf(lim, g, xs) ==
  LET V == Counts(g)
      n == Len(xs)
      up == SelectSeq(xs, LAMBDA x : x.d)             \* true unless events occur
      down == SelectSeq(xs, LAMBDA x : ~x.d)
      c == Len(up)
      val(k) == k \in V
      other(S) == {s \in S : val(s) # val(c)}
      fall == other(0 .. c)  rise == other(c .. n)
      famOf(s) == [j \in DOMAIN s |-> s[j].f]
      less == IF fall = {} THEN {} ELSE Choose(famOf(up), c - (CHOOSE x \in fall : \A y \in fall : y <= x), lim)
      more == IF rise = {} THEN {} ELSE Choose(famOf(down), (CHOOSE x \in rise : \A y \in rise : x <= y) - c, lim)
  IN [d |-> val(c), f |-> less \cup more]
TreeCuts(N, G, lim) ==
  LET t == Fold(N, G, LAMBDA i : [d |-> FALSE, f |-> IF lim >= 1 THEN {{i}} ELSE {}],
                LAMBDA v : [v EXCEPT !.d = ~v.d], LAMBDA g, xs : CutOf(lim, g, xs))[Len(G)]
  IN IF t.d THEN {{}} ELSE t.f

(* Prime implicants, as sets of signed events.  t: of the value true, u: of the value false.  A product makes a symmetric
   gate true when the numbers of true arguments that it leaves possible form an interval of those that make it true. *)
Intervals(V, n) == {<< a, b >> \in (0 .. n) \X (0 .. n) : a <= b /\ a .. b \subseteq V /\ a - 1 \notin V /\ b + 1 \notin V}
\* p of the arguments true, q others false
Force(xs, p, q, lim) ==
  LET step(E, x) == TLCEval([pq \in (0 .. p) \X (0 .. q) |->
                      E[pq] \cup (IF pq[1] = 0 THEN {} ELSE Join(E[<< pq[1] - 1, pq[2] >>], x.t, lim))
                            \cup (IF pq[2] = 0 THEN {} ELSE Join(E[<< pq[1], pq[2] - 1 >>], x.u, lim))])
  IN FoldLeft(step, [pq \in (0 .. p) \X (0 .. q) |-> IF pq = << 0, 0 >> THEN {{}} ELSE {}], xs)[<< p, q >>]
PrimesOf(lim, g, xs) ==
  LET n == Len(xs)
      of(V) == UNION {Force(xs, ab[1], n - ab[2], lim) : ab \in Intervals(V, n)}
  IN [t |-> of(Counts(g)), u |-> of((0 .. n) \ Counts(g))]
TreePrimes(N, G, lim) ==
  Fold(N, G, LAMBDA i : IF lim >= 1 THEN [t |-> {{i}}, u |-> {{-i}}] ELSE [t |-> {}, u |-> {}],
       LAMBDA v : [t |-> v.u, u |-> v.t], LAMBDA g, xs : PrimesOf(lim, g, xs))[Len(G)].t

(* The probability of the top event: arguments are independent. *)
LOCAL Short(x) == RRound(x, 60)
ProbOf(g, xs) ==
  LET n == Len(xs)
      step(D, p) == TLCEval([k \in 0 .. n |-> Short(RAdd(RMul(D[k], RSub(ROne, p)), IF k = 0 THEN RZero ELSE RMul(D[k - 1], p)))])
      D == FoldLeft(step, [k \in 0 .. n |-> IF k = 0 THEN ROne ELSE RZero], xs)
  IN RSum([k \in 1 .. n + 1 |-> IF k - 1 \in Counts(g) THEN D[k - 1] ELSE RZero])
TreeProb(N, G, p) ==
  Fold(N, G, LAMBDA i : p[i], LAMBDA v : RSub(ROne, v), LAMBDA g, xs : ProbOf(g, xs))[Len(G)]
=============================================================================
