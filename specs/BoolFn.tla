------------------------------- MODULE BoolFn -------------------------------
(* Boolean functions of N variables as the set of their satisfying points.  A point is the set of
   variables that are true, written as a bit mask 0 .. 2^N-1 (variable i is bit i-1). *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, SequencesExt

P2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536 >>
Bit(i) == P2[i]                               \* the mask of variable i
Full(N) == P2[N + 1] - 1
Points(N) == 0 .. Full(N)
Has(p, i) == (p & P2[i]) # 0
Sub(p, q) == (p & q) = p                      \* p \subseteq q as sets of variables
Vars(p, N) == {i \in 1 .. N : Has(p, i)}
Size(p, N) == Cardinality(Vars(p, N))

VarFn(i, N) == {p \in Points(N) : Has(p, i)}
Neg(f, N) == Points(N) \ f
ConstFn(b, N) == IF b THEN Points(N) ELSE {}

\* The connectives of the input language; fs is a sequence of functions.
Connect(op, k, m, fs, N) ==
  LET cnt(p) == Cardinality({j \in DOMAIN fs : p \in fs[j]})
      all(p) == \A j \in DOMAIN fs : p \in fs[j]
      any(p) == \E j \in DOMAIN fs : p \in fs[j]
  IN CASE op = "and"     -> {p \in Points(N) : all(p)}
       [] op = "or"      -> {p \in Points(N) : any(p)}
       [] op = "not"     -> Neg(fs[1], N)
       [] op = "null"    -> fs[1]
       [] op = "nand"    -> {p \in Points(N) : ~all(p)}
       [] op = "nor"     -> {p \in Points(N) : ~any(p)}
       [] op = "xor"     -> {p \in Points(N) : (p \in fs[1]) # (p \in fs[2])}
       [] op = "iff"     -> {p \in Points(N) : (p \in fs[1]) = (p \in fs[2])}
       [] op = "imply"   -> {p \in Points(N) : (p \in fs[1]) => (p \in fs[2])}
       [] op = "atleast" -> {p \in Points(N) : cnt(p) >= k}
       [] op = "cardinality" -> {p \in Points(N) : cnt(p) >= k /\ cnt(p) <= m}

\* Cofactor: the points p such that p with variable i forced to b satisfies f.
Cofactor(f, i, b, N) ==
  IF b THEN {p \in Points(N) : (p | P2[i]) \in f}
       ELSE {p \in Points(N) : (IF Has(p, i) THEN p - P2[i] ELSE p) \in f}

Monotone(f, N) == \A i \in 1 .. N : \A p \in f : (p | P2[i]) \in f

\* Minimal elements (under inclusion) of a set of variable sets.
UpClosure(S, N) ==
  FoldLeft(LAMBDA U, i : U \cup {p \in Points(N) : Has(p, i) /\ (p - P2[i]) \in U}, S, [j \in 1 .. N |-> j])
Minimal(S, N) ==
  LET U == UpClosure(S, N)
  IN {p \in S : \A i \in 1 .. N : Has(p, i) => (p - P2[i]) \notin U}

\* Minimal cut sets: minimal sets of events that, occurring alone, make f true.
MCS(f, N) == Minimal(f, N)

\* Prime implicants: cubes <<pos, neg>> of pairwise disjoint masks.
\* Imp[c + 1] is, for the mask c of literals kept, the set of values v \subseteq c with cube(c, v) => f.
PrimeImplicants(f, N) ==
  LET full == Full(N)
      step(I, c) ==
        LET i == CHOOSE j \in 1 .. N : ~Has(c, j)
            up == I[full - (c + P2[i]) + 1]
        IN Append(I, {v \in up : ~Has(v, i) /\ (v + P2[i]) \in up})
      I == FoldLeft(step, << f >>, [j \in 1 .. full |-> full - j])
      At(c) == I[full - c + 1]
      prime(c, v) == \A i \in 1 .. N : Has(c, i) =>
                       (IF Has(v, i) THEN v - P2[i] ELSE v) \notin At(c - P2[i])
  IN UNION { { <<v, c - v>> : v \in {w \in At(c) : prime(c, w)} } : c \in Points(N) }

Order(t, N) == Size(t[1], N) + Size(t[2], N)
CubePoints(t, N) == {p \in Points(N) : Sub(t[1], p) /\ (t[2] & p) = 0}
=============================================================================
