------------------------------- MODULE FtLaws -------------------------------
(* The definitions of BoolFn.tla against first principles, for every Boolean function of N variables:
   one state per function. *)
EXTENDS BoolFn
CONSTANT N
VARIABLE f
Init == f \in SUBSET Points(N)
Next == UNCHANGED f

Cubes == {c \in Points(N) \X Points(N) : (c[1] & c[2]) = 0}
CubeSet(c) == {p \in Points(N) : Sub(c[1], p) /\ (c[2] & p) = 0}
Implicant(c) == CubeSet(c) \subseteq f
Shorter(c) == {d \in Cubes : d # c /\ Sub(d[1], c[1]) /\ Sub(d[2], c[2])}
TruePI == {c \in Cubes : Implicant(c) /\ \A d \in Shorter(c) : ~Implicant(d)}
TrueMCS == {p \in f : \A q \in f : Sub(q, p) => q = p}

PIExact == PrimeImplicants(f, N) = TruePI
MCSExact == MCS(f, N) = TrueMCS
\* The prime implicants cover the function, and the cut sets of a coherent function are its prime implicants.
Cover == UNION {CubeSet(c) : c \in TruePI} = f
Coherent == Monotone(f, N) => TruePI = {<<p, 0>> : p \in TrueMCS}
\* Minimal cut sets are the minimal positive parts of the prime implicants.
Positive == MCS(f, N) = Minimal({c[1] : c \in TruePI}, N)
Shannon == \A i \in 1 .. N :
             f = {p \in Points(N) : IF Has(p, i) THEN p \in Cofactor(f, i, TRUE, N) ELSE p \in Cofactor(f, i, FALSE, N)}
=============================================================================
