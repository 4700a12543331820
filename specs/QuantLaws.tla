----------------------------- MODULE QuantLaws ------------------------------
(* Laws of the quantitative definitions, for every Boolean function of N variables and every probability
   vector over a few values: what C05-C07 claim follows from the formulas the implementation is held to. *)
EXTENDS Quant, TLC
CONSTANT N
VARIABLES f, P
Values == {"0", "1/4", "4/5", "1"}
Init == f \in SUBSET Points(N) /\ P \in [1 .. N -> Values]
Next == UNCHANGED <<f, P>>

Weight(p) == RProd([i \in 1 .. N |-> IF Has(p, i) THEN P[i] ELSE RSub(ROne, P[i])])
Cuts == SetToSeq({<<p, 0>> : p \in MCS(f, N)})
Exact == Prob(f, N, P)
T(Q) == Prob(f, N, Q)
\* Shannon reduction is the sum over points.
Definition ==
  REq(RRound(Exact, 50), RRound(RSum(LET s == SetToSeq(f) IN [j \in DOMAIN s |-> Weight(s[j])]), 50))
Complement == RAdd(Exact, Prob(Neg(f, N), N, P)) = ROne
Bounded == RLe(RZero, Exact) /\ RLe(Exact, ROne)
\* Coherent: exact <= mcub <= rare event.
Ordering == Monotone(f, N) => /\ RLe(Exact, Total("mcub", f, Cuts, N, P))
                              /\ RLe(Total("mcub", f, Cuts, N, P), Total("rare-event", f, Cuts, N, P))
\* Importance: p mif is the share of the total that vanishes with the event; RAW and RRW agree with their
\* definitions as ratios of conditional probabilities; DIF is the conditional probability of the event.
Importance ==
  \A i \in 1 .. N :
    LET F == Factors(T, Exact, i, P)
        P1 == T([P EXCEPT ![i] = ROne])
        P0 == T([P EXCEPT ![i] = RZero])
        joint == Prob(f \cap VarFn(i, N), N, P)
    IN /\ F.left = P0
       /\ ~REq(Exact, RZero) =>
            /\ F.raw = RDiv(P1, Exact)
            /\ F.dif = RDiv(joint, Exact)
            /\ (~REq(P0, RZero) => F.rrw = RDiv(Exact, P0))
            /\ F.cif = RDiv(RSub(Exact, P0), Exact)
       /\ Monotone(f, N) => RLe(RZero, F.mif)
\* Contributions add up to one.
Contributions == LET s == SumProb(Cuts, N, P) IN
                 ~REq(s, RZero) => RSum([j \in DOMAIN Cuts |-> RDiv(CubeProb(Cuts[j], N, P), s)]) = ROne
=============================================================================
