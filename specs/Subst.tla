------------------------------- MODULE Subst --------------------------------
(* Substitutions.  A substitution is [h: [o, k, a], src: sequence of events, tgt: event, 900 (true) or -900 (false),
   type: declared traditional type or ""]. *)
EXTENDS FaultTree

Declarative(s) == s.src = << >>
LOCAL Args(s) == {s.h.a[j] : j \in DOMAIN s.h.a}
LOCAL Src(s) == {s.src[j] : j \in DOMAIN s.src}
LOCAL IsEvent(a) == a > 0 /\ a < 100

\* The "traditional" kind of a well-formed substitution.
Kind(s) ==
  LET exclusive == (s.h.o = "atleast" /\ s.h.k = 2) \/ (s.h.o = "and" /\ Len(s.h.a) = 2)
  IN IF Declarative(s)
     THEN IF s.tgt = -900 THEN (IF exclusive THEN "delete-terms" ELSE "none")
          ELSE IF s.h.o = "and" THEN "recovery-rule" ELSE "none"
     ELSE IF s.tgt = 900 \/ s.h.o \notin {"and", "null"} THEN "none"
          ELSE IF Len(s.src) = Len(s.h.a) THEN (IF Src(s) \subseteq Args(s) THEN "recovery-rule" ELSE "none")
          ELSE IF Len(s.src) = 1 /\ Src(s) \subseteq Args(s) THEN "exchange-event" ELSE "none"

WellFormedSub(s) ==
  /\ \A a \in Args(s) : IsEvent(a)                                            \* coherent, over basic events
  /\ Cardinality(Src(s)) = Len(s.src)
  /\ s.h.o \in (IF Declarative(s) THEN {"null", "and", "atleast", "or"} ELSE {"null", "and", "or"})
  /\ s.tgt # (IF Declarative(s) THEN 900 ELSE -900)
  /\ (s.type # "" => s.type = Kind(s))

\* Non-declarative substitutions must not interfere with each other.
NoConflict(subs) ==
  LET nd == {j \in DOMAIN subs : ~Declarative(subs[j])}
  IN \A i \in nd : \A j \in nd :
       /\ subs[i].tgt \notin Src(subs[j])
       /\ i # j => subs[i].tgt \notin Args(subs[j]) /\ Src(subs[i]) \cap Args(subs[j]) = {}

SubsLegal(subs, approx) ==
  /\ \A j \in DOMAIN subs : WellFormedSub(subs[j])
  /\ NoConflict(subs)
  /\ approx = "none" => \A j \in DOMAIN subs : Declarative(subs[j])

HypFn(s, N) == Connect(s.h.o, s.h.k, 0, [j \in DOMAIN s.h.a |-> VarFn(s.h.a[j], N)], N)
\* The runs declarative substitutions allow.
Allowed(subs, N) ==
  {p \in Points(N) : \A j \in DOMAIN subs : Declarative(subs[j]) =>
       (p \in HypFn(subs[j], N) => (subs[j].tgt > 0 /\ Has(p, subs[j].tgt)))}

\* Non-declarative substitutions replace the sources by the target in every product that satisfies the hypothesis.
LOCAL MaskOf(S) == LET RECURSIVE m(_) m(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN Bit(x) + m(T \ {x}) IN m(S)
Replace(p, subs, N) ==
  LET hit == {j \in DOMAIN subs : ~Declarative(subs[j]) /\ p \in HypFn(subs[j], N)}
      gone == UNION {Src(subs[j]) : j \in hit}
      new == {subs[j].tgt : j \in hit} \ {900}
  IN MaskOf((Vars(p, N) \ gone) \cup new)
SubstMCS(f, subs, N) ==
  LET base == MCS(f \cap Allowed(subs, N), N)
  IN IF \A j \in DOMAIN subs : Declarative(subs[j]) THEN base
     ELSE Minimal({Replace(p, subs, N) : p \in base}, N)
=============================================================================
