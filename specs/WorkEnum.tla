------------------------------ MODULE WorkEnum -------------------------------
(* Every sequence of clicks in the settings dialog, accepted and opened again. *)
EXTENDS Workbench, TLC, Json

VARIABLES set, d, gs, log     \* settings; the dialog, or << >>; clicks since it was opened; accepted dialogs
vars == << set, d, gs, log >>
\* Every state of the dialog once before and once after it was accepted and opened again.
View == << d, log = << >> >>
Init == set = Initial /\ d = << Open(Initial) >> /\ gs = << >> /\ log = << >>
Do(k) == /\ d' = << Click(d[1], k) >> /\ gs' = Append(gs, k) /\ UNCHANGED << set, log >>
         /\ PrintT("@HIST " \o ToJson(Append(log, gs')))
Accept == /\ log = << >> /\ gs # << >>
          /\ set' = Accepted(d[1]) /\ d' = << Open(Accepted(d[1])) >> /\ log' = << gs >> /\ gs' = << >>
Next == (\E k \in Gestures : Do(k)) \/ Accept
Spec == Init /\ [][Next]_vars

Sound == Valid(set) /\ Valid(Accepted(d[1]))
\* Opening what was accepted shows it.
Kept == Accepted(Open(set)) = set
\* A click does what it says, and a second click on a box takes it back.
On(x, k) == CASE k \in Algs -> x.alg = k [] k = "primeImplicants" -> x.pi [] k = "probability" -> x.prob [] k = "importance" -> x.imp
              [] k = "approx" -> x.box [] k = "rareEvent" -> x.kind = "rare-event" [] k = "mcub" -> x.kind = "mcub"
Obeyed == \A k \in Gestures :
  LET x == Click(d[1], k) IN
  CASE k \in Algs -> On(x, k)
    [] k \in {"primeImplicants", "probability", "importance", "approx"} -> On(x, k) # On(d[1], k)
    [] OTHER -> d[1].box => On(x, k)
=============================================================================
