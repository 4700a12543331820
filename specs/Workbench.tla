------------------------------ MODULE Workbench ------------------------------
(* The editor's analyses: the settings dialog and what a run must show.
   Settings are [alg, pi, prob, imp, approx, order, time]; the state of their dialog is
   [alg, pi, prob, imp, box (approximations on), kind (the approximation chosen), order, time]. *)
EXTENDS Integers, Sequences

Algs == {"bdd", "zbdd", "mocus"}
Kinds == {"rare-event", "mcub"}
Initial == [alg |-> "bdd", pi |-> FALSE, prob |-> FALSE, imp |-> FALSE, approx |-> "none", order |-> 20, time |-> "8760"]

\* Settings an analysis can be made with.
Valid(s) == /\ s.pi => s.alg = "bdd" /\ s.approx = "none"
            /\ s.alg # "bdd" => s.approx # "none"
            /\ s.imp => s.prob

Open(s) == [alg |-> s.alg, pi |-> s.pi, prob |-> s.prob, imp |-> s.imp, box |-> s.approx # "none",
            kind |-> IF s.approx = "none" THEN "rare-event" ELSE s.approx, order |-> s.order, time |-> s.time]
Accepted(d) == [alg |-> d.alg, pi |-> d.pi, prob |-> d.prob, imp |-> d.imp, approx |-> IF d.box THEN d.kind ELSE "none",
                order |-> d.order, time |-> d.time]

Gestures == {"bdd", "zbdd", "mocus", "primeImplicants", "probability", "importance", "approx", "rareEvent", "mcub"}
\* One click.  Only the algorithm without approximations finds prime implicants and exact probabilities; importance needs probabilities.
Click(d, k) ==
  CASE k = "bdd" -> [d EXCEPT !.alg = "bdd"]
    [] k \in {"zbdd", "mocus"} -> IF d.alg # "bdd" THEN [d EXCEPT !.alg = k] ELSE [d EXCEPT !.alg = k, !.box = TRUE, !.pi = FALSE]
    [] k = "primeImplicants" -> IF d.pi THEN [d EXCEPT !.pi = FALSE] ELSE [d EXCEPT !.pi = TRUE, !.alg = "bdd", !.box = FALSE]
    [] k = "probability" -> IF d.prob THEN [d EXCEPT !.prob = FALSE, !.imp = FALSE] ELSE [d EXCEPT !.prob = TRUE]
    [] k = "importance" -> IF d.imp THEN [d EXCEPT !.imp = FALSE] ELSE [d EXCEPT !.imp = TRUE, !.prob = TRUE]
    [] k = "approx" -> IF d.box THEN [d EXCEPT !.box = FALSE, !.alg = "bdd"] ELSE [d EXCEPT !.box = TRUE, !.pi = FALSE]
    [] k = "rareEvent" -> IF d.box THEN [d EXCEPT !.kind = "rare-event"] ELSE d
    [] k = "mcub" -> IF d.box THEN [d EXCEPT !.kind = "mcub"] ELSE d
    [] OTHER -> d
\* The orders the box takes.
Orders == 0 .. 99
After(d, g) == CASE g.k = "order" -> [d EXCEPT !.order = IF g.n > 99 THEN 99 ELSE IF g.n < 0 THEN 0 ELSE g.n]
                 [] g.k = "time" -> [d EXCEPT !.time = g.x]
                 [] OTHER -> Click(d, g.k)
=============================================================================
