------------------------------ MODULE Settings ------------------------------
(* The analysis settings as a state machine.  Every action is one request for one setting; a request that is
   out of range or contradicts earlier requests is refused and changes nothing.  The settings of a run are
   those reached from the defaults by the requests of the project file followed by those of the command line. *)
EXTENDS Rat, Integers, Sequences, FiniteSets, SequencesExt

Algorithms == {"bdd", "zbdd", "mocus"}
Approximations == {"none", "rare-event", "mcub"}
Default ==
  [algorithm |-> "bdd", approximation |-> "none", prime |-> FALSE, limit |-> "20", cutoff |-> "1e-8",
   trials |-> "1000", quantiles |-> "20", bins |-> "20", seed |-> "0", mission |-> "8760", step |-> "0",
   probability |-> FALSE, sil |-> FALSE, importance |-> FALSE, uncertainty |-> FALSE, ccf |-> FALSE]
Flags == {"prime", "probability", "sil", "importance", "uncertainty", "ccf"}
Counts == {"limit", "trials", "quantiles", "bins", "seed"}
Reals == {"cutoff", "mission", "step"}

\* A value of a numeric setting is a decimal literal (or "nan", "inf": no number at all).
Number(v) == v \notin {"nan", "inf", "-inf"}
InRange(k, v) ==
  /\ Number(v)
  /\ RLe(IF k \in {"trials", "quantiles", "bins"} THEN ROne ELSE RZero, RDec(v))
  /\ k = "cutoff" => RLe(RDec(v), ROne)

\* Whether a request is granted in state s ...
Granted(s, k, v) ==
  CASE k = "algorithm" -> v \in Algorithms
    [] k = "approximation" -> v \in Approximations /\ (v # "none" => ~s.prime)
    [] k = "prime" -> v => s.algorithm = "bdd"
    [] k = "sil" -> v => ~REq(RDec(s.step), RZero)
    [] k = "step" -> InRange(k, v) /\ (REq(RDec(v), RZero) => ~s.sil)
    [] k \in Counts \cup Reals -> InRange(k, v)
    [] OTHER -> TRUE

\* ... and the state it leads to.
Effect(s, k, v) ==
  CASE k = "algorithm" ->
         IF v = "bdd" THEN [s EXCEPT !.algorithm = v, !.approximation = "none"]
         ELSE [s EXCEPT !.algorithm = v, !.prime = FALSE, !.approximation = IF @ = "none" THEN "rare-event" ELSE @]
    [] k = "prime" -> [s EXCEPT !.prime = v, !.approximation = IF v THEN "none" ELSE @]
    [] k \in {"importance", "uncertainty", "sil"} -> [s EXCEPT ![k] = v, !.probability = @ \/ v]
    [] k = "probability" -> [s EXCEPT ![k] = IF s.importance \/ s.uncertainty \/ s.sil THEN @ ELSE v]
    [] OTHER -> [s EXCEPT ![k] = v]

Request(s, r) == IF Granted(s, r[1], r[2]) THEN Effect(s, r[1], r[2]) ELSE s
\* A run is refused if any of its requests is.
Run(s0, reqs) ==
  FoldLeft(LAMBDA acc, r : IF ~acc.ok \/ ~Granted(acc.s, r[1], r[2]) THEN [acc EXCEPT !.ok = FALSE]
                           ELSE [ok |-> TRUE, s |-> Effect(acc.s, r[1], r[2])], [ok |-> TRUE, s |-> s0], reqs)

\* What no history of requests may break.
Consistent(s) ==
  /\ s.algorithm \in Algorithms /\ s.approximation \in Approximations
  /\ s.prime => s.algorithm = "bdd" /\ s.approximation = "none"
  /\ s.sil => ~REq(RDec(s.step), RZero)
  /\ s.importance \/ s.uncertainty \/ s.sil => s.probability
  /\ \A k \in Counts \cup Reals : InRange(k, s[k])

\* ---- a whole run: requests of the project file (p) and of the command line (c), functions from the settings
\* they mention to values.  The order in which options are written has no influence: requests are made in this order.
ProjectOrder == << "algorithm", "prime", "approximation", "limit", "cutoff", "mission", "step", "trials", "quantiles",
                   "bins", "seed", "probability", "importance", "uncertainty", "ccf", "sil" >>
CommandOrder == << "algorithm", "prime", "approximation", "step", "sil", "probability", "importance", "uncertainty", "ccf",
                   "seed", "limit", "cutoff", "mission", "trials", "quantiles", "bins" >>
Ordered(f, order) == LET ks == SelectSeq(order, LAMBDA k : k \in DOMAIN f) IN [j \in DOMAIN ks |-> << ks[j], f[ks[j]] >>]
Effective(p, c) == Run(Default, Ordered(p, ProjectOrder) \o Ordered(c, CommandOrder))
=============================================================================
