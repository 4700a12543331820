---------------------------- MODULE SettingsEnum ----------------------------
(* All histories of requests over a small set of values: the state space of Settings is explored exhaustively,
   and every step (request in a state) is printed so that the real settings can be driven through it. *)
EXTENDS Settings, TLC, Json

VARIABLE s
Values(k) ==
  CASE k = "algorithm" -> Algorithms \cup {"none"}
    [] k = "approximation" -> Approximations \cup {"exact"}
    [] k \in Flags -> BOOLEAN
    [] k = "step" -> {"0", "12.5", "-1"}
    [] k = "limit" -> {"20", "-1"}
    [] OTHER -> {}
Keys == Flags \cup {"algorithm", "approximation", "step", "limit"}

Init == s = Default
Next == \E k \in Keys : \E v \in Values(k) :
          /\ s' = Request(s, << k, v >>)
          /\ PrintT("@EDGE " \o ToJson(<< s, << k, v >>, s' >>))
Spec == Init /\ [][Next]_s

Inv == Consistent(s)
\* Requests are idempotent, and a refused request changes nothing.
Idempotent == \A k \in Keys : \A v \in Values(k) : LET t == Request(s, << k, v >>) IN Request(t, << k, v >>) = t
\* The order of independent requests has no influence: two granted requests of different analyses commute.
Free == {"importance", "uncertainty", "ccf", "limit"}
Commute == \A k \in Free : \A j \in Free : \A v \in Values(k) : \A w \in Values(j) :
             k # j => Request(Request(s, << k, v >>), << j, w >>) = Request(Request(s, << j, w >>), << k, v >>)
\* A command line that repeats what is already in force changes nothing, for flags and numbers.
Repeat == \A k \in (Flags \cup {"step", "limit"}) : Granted(s, k, s[k]) /\ Effect(s, k, s[k]) = s
=============================================================================
