------------------------------ MODULE Products ------------------------------
(* What a report of products must state.  r: p (sequence of cubes), np, ne (stated numbers of products and
   events), dist (stated distribution), ord (stated orders), warn (warning about a constant top event). *)
EXTENDS FaultTree

LOCAL Rng(s) == {s[j] : j \in DOMAIN s}
ListConds(r, expected, N) ==
  LET got == {<<x[1], x[2]>> : x \in Rng(r.p)}
      unity == Unity \in expected
      events == UNION {Vars(t[1], N) \cup Vars(t[2], N) : t \in expected}
      dist == [o \in 1 .. N |-> Cardinality({t \in expected : (IF t = Unity THEN 1 ELSE Order(t, N)) = o})]
      top == IF expected = {} THEN 0 ELSE CHOOSE o \in 1 .. N : dist[o] > 0 /\ \A q \in o + 1 .. N : dist[q] = 0
  IN << << expected \subseteq got, "missing products" >>,
        << got \subseteq expected, "unexpected products" >>,
        << Len(r.p) = Cardinality(got), "repeated products" >>,
        << r.np = Cardinality(expected), "product count" >>,
        << r.ne = Cardinality(events), "event count" >>,
        << r.dist = [o \in 1 .. top |-> dist[o]], "distribution" >>,
        << \A j \in DOMAIN r.p : r.ord[j] = (IF r.p[j] = Unity THEN 1 ELSE Order(r.p[j], N)), "order" >>,
        << r.warn = (IF unity THEN "The set is UNITY/Base." ELSE IF expected = {} THEN "The set is NULL/Empty." ELSE ""),
           "unity/null warning" >> >>
=============================================================================
