------------------------------- MODULE Schema -------------------------------
(* Validity of an XML tree for a schema: derivatives of RELAX NG patterns.
   Tree: [t: tag, a: sequence of [n, v, k], x: text, k: lexical types of the text, c: children]; k holds the lexical
   types of a value, such as "double".  Pattern: [k: "no" | "e" (empty) | "text" | "data" | "value" | "attr" | "elem" |
   "group" | "choice" | "star", ...]. *)
EXTENDS Rat, Sequences, SequencesExt, FiniteSets

No == [k |-> "no"]
Empty == [k |-> "e"]

\* Constructors that drop what cannot matter.
Group(ps) ==
  IF \E j \in DOMAIN ps : ps[j].k = "no" THEN No
  ELSE LET q == SelectSeq(ps, LAMBDA p : p.k # "e")
       IN IF Len(q) = 0 THEN Empty ELSE IF Len(q) = 1 THEN q[1] ELSE [k |-> "group", ps |-> q]
Choice(ps) ==
  LET q == SelectSeq(ps, LAMBDA p : p.k # "no")
  IN IF Len(q) = 0 THEN No ELSE IF Len(q) = 1 THEN q[1] ELSE [k |-> "choice", ps |-> q]

RECURSIVE Nullable(_)
Nullable(p) ==
  CASE p.k \in {"e", "star", "text"} -> TRUE
    [] p.k = "group" -> \A j \in DOMAIN p.ps : Nullable(p.ps[j])
    [] p.k = "choice" -> \E j \in DOMAIN p.ps : Nullable(p.ps[j])
    [] OTHER -> FALSE

\* A value v with lexical types ks against a pattern for values.
RECURSIVE Fits(_, _, _)
Fits(p, v, ks) ==
  CASE p.k = "text" -> TRUE
    [] p.k = "e" -> v = ""
    [] p.k = "value" -> v = p.v
    [] p.k = "data" -> /\ p.type = "string" \/ \E j \in DOMAIN ks : ks[j] = p.type
                       /\ \A j \in DOMAIN p.params :
                            LET q == p.params[j]
                            IN \E i \in DOMAIN ks : ks[i] = "number" /\
                               CASE q.n = "minInclusive" -> RLe(RDec(q.v), RDec(v))
                                 [] q.n = "maxInclusive" -> RLe(RDec(v), RDec(q.v))
                                 [] q.n = "minExclusive" -> ~RLe(RDec(v), RDec(q.v))
                                 [] q.n = "maxExclusive" -> ~RLe(RDec(q.v), RDec(v))
                                 [] OTHER -> FALSE
    [] p.k = "choice" -> \E j \in DOMAIN p.ps : Fits(p.ps[j], v, ks)
    [] p.k = "group" -> \A j \in DOMAIN p.ps : Fits(p.ps[j], v, ks)
    [] OTHER -> FALSE

\* What is left of a pattern once an attribute has been seen.
RECURSIVE Attribute(_, _)
Attribute(p, a) ==
  CASE p.k = "attr" -> IF p.n = a.n /\ Fits(p.p, a.v, a.k) THEN Empty ELSE No
    [] p.k = "choice" -> Choice([j \in DOMAIN p.ps |-> Attribute(p.ps[j], a)])
    [] p.k = "group" -> Choice([j \in DOMAIN p.ps |->
                          LET d == Attribute(p.ps[j], a) IN IF d.k = "no" THEN No ELSE Group([p.ps EXCEPT ![j] = d])])
    [] p.k = "star" -> LET d == Attribute(p.p, a) IN IF d.k = "no" THEN No ELSE Group(<< d, p >>)
    [] OTHER -> No

\* ... and when there are no more attributes.
RECURSIVE Close(_)
Close(p) ==
  CASE p.k = "attr" -> No
    [] p.k = "choice" -> Choice([j \in DOMAIN p.ps |-> Close(p.ps[j])])
    [] p.k = "group" -> Group([j \in DOMAIN p.ps |-> Close(p.ps[j])])
    [] p.k = "star" -> LET c == Close(p.p) IN IF c.k = "no" THEN Empty ELSE [k |-> "star", p |-> c]
    [] OTHER -> p

RECURSIVE Child(_, _), ValidElement(_, _)
\* What is left of a pattern once a child has been seen.
Child(p, x) ==
  CASE p.k = "elem" -> IF p.n = x.t /\ ValidElement(p.p, x) THEN Empty ELSE No
    [] p.k = "choice" -> Choice([j \in DOMAIN p.ps |-> Child(p.ps[j], x)])
    [] p.k = "group" ->
         LET first == Child(p.ps[1], x)
             rest == Group(Tail(p.ps))
             here == IF first.k = "no" THEN No ELSE Group(<< first, rest >>)
         IN IF Nullable(p.ps[1]) THEN Choice(<< here, Child(rest, x) >>) ELSE here
    [] p.k = "star" -> LET d == Child(p.p, x) IN IF d.k = "no" THEN No ELSE Group(<< d, p >>)
    [] OTHER -> No
ValidElement(p, x) ==
  LET q == Close(FoldLeft(LAMBDA r, a : IF r.k = "no" THEN No ELSE Attribute(r, a), p, x.a))
  IN IF x.c = << >> THEN (IF x.x = "" THEN Nullable(q) \/ Fits(q, "", << >>) ELSE Fits(q, x.x, x.k))
     ELSE x.x = "" /\ Nullable(FoldLeft(LAMBDA r, y : IF r.k = "no" THEN No ELSE Child(r, y), q, x.c))

\* The deepest elements that are not valid for any element pattern of their name (to say what is wrong).
Valid(schema, x) == schema.k = "elem" /\ schema.n = x.t /\ ValidElement(schema.p, x)
=============================================================================
