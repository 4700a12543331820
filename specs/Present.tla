------------------------------- MODULE Present ------------------------------
(* Presentations of one model.  A model is a number N of basic events and a sequence G of gates in an order in
   which arguments precede their users.  A reference is a number: +-i (basic event i), +-(N + j) (gate j),
   +-True (the constant); negative numbers are complements.  A presentation renames elements, reorders and distributes
   definitions, and replaces definitions of gates by clusters of gates with the same local meaning.

   A rewriting is a record [g, inl, first, c]: the definition of gate g is replaced by the last gate of the cluster
   c, whose other gates are new gates numbered from reference `first`; inl lists gates (arguments preceding users)
   whose definitions may be used to justify it.  Gates nothing refers to any more are left out. *)
EXTENDS FaultTree

True == 1000000
AbsV(a) == IF a < 0 THEN -a ELSE a
ArgsOf(g) == {g.a[j] : j \in DOMAIN g.a}
Mentions(gs) == UNION {{AbsV(x) : x \in ArgsOf(gs[j])} : j \in DOMAIN gs}

\* The gates gs, whose own references are own[1], own[2], ..., as a model of FaultTree.tla over the variables ext.
Mini(gs, own, ext) ==
  LET num == [x \in ext |-> Cardinality({y \in ext : y <= x})]
      at(x) == CHOOSE j \in DOMAIN own : own[j] = x
      to(a) == LET b == AbsV(a)
                   n == IF b = True THEN 900 ELSE IF \E j \in DOMAIN own : own[j] = b THEN 100 + at(b) ELSE num[b]
               IN IF a < 0 THEN -n ELSE n
  IN [N |-> Cardinality(ext), H |-> << >>,
      G |-> [j \in DOMAIN gs |-> [gs[j] EXCEPT !.a = [k \in DOMAIN gs[j].a |-> to(gs[j].a[k])]]]]
FnOf(gs, own, ext) == LET M == Mini(gs, own, ext) fs == GateFns(M, M.H) IN fs[Len(fs)]

\* What a rewriting refers to outside of itself.
External(w, N, G) ==
  LET io == {N + w.inl[j] : j \in DOMAIN w.inl}
      inl == [j \in DOMAIN w.inl |-> G[w.inl[j]]]
      own == io \cup {N + w.g, True} \cup {w.first + j - 1 : j \in 1 .. Len(w.c) - 1}
  IN (Mentions(inl) \cup Mentions(w.c) \cup Mentions(<< G[w.g] >>)) \ own

\* Same meaning whatever the gates and events referred to mean.
SameMeaning(w, N, G) ==
  LET inl == [j \in DOMAIN w.inl |-> G[w.inl[j]]]
      io  == [j \in DOMAIN w.inl |-> N + w.inl[j]]
      ext == External(w, N, G)
  IN FnOf(Append(inl, G[w.g]), Append(io, N + w.g), ext)
       = FnOf(inl \o w.c, io \o [j \in DOMAIN w.c |-> IF j = Len(w.c) THEN N + w.g ELSE w.first + j - 1], ext)

\* Laws that hold for any number of arguments.
Dual == [and |-> "nor", or |-> "nand", nand |-> "or", nor |-> "and"]
Lawful(w, N, G) ==
  LET old == G[w.g]  c == w.c  n == Len(c)  new == c[n]
      same(x, y) == x.o = y.o /\ x.k = y.k /\ x.m = y.m
      distinct(g) == Cardinality(ArgsOf(g)) = Len(g.a)
  IN \/ /\ n = 1 /\ w.inl = << >> /\ same(old, new) /\ old.o # "imply" /\ Len(old.a) = Len(new.a)           \* commutation
        /\ distinct(old) /\ ArgsOf(old) = ArgsOf(new)
     \/ /\ n = 1 /\ w.inl = << >> /\ old.o \in DOMAIN Dual /\ new.o = Dual[old.o]                             \* de Morgan
        /\ {-x : x \in ArgsOf(old)} = ArgsOf(new)
     \/ /\ n = 2 /\ w.inl = << >> /\ old.o \in {"and", "or"} /\ new.o = old.o /\ c[1].o = old.o               \* association
        /\ w.first \in ArgsOf(new) /\ (ArgsOf(new) \ {w.first}) \cup ArgsOf(c[1]) = ArgsOf(old)
     \/ /\ n = 1 /\ Len(w.inl) = 1 /\ old.o \in {"and", "or"} /\ new.o = old.o /\ G[w.inl[1]].o = old.o       \* the same, inwards
        /\ N + w.inl[1] \in ArgsOf(old)
        /\ (ArgsOf(old) \ {N + w.inl[1]}) \cup ArgsOf(G[w.inl[1]]) = ArgsOf(new)
     \/ /\ n = 2 /\ Len(w.inl) = 1 /\ c[1] = G[w.inl[1]] /\ same(old, new)                                     \* copies
        /\ LET to(x) == IF x = N + w.inl[1] THEN w.first ELSE IF x = -(N + w.inl[1]) THEN -w.first ELSE x
           IN new.a = [j \in DOMAIN old.a |-> to(old.a[j])]
     \/ /\ n = 2 /\ w.inl = << >> /\ new.o = "not" /\ new.a = << w.first >>                                   \* negation outside
        /\ << old.o, c[1].o >> \in {<<"nand", "and">>, <<"nor", "or">>, <<"and", "nand">>, <<"or", "nor">>}
        /\ ArgsOf(old) = ArgsOf(c[1])

Wide == 8
Valid(w, N, G) ==
  IF Cardinality(External(w, N, G)) <= Wide THEN SameMeaning(w, N, G) ELSE Lawful(w, N, G)

\* The state of gate t when exactly the events of S occur.
Occurs(G, N, t, S) ==
  LET val(a, env) == LET b == AbsV(a)
                         v == IF b = True THEN TRUE ELSE IF b > N THEN env[b - N] ELSE b \in S
                     IN v = (a > 0)
      out(g, env) ==
        LET n == Cardinality({j \in DOMAIN g.a : val(g.a[j], env)})
        IN CASE g.o = "and"  -> n = Len(g.a)
             [] g.o = "or"   -> n > 0
             [] g.o = "nand" -> n # Len(g.a)
             [] g.o = "nor"  -> n = 0
             [] g.o = "not"  -> n = 0
             [] g.o = "null" -> n = 1
             [] g.o = "xor"  -> n = 1
             [] g.o = "iff"  -> n # 1
             [] g.o = "imply" -> val(g.a[1], env) => val(g.a[2], env)
             [] g.o = "atleast" -> n >= g.k
             [] g.o = "cardinality" -> n >= g.k /\ n <= g.m
  IN FoldLeft(LAMBDA env, g : Append(env, out(g, env)), << >>, G)[t]

\* A minimal cut set: it makes the gate true, and no set of fewer of its events does.
IsMcs(G, N, coherent, t, S) ==
  /\ Occurs(G, N, t, S)
  /\ \A R \in (IF coherent \/ Cardinality(S) > 4 THEN {S \ {x} : x \in S} ELSE SUBSET S \ {S}) :
        coherent \/ Cardinality(S) <= 4 => ~Occurs(G, N, t, R)
=============================================================================
