------------------------------ MODULE Generator -------------------------------
(* The fault-tree generator: which parameters are admissible and what a model generated for them may look like.

   Parameters p (numbers are decimal strings): b, h, c, g number of basic events, house events, CCF groups and gates (0: not
   given), a average number of gate arguments, w weights of the connectives, cb, cg share of common basic events and gates per
   gate, pb, pg their average numbers of parents, minp, maxp bounds of probabilities, ft and root names (ftc, rootc: the classes of their
   characters: l letter, d digit, _ , -, o other), bad: options whose value is no (finite) number.

   Model m: ft; gates, in the order of the file, [n, o, k, a] with arguments [t, n, u] (t: gate, basic, house, or not for a nested
   complement of the gate or basic event n, u its type); ccf [n, model, mem, p, f] with factors [l, v]; basic [n, p]; house [n, s];
   odd: whatever is none of these. *)
EXTENDS Integers, Sequences, FiniteSets, Rat, TLC

Ops == << "and", "or", "atleast", "not", "xor" >>
V(x) == RDec(x)
N(x) == RFloorInt(RDec(x))
In(x, lo, hi) == RLe(V(lo), V(x)) /\ RLe(V(x), V(hi))
Weight(p, i) == IF i \in DOMAIN p.w THEN V(p.w[i]) ELSE RZero
Weights(p) == [i \in 1..5 |-> Weight(p, i)]

Legal(cs) == /\ cs # << >> /\ cs[1] \in {"l", "_"} /\ cs[Len(cs)] # "-"
             /\ \A i \in DOMAIN cs : cs[i] # "o" /\ (cs[i] = "-" => cs[i + 1] # "-")
\* names the generator itself gives: a letter B, G or H and digits
Taken(p) == /\ Len(p.rootc) > 1 /\ \A i \in 2..Len(p.rootc) : p.rootc[i] = "d"
            /\ p.rootfirst \in {"B", "G", "H"}

\* basic events per gate, if the number of gates is free
Ratio(p) == RSub(RMul(V(p.a), RAdd(RSub(ROne, V(p.cg)), RDiv(V(p.cg), V(p.pg)))), ROne)
\* the least share of common arguments that lets g gates have b basic events and a arguments on average
MinCommon(p) == RSub(ROne, RDiv(RAdd(V(p.b), V(p.g)), RMul(V(p.a), V(p.g))))

\* What is wrong with the parameters: a sequence of <<wrong, on the border>>.
Faults(p) ==
  IF p.bad # << >> THEN << << TRUE, FALSE >> >>
  ELSE LET plain == << ~Legal(p.ftc), ~Legal(p.rootc), Legal(p.rootc) /\ Taken(p),
                       ~In(p.minp, "0", "1"), ~In(p.maxp, "0", "1"), RLt(V(p.maxp), V(p.minp)),
                       ~(RLt(RZero, V(p.cb)) /\ RLe(V(p.cb), RDec("0.9"))), ~(RLt(RZero, V(p.cg)) /\ RLe(V(p.cg), RDec("0.9"))),
                       ~In(p.pb, "2", "100"), ~In(p.pg, "2", "100"),
                       RLt(V(p.a), RTwo), N(p.b) < 1, N(p.h) < 0, N(p.h) >= N(p.b), N(p.c) < 0,
                       Len(p.w) \notin 1..5, \E i \in DOMAIN p.w : RLt(V(p.w[i]), RZero),
                       REq(RSum([i \in 1..3 |-> Weight(p, i)]), RZero),
                       N(p.g) < 0,
                       N(p.b) < (IF RLt(RZero, Weight(p, 3)) THEN 3 ELSE 2) >>
           wrong == \E i \in DOMAIN plain : plain[i]
       IN IF wrong THEN << << TRUE, FALSE >> >>
          ELSE << << FALSE, FALSE >>,
                  << RLt(RDiv(V(p.b), V(p.a)), V(p.c)), RClose(RDiv(V(p.b), V(p.a)), V(p.c), RZero, RDec("1e-9")) >> >>
               \o (IF N(p.g) = 0
                   THEN << << RLt(Ratio(p), RDec("0.01")), RClose(Ratio(p), RDec("0.01"), RZero, RDec("1e-9")) >> >>
                   ELSE << << RLe(RMul(V(p.g), RSub(V(p.a), ROne)), V(p.b)), RClose(RMul(V(p.g), RSub(V(p.a), ROne)), V(p.b), RZero, RDec("1e-9")) >>,
                           << RLe(RDec("0.9"), MinCommon(p)), RClose(RDec("0.9"), MinCommon(p), RZero, RDec("1e-9")) >> >>)
Undecided(p) == LET f == Faults(p) IN ~(\E i \in DOMAIN f : f[i][1] /\ ~f[i][2]) /\ (\E i \in DOMAIN f : f[i][2])
Admissible(p) == LET f == Faults(p) IN ~\E i \in DOMAIN f : f[i][1]

-------------------------------------------------------------------------------
Elems(q) == {q[i] : i \in DOMAIN q}
Distinct(q) == Cardinality(Elems(q)) = Len(q)
GateNames(m) == [i \in DOMAIN m.gates |-> m.gates[i].n]
Members(m) == UNION {Elems(m.ccf[i].mem) : i \in DOMAIN m.ccf}
BasicNames(m) == {m.basic[i].n : i \in DOMAIN m.basic} \cup Members(m)
HouseNames(m) == {m.house[i].n : i \in DOMAIN m.house}
NumMembers(m) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Len(m.ccf[i].mem) + S(i - 1) IN S(Len(m.ccf))
\* every name is given once, but for members of groups, which only the group defines
Named(m) == LET g == Elems(GateNames(m)) IN
  /\ Cardinality(g) = Len(m.gates) /\ Cardinality(BasicNames(m)) = Len(m.basic) + NumMembers(m)
  /\ Cardinality(HouseNames(m)) = Len(m.house) /\ Distinct([i \in DOMAIN m.ccf |-> m.ccf[i].n])
  /\ g \cap BasicNames(m) = {} /\ g \cap HouseNames(m) = {} /\ BasicNames(m) \cap HouseNames(m) = {}

Refers(m) == \E gs \in {Elems(GateNames(m))} : \E bs \in {BasicNames(m)} : \E hs \in {HouseNames(m)} :
  \A i \in DOMAIN m.gates : \A j \in DOMAIN m.gates[i].a :
    LET x == m.gates[i].a[j] IN x.n \in (IF x.t = "gate" \/ (x.t = "not" /\ x.u = "gate") THEN gs
                                         ELSE IF x.t = "basic" \/ (x.t = "not" /\ x.u = "basic") THEN bs
                                         ELSE IF x.t = "house" THEN hs ELSE {})
\* gates come before their arguments (so there is no cycle), the root first
IsGate(x) == x.t = "gate" \/ (x.t = "not" /\ x.u = "gate")
\* no gate of lo..hi is an argument of itself or of a later one (in halves, for the sake of speed)
GateArgs(g) == {g.a[j].n : j \in {j \in DOMAIN g.a : IsGate(g.a[j])}}
Sorted(m) ==
  LET RECURSIVE S(_, _)
      \* <<sorted, names, arguments>>
      S(lo, hi) == IF lo = hi THEN << m.gates[lo].n \notin GateArgs(m.gates[lo]), {m.gates[lo].n}, GateArgs(m.gates[lo]) >>
                   ELSE \* a set of one element binds its value once
                        LET mid == (lo + hi) \div 2 IN
                        CHOOSE r \in {<< x[1] /\ y[1] /\ x[2] \cap y[3] = {}, x[2] \cup y[2], x[3] \cup y[3] >> : x \in {S(lo, mid)}, y \in {S(mid + 1, hi)}} : TRUE
  IN m.gates # << >> /\ S(1, Len(m.gates))[1]
ArgNames(m) == UNION {{m.gates[i].a[j].n : j \in DOMAIN m.gates[i].a} : i \in DOMAIN m.gates}
\* one top gate, and every event takes part
OneTop(m, root) == /\ m.gates # << >> /\ m.gates[1].n = root
                   /\ (Elems(GateNames(m)) \cup BasicNames(m) \cup HouseNames(m)) \ ArgNames(m) = {root}

FormulaOk(g) ==
  /\ Distinct([j \in DOMAIN g.a |-> g.a[j].n])
  /\ CASE g.o \in {"and", "or"} -> Len(g.a) >= 2 [] g.o = "xor" -> Len(g.a) = 2 [] g.o = "not" -> Len(g.a) = 1
       [] g.o = "atleast" -> g.k \in 2..(Len(g.a) - 1) [] OTHER -> FALSE
Formulas(m) == \A i \in DOMAIN m.gates : FormulaOk(m.gates[i])
\* only connectives of positive weight; the top event is neither not nor xor
Connectives(p, m) ==
  \E ok \in {{Ops[i] : i \in {i \in 1..5 : RLt(RZero, Weight(p, i))}}} :
    /\ \A i \in DOMAIN m.gates : m.gates[i].o \in ok /\ \A j \in DOMAIN m.gates[i].a : m.gates[i].a[j].t = "not" => "not" \in ok
    /\ m.gates # << >> => m.gates[1].o \notin {"not", "xor"}
Probabilities(p, m) == /\ \A i \in DOMAIN m.basic : In(m.basic[i].p, p.minp, p.maxp)
                       /\ \A i \in DOMAIN m.ccf : In(m.ccf[i].p, p.minp, p.maxp)
                       /\ \A i \in DOMAIN m.house : m.house[i].s \in {"true", "false"}
Groups(m) == \A i \in DOMAIN m.ccf : LET c == m.ccf[i] IN
  /\ c.model = "MGL" /\ Len(c.mem) >= 2 /\ Len(c.f) \in 1..(Len(c.mem) - 1)
  /\ \A j \in DOMAIN c.f : c.f[j].l = j + 1 /\ In(c.f[j].v, "0", "1")
GatesWith(m, o) == Cardinality({i \in DOMAIN m.gates : m.gates[i].o = o})

-------------------------------------------------------------------------------
(* Figures of the summary *)
\* <<arguments, arguments of several gates>>
Shared(m) ==
  LET RECURSIVE S(_, _)
      S(lo, hi) == IF lo = hi THEN << {m.gates[lo].a[j].n : j \in DOMAIN m.gates[lo].a}, {} >>
                   ELSE LET mid == (lo + hi) \div 2 IN
                        CHOOSE r \in {<< x[1] \cup y[1], x[2] \cup y[2] \cup (x[1] \cap y[1]) >> : x \in {S(lo, mid)}, y \in {S(mid + 1, hi)}} : TRUE
  IN S(1, Len(m.gates))
Total(m, t) == LET RECURSIVE S(_, _)
                   S(lo, hi) == IF lo = hi THEN Cardinality({j \in DOMAIN m.gates[lo].a : m.gates[lo].a[j].t = t})
                                ELSE S(lo, (lo + hi) \div 2) + S((lo + hi) \div 2 + 1, hi)
               IN S(1, Len(m.gates))
ArgsOf(g, t) == {j \in DOMAIN g.a : g.a[j].t = t}
RTotal(m, F(_)) == RSum([i \in DOMAIN m.gates |-> F(m.gates[i])])
Mean(s, n) == IF n = 0 THEN RZero ELSE RDiv(s, RInt(n))
Near(x, y) == RClose(V(x), y, RDec("1e-9"), RDec("1e-12"))
\* what is wrong with the figures s given for model m
SummaryOk(m, s) ==
  LET bn == BasicNames(m)
      gn == Elems(GateNames(m))
      ng == Len(m.gates)
  IN \E sh \in {Shared(m)} : \E cb \in {sh[2] \cap bn} : \E cg \in {sh[2] \cap gn} :
       LET share(t, c) == Mean(RTotal(m, LAMBDA g : LET a == ArgsOf(g, t) IN
                               IF a = {} THEN RZero ELSE RFrac(Cardinality({j \in a : g.a[j].n \in c}), Cardinality(a))),
                               Cardinality({i \in DOMAIN m.gates : ArgsOf(m.gates[i], t) # {}}))
       IN /\ Near(s.b, RInt(Cardinality(bn))) /\ Near(s.h, RInt(Len(m.house))) /\ Near(s.c, RInt(Len(m.ccf))) /\ Near(s.g, RInt(ng))
          /\ Near(s.ncb, RInt(Cardinality(cb))) /\ Near(s.ncg, RInt(Cardinality(cg)))
          /\ Near(s.ratio, RFrac(Cardinality(bn), ng))
          /\ Near(s.a, Mean(RTotal(m, LAMBDA g : RInt(Len(g.a))), ng))
          /\ Near(s.cb, share("basic", cb)) /\ Near(s.cg, share("gate", cg))
          /\ Near(s.frac, Mean(RTotal(m, LAMBDA g : RFrac(Cardinality(ArgsOf(g, "basic")), Cardinality(ArgsOf(g, "basic") \cup ArgsOf(g, "gate")))), ng))
          /\ (cb # {} => Near(s.pb, RFrac(Total(m, "basic") - Cardinality((sh[1] \cap bn) \ cb), Cardinality(cb))))
          /\ (cg # {} => Near(s.pg, RFrac(Total(m, "gate") - Cardinality((sh[1] \cap gn) \ cg), Cardinality(cg))))
OpCounts(m, s) == \A i \in 1..5 : Near(s[Ops[i]], RInt(GatesWith(m, Ops[i])))

-------------------------------------------------------------------------------
(* Other formats state the same model *)
GateMap(m) == LET RECURSIVE S(_, _)
                  S(lo, hi) == IF lo = hi THEN m.gates[lo].n :> m.gates[lo] ELSE S(lo, (lo + hi) \div 2) @@ S((lo + hi) \div 2 + 1, hi)
              IN S(1, Len(m.gates))
\* argument x of a formula with connective o, complements of gates written out
Flat(gm, o, x) == IF x.t = "not" THEN << "not", x.n >>
                  ELSE IF o # "not" /\ x.n \in DOMAIN gm /\ gm[x.n].o = "not" THEN << "not", gm[x.n].a[1].n >> ELSE << "", x.n >>
FlatArgs(gm, g) == << g.o, g.k, Len(g.a), {Flat(gm, g.o, g.a[j]) : j \in DOMAIN g.a} >>
SameNested(m, n) ==
  /\ m.ft = n.ft /\ m.ccf = n.ccf /\ m.basic = n.basic /\ m.house = n.house
  /\ \E gm \in {GateMap(m)} : \E gn \in {GateMap(n)} :
       /\ DOMAIN gn \subseteq DOMAIN gm
       /\ \A x \in DOMAIN gm \ DOMAIN gn : gm[x].o = "not"
       /\ \A x \in DOMAIN gn : FlatArgs(gm, gm[x]) = FlatArgs(gn, gn[x])
SameAralia(m, n) ==
  /\ m.ft = n.ft /\ Elems(m.house) = Elems(n.house) /\ Len(m.house) = Len(n.house)
  /\ {n.basic[i].n : i \in DOMAIN n.basic} = BasicNames(m) /\ Len(n.basic) = Cardinality(BasicNames(m))
  /\ Elems(m.basic) \subseteq Elems(n.basic)
  /\ Len(m.gates) = Len(n.gates)
  /\ \E gn \in {GateMap(n)} :
       \A i \in DOMAIN m.gates : LET g == m.gates[i] IN
         /\ g.n \in DOMAIN gn /\ gn[g.n].o = g.o /\ gn[g.n].k = g.k /\ Len(gn[g.n].a) = Len(g.a)
         /\ {gn[g.n].a[j].n : j \in DOMAIN g.a} = {g.a[j].n : j \in DOMAIN g.a}
-------------------------------------------------------------------------------
(* Large models show the requested mix: a gate's connective is drawn with its weight, whatever came before (|count - n w| within
   seven standard deviations); the average number of arguments is the one requested, within a tenth, unless few gates
   are free to have more. *)
Mix(p, m) ==
  \E t \in {RSum(Weights(p))} : \A i \in 1..5 :
    LET w == RDiv(Weight(p, i), t)
        n == RInt(Len(m.gates))
        d == RSub(RAbs(RSub(RInt(GatesWith(m, Ops[i])), RMul(n, w))), RTwo)
    IN RLe(d, RZero) \/ RLe(RMul(d, d), RMul(RInt(49), RMul(n, RMul(w, RSub(ROne, w)))))
AverageArgs(p, m) == RLt(RMul(RTwo, RSum([i \in 1..3 |-> Weight(p, i)])), RSum(Weights(p))) \/ RClose(Mean(RTotal(m, LAMBDA g : RInt(Len(g.a) - Cardinality(ArgsOf(g, "house")))), Len(m.gates)), V(p.a), RDec("0.1"), RZero)
===============================================================================
