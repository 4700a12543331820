-------------------------------- MODULE Ccf ---------------------------------
(* Common-cause groups.  A model with groups is a fault-tree model (FaultTree) with probability expressions
   P (one per basic event), parameters par, and
     groups : sequence of [model, mem, q, f]
       mem : sequence of the basic events that are members (their P is not used)
       q   : expression of the group distribution
       f   : sequence of [lv, x]: factor expressions with their level (0: not given)
   Everything a group adds is a set of common-cause events: one per level k and subset of k members. *)
EXTENDS FaultTree, ExprDomain

LOCAL K(n) == [o |-> "c", v |-> ToString(n)]
LOCAL Q1(n, d) == [o |-> "c", v |-> RFrac(n, d)]
LOCAL OpX(o, a) == [o |-> o, a |-> a]

RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE (Choose(n - 1, k - 1) * n) \div k

MinLevel(g) == CASE g.model = "beta-factor" -> Len(g.mem) [] g.model = "MGL" -> 2 [] OTHER -> 1

\* The levels of the factors, in document order: a factor without a level follows the one before.
Levels(g) ==
  FoldLeft(LAMBDA acc, f : Append(acc, IF f.lv # 0 THEN f.lv ELSE IF acc = << >> THEN MinLevel(g) ELSE acc[Len(acc)] + 1),
           << >>, g.f)
MaxLevel(g) == LET L == Levels(g) IN CHOOSE k \in {L[j] : j \in DOMAIN L} : \A j \in DOMAIN L : L[j] <= k
\* Group structure: at least two different members, every level once, none missing, within the group.
WellFormed(g) ==
  LET L == Levels(g) IN
  /\ Len(g.mem) >= 2 /\ \A i, j \in DOMAIN g.mem : i # j => g.mem[i] # g.mem[j]
  /\ g.f # << >>
  /\ \A j \in DOMAIN L : L[j] >= MinLevel(g) /\ L[j] <= Len(g.mem)
  /\ \A i, j \in DOMAIN L : i # j => L[i] # L[j]
  /\ {L[j] : j \in DOMAIN L} = MinLevel(g) .. MaxLevel(g)
\* The factor of a level.
FactorOf(g, k) == g.f[CHOOSE j \in DOMAIN g.f : Levels(g)[j] = k].x

\* Whether the numbers of a group are legal; env for the analysis of expressions.
Numbers3(g, env) ==
  \* (\E binds the analysed expressions once)
  CHOOSE t \in {"T", "F", "U"} :
    \E A \in {[q |-> Analyse(g.q, env), f |-> [j \in DOMAIN g.f |-> Analyse(g.f[j].x, env)]]} :
      LET prob(r) == IF r.st = "T" THEN Probability3(r) ELSE r.st
          sum(s) == RSum([j \in DOMAIN A.f |-> s[j]])
          one(s) == LET d == RAbs(RSub(s, ROne))
                    IN IF RLt(d, "9e-5") THEN "T" ELSE IF RLt("1.1e-4", d) THEN "F" ELSE "U"
      IN t = All3(<< prob(A.q), All3([j \in DOMAIN A.f |-> prob(A.f[j])]),
                     IF \E j \in DOMAIN A.f : A.f[j].st # "T" THEN "T"
                     ELSE CASE g.model = "phi-factor" ->
                              All3(<< one(sum([j \in DOMAIN A.f |-> A.f[j].v])), one(sum([j \in DOMAIN A.f |-> A.f[j].lo])),
                                      one(sum([j \in DOMAIN A.f |-> A.f[j].hi])) >>)
                            [] g.model = "alpha-factor" -> Any3([j \in DOMAIN A.f |-> Lt3(RZero, A.f[j].v, A.f[j].ex)])
                            [] OTHER -> "T" >>)

\* Levels at which common-cause events exist, and the probability of each event of a level.
EventLevels(g) == IF g.model = "beta-factor" THEN {1, Len(g.mem)} ELSE 1 .. MaxLevel(g)
LevelExpr(g, k) ==
  LET m == Len(g.mem)
      share == Q1(1, Choose(m - 1, k - 1))
      rho(i) == FactorOf(g, i)
      top == MaxLevel(g)
  IN CASE g.model = "beta-factor" ->
            IF k = 1 THEN OpX("mul", << OpX("sub", << K(1), rho(m) >>), g.q >>) ELSE OpX("mul", << rho(m), g.q >>)
       [] g.model = "MGL" ->
            OpX("mul", << share, g.q >> \o [i \in 1 .. k - 1 |-> rho(i + 1)]
                       \o (IF k < top THEN << OpX("sub", << K(1), rho(k + 1) >>) >> ELSE << >>))
       [] g.model = "alpha-factor" ->
            OpX("mul", << K(k), share, g.q,
                          OpX("div", << rho(k), OpX("add", << K(0) >> \o [j \in 1 .. top |-> OpX("mul", << K(j), rho(j) >>)]) >>) >>)
       [] g.model = "phi-factor" -> OpX("mul", << rho(k), g.q >>)

\* The variables of the expanded model: <<0, {b}>> for a basic event, <<g, S>> for a common-cause event.
InGroup(M, b) == \E j \in DOMAIN M.groups : \E k \in DOMAIN M.groups[j].mem : M.groups[j].mem[k] = b
Members(g) == {g.mem[k] : k \in DOMAIN g.mem}
Variables(M, ccf) ==
  IF ~ccf THEN {<< 0, {b} >> : b \in 1 .. M.N}
  ELSE {<< 0, {b} >> : b \in {c \in 1 .. M.N : ~InGroup(M, c)}}
       \cup UNION {{<< j, S >> : S \in {T \in SUBSET Members(M.groups[j]) : Cardinality(T) \in EventLevels(M.groups[j])}} : j \in DOMAIN M.groups}

GroupOf(M, b) == CHOOSE j \in DOMAIN M.groups : b \in Members(M.groups[j])
VarExpr(M, v) ==
  IF v[1] = 0
  THEN LET b == CHOOSE c \in v[2] : TRUE IN IF InGroup(M, b) THEN M.groups[GroupOf(M, b)].q ELSE M.P[b]
  ELSE LevelExpr(M.groups[v[1]], Cardinality(v[2]))

\* The function of basic event b over the variables V (a sequence listing Variables(M, ccf)).
EventFn(b, V) == {p \in Points(Len(V)) : \E i \in DOMAIN V : Has(p, i) /\ b \in V[i][2]}
ExtGateFns(M, V) ==
  LET n == Len(V)
      B == [b \in 1 .. M.N |-> EventFn(b, V)]
      arg(a, env) ==
        LET c == IF a < 0 THEN -a ELSE a
            f == IF c > 100 THEN ArgFn(c, env, M.H, n) ELSE B[c]
        IN IF a < 0 THEN Neg(f, n) ELSE f
  IN FoldLeft(LAMBDA env, g : Append(env, Connect(g.o, g.k, g.m, [j \in DOMAIN g.a |-> arg(g.a[j], env)], n)), << >>, M.G)
=============================================================================
