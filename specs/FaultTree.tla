----------------------------- MODULE FaultTree ------------------------------
(* Meaning of a fault tree.  A model is a record
     N : number of basic events (variables 1..N)
     H : sequence of house-event states
     G : sequence of gates in some order in which arguments precede their users:
         [o |-> connective, k |-> min, m |-> max, a |-> sequence of arguments]
   An argument is +-i (basic event i), +-(100+j) (gate j), +-(500+h) (house event h),
   +-900 (the constant true); a negative number is the complement. *)
EXTENDS BoolFn

ArgFn(a, env, H, N) ==
  LET b == IF a < 0 THEN -a ELSE a
      f == IF b = 900 THEN Points(N)
           ELSE IF b > 500 THEN ConstFn(H[b - 500], N)
           ELSE IF b > 100 THEN env[b - 100]
           ELSE VarFn(b, N)
  IN IF a < 0 THEN Neg(f, N) ELSE f

\* The functions of all gates, in sequence.
GateFns(M, H) ==
  FoldLeft(LAMBDA env, g :
             Append(env, Connect(g.o, g.k, g.m, [j \in DOMAIN g.a |-> ArgFn(g.a[j], env, H, M.N)], M.N)),
           << >>, M.G)

\* Gates no other gate refers to.
Roots(M) == {j \in DOMAIN M.G : \A i \in DOMAIN M.G : \A k \in DOMAIN M.G[i].a :
               M.G[i].a[k] # 100 + j /\ M.G[i].a[k] # -(100 + j)}

Unity == <<0, 0>>
\* What a product analysis of function f must report: a set of cubes.
ProductsOf(f, N, pi, limit) ==
  LET all == IF pi THEN PrimeImplicants(f, N) ELSE {<<p, 0>> : p \in MCS(f, N)}
  IN {t \in all : Order(t, N) <= limit}
=============================================================================
