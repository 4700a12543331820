----------------------------- MODULE UncertLaws -----------------------------
(* Laws of the sampling process, over all histories of a small model: every trial draws all sources anew, a shared
   source takes one value per trial, and the summaries of every sequence of samples are consistent. *)
EXTENDS Uncertainty

CONSTANT Depth
Grid == << "0", "1/4", "1/2", "1" >>
W == << "1", "2", "0", "1" >>
\* e1 and e2 use parameter 1 (shared), e3 its own deviate; the top is e1 and (e2 or e3)
Shared == [N |-> 3, H |-> << >>, src |-> << [v |-> Grid, w |-> W], [v |-> << "0", "1/2" >>, w |-> << "1", "3" >>] >>,
           par |-> << >>, P |-> << [o |-> "par", n |-> 1], [o |-> "par", n |-> 1], [o |-> "par", n |-> 2] >>, ph |-> << >>, groups |-> << >>,
           G |-> << [o |-> "or", k |-> 0, m |-> 0, a |-> << 2, 3 >>], [o |-> "and", k |-> 0, m |-> 0, a |-> << 1, 101 >>] >>]
Fn == GateFns(Shared, << >>)[2]
V3 == AllVars(Shared)
Out(d) == Prob(Fn, 3, TrialProbs(Shared, V3, ROne, d))
Os == Outcomes(Shared, V3, ROne, "none", Fn, << >>)
\* the same with e1 and e2 in a beta-factor group of distribution p1 and factor p2
Grouped == [Shared EXCEPT !.groups = << [model |-> "beta-factor", mem |-> << 1, 2 >>, q |-> [o |-> "par", n |-> 1],
                                         f |-> << [lv |-> 0, x |-> [o |-> "par", n |-> 2]] >>] >>]
V4 == AllVars(Grouped)
Fn4 == FnsOf(Grouped, V4, << >>)[2]

VARIABLES xs, ds
vars == << xs, ds >>
Init == xs = << >> /\ ds = << >>
Trial == /\ Len(xs) < Depth
         /\ \E d \in Draws(Shared.src) : ds' = Append(ds, d) /\ xs' = Append(xs, Out(d))
Spec == Init /\ [][Trial]_vars

\* With one value v of the shared source and u of the other, the top has probability v (v + u - v u):
OneValue == \A j \in DOMAIN ds :
  LET v == Grid[ds[j][1]] u == << "0", "1/2" >>[ds[j][2]]
  IN REq(xs[j], RMul(v, RSub(RAdd(v, u), RMul(v, u))))
\* grouped: the common event c or own failures; e3 shares its source with the factor
OneValueGrouped == \A j \in DOMAIN ds :
  LET v == Grid[ds[j][1]] u == << "0", "1/2" >>[ds[j][2]]
      c == RMul(u, v) i == RMul(RSub(ROne, u), v)
      \* top: e1 and (e2 or e3); e1 = c or i1, e2 = c or i2
      rest == RMul(i, RSub(RAdd(i, u), RMul(i, u)))
  IN REq(Prob(Fn4, Len(V4), TrialProbs(Grouped, V4, ROne, ds[j])),
         RAdd(c, RMul(RSub(ROne, c), rest)))
InRange == \A j \in DOMAIN xs : RLe(OMin(Os), xs[j]) /\ RLe(xs[j], OMax(Os))
Total1 == REq(RSum([j \in DOMAIN Os |-> Os[j].w]), ROne)
\* a value of weight zero is never drawn
NoDead == \A j \in DOMAIN ds : ds[j][1] # 3

Summary ==
  xs = << >> \/
  LET s == Ordered(xs) n == Len(xs) m == SMean(xs)
  IN /\ \A k \in 1 .. 5 :
          /\ \A i \in 1 .. k : RLe(QLow(s, i, k), QHigh(s, i, k)) /\ RLe(s[1], QLow(s, i, k)) /\ RLe(QHigh(s, i, k), s[n])
          /\ \A i \in 1 .. k - 1 : RLe(QLow(s, i, k), QLow(s, i + 1, k)) /\ RLe(QHigh(s, i, k), QHigh(s, i + 1, k))
          /\ QLow(s, k, k) = s[n]
          /\ REq(s[1], s[n]) \/ REq(RSum([j \in 1 .. k |-> BinFrac(s, j, k)]), ROne)
          /\ REq(s[1], s[n]) \/ (/\ RLe(RSum([j \in 1 .. k |-> RMul(BinFrac(s, j, k), BinEdge(s, j - 1, k))]), m)
                                 /\ RLe(m, RSum([j \in 1 .. k |-> RMul(BinFrac(s, j, k), BinEdge(s, j, k))])))
     /\ RLe(s[1], m) /\ RLe(m, s[n])
     /\ RLe(RZero, SVar(xs)) /\ (REq(SVar(xs), RZero) <=> REq(s[1], s[n]))
     /\ n > 1 => RLe(SVar(xs), RDiv(RMul(RPowInt(RSub(s[n], s[1]), 2), RInt(n)), RInt(4 * (n - 1))))
=============================================================================
