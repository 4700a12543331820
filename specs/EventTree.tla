------------------------------ MODULE EventTree -----------------------------
(* Event trees.  A model M has, besides a fault tree (N, H, G) and expressions (P, par),
     et    : sequence of trees [init: branch, br: sequence of named branches]
     seq   : sequence of sequences [ins: instructions]
     rules : sequence of instruction sequences
   branch       [ins: instructions, to: target]
   target       [k: "seq", n] | [k: "br", n] | [k: "fork", f: functional event, ps: sequence of [s: state, b: branch]]
   instruction  [o: "set", h, v] | [o: "cf", f: gate record] | [o: "ce", x: expression] | [o: "if", c, t, e: 0 or 1 instructions]
                | [o: "block", i] | [o: "rule", n] | [o: "link", n]
   The walk of a tree carries the state of one path: H house-event settings, fun functional-event states,
   f conjunction of the collected formulas (nf of them), x product of the collected expressions (nx of them). *)
EXTENDS FaultTree, Expr

FormulaFn(M, F, H) ==
  LET fns == GateFns(M, H)
  IN Connect(F.o, F.k, F.m, [j \in DOMAIN F.a |-> ArgFn(F.a[j], fns, H, M.N)], M.N)

\* c: [M, mt, xt, ini]; conditions see mission time mt, collected expressions xt.
PathEnv(c, st) ==
  LET e == [mt |-> c.mt, par |-> << >>, ini |-> c.ini, fun |-> st.fun] IN [e EXCEPT !.par = ParVals(c.M.par, e)]

RECURSIVE Exec(_, _, _), ExecAll(_, _, _), WalkBranch(_, _, _, _), WalkTo(_, _, _, _)
Exec(c, i, st) ==
  CASE i.o = "set"   -> [st |-> [st EXCEPT !.H[i.h] = i.v], out |-> << >>]
    [] i.o = "cf"    -> [st |-> [st EXCEPT !.f = @ \cap FormulaFn(c.M, i.f, st.H), !.nf = @ + 1], out |-> << >>]
    [] i.o = "ce"    -> [st |-> [st EXCEPT !.x = RRound(RMul(@, Eval(i.x, PathEnv([c EXCEPT !.mt = c.xt], st))), 80), !.nx = @ + 1], out |-> << >>]
    [] i.o = "if"    -> IF R2B(Eval(i.c, PathEnv(c, st))) THEN Exec(c, i.t, st) ELSE ExecAll(c, i.e, st)
    [] i.o = "block" -> ExecAll(c, i.i, st)
    [] i.o = "rule"  -> ExecAll(c, c.M.rules[i.n], st)
    [] i.o = "link"  -> [st |-> [st EXCEPT !.linked = TRUE],
                         out |-> WalkBranch(c, i.n, c.M.et[i.n].init, [st EXCEPT !.fun = << >>])]
ExecAll(c, is, st) ==
  FoldLeft(LAMBDA acc, i : LET r == Exec(c, i, acc.st) IN [st |-> r.st, out |-> acc.out \o r.out],
           [st |-> st, out |-> << >>], is)
WalkBranch(c, t, b, st) == LET r == ExecAll(c, b.ins, st) IN r.out \o WalkTo(c, t, b.to, r.st)
WalkTo(c, t, to, st) ==
  CASE to.k = "seq" ->
         LET r == ExecAll(c, c.M.seq[to.n].ins, [st EXCEPT !.linked = FALSE])
         IN r.out \o (IF r.st.linked THEN << >>
                      ELSE << [s |-> to.n, f |-> r.st.f, nf |-> r.st.nf, x |-> r.st.x, nx |-> r.st.nx] >>)
    [] to.k = "br" -> WalkBranch(c, t, c.M.et[t].br[to.n], st)
    [] to.k = "fork" ->
         FoldLeft(LAMBDA acc, p : acc \o WalkBranch(c, t, p.b, [st EXCEPT !.fun = Append(@, [n |-> to.f, s |-> p.s])]),
                  << >>, to.ps)

\* All paths from an initiating event: c as above with the settings H in force at the start.
Paths(c, t, H) ==
  WalkBranch(c, t, c.M.et[t].init,
             [H |-> H, fun |-> << >>, f |-> Points(c.M.N), nf |-> 0, x |-> ROne, nx |-> 0, linked |-> FALSE])

\* The sequences reached: [s, expr: whether expressions are used, f: function, v: value of an expression sequence,
\*                         mixed: some path uses expressions and another nothing (value left open)]
Reached(ps) ==
  [s \in {ps[j].s : j \in DOMAIN ps} |->
     LET mine == SelectSeq(ps, LAMBDA p : p.s = s)
         ex == SelectSeq(mine, LAMBDA p : p.nx > 0)
     IN [expr |-> ex # << >>, mixed |-> ex # << >> /\ Len(ex) < Len(mine),
         f |-> UNION {mine[j].f : j \in DOMAIN mine}, v |-> RSum([j \in DOMAIN ex |-> ex[j].x])]]
=============================================================================
