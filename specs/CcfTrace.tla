----------------------------- MODULE CcfTrace -------------------------------
(* Conformance of models with common-cause groups with Ccf.tla.
   Events: ccf   [m: model, ccf: whether the groups are expanded, vars: the variables of the results,
                  mt: mission time, rc: exit status, sizes: reported [group, order, group size] of common-cause events]
           quant one run on the model of the last ccf event (see QuantTrace), with its products compared as well. *)
EXTENDS Ccf, QuantTrace

EnvOf(M, mt) == [mt |-> mt, par |-> AnalysePars(M.par, mt), ini |-> "", fun |-> << >>]
Verdict(M, mt) ==
  All3(<< IF \A j \in DOMAIN M.groups : WellFormed(M.groups[j]) THEN "T" ELSE "F",
          IF \A j \in DOMAIN M.groups : WellFormed(M.groups[j])
          THEN All3([j \in DOMAIN M.groups |-> Numbers3(M.groups[j], EnvOf(M, mt))]) ELSE "T" >>)

SetOf(v) == << v.g, {v.s[j] : j \in DOMAIN v.s} >>
CcfLoad ==
  LET e == Trace[l + 1] M == e.m IN
  /\ e.e = "ccf"
  /\ \E ver \in {Verdict(M, RDec(e.mt))} : \E V \in {[j \in DOMAIN e.vars |-> SetOf(e.vars[j])]} :
     LET ok == e.rc = 0 /\ ver # "F" IN
     /\ Report(l + 1, Violated(
          << << e.rc \in {0, 1}, "ends with a result or an error" >>,
             << ver # "T" \/ e.rc # 1, "valid groups rejected" >>,
             << ver # "F" \/ e.rc # 0, "invalid groups accepted" >>,
             << ~ok \/ (Len(V) = Cardinality(Range(V)) /\ Range(V) = Variables(M, e.ccf)), "harness: list of variables" >>,
             << ~ok \/ \A j \in DOMAIN e.sizes : e.sizes[j][1] \in DOMAIN M.groups /\ e.sizes[j][2] = e.sizes[j][4] /\
                         e.sizes[j][3] = Len(M.groups[e.sizes[j][1]].mem), "order and size of common-cause events" >> >>))
     /\ cur' = [m |-> [N |-> Len(V), P |-> IF ok THEN [i \in DOMAIN V |-> VarExpr(M, V[i])] ELSE << >>, par |-> M.par],
                fns |-> IF ok THEN ExtGateFns(M, V) ELSE << >>, fine |-> FALSE, tops |-> Roots(M), pi |-> FALSE]

ProductConds(e, r, N) ==
  LET prods == [j \in DOMAIN r.prods |-> << r.prods[j].c[1], r.prods[j].c[2] >>]
  IN << << Cardinality(Range(prods)) = Len(prods) /\ Range(prods) = ProductsOf(cur.fns[r.g], N, e.pi, e.lim), "products" >> >>
CcfQuant ==
  /\ Trace[l + 1].e = "quant"
  /\ Quant1
  /\ LET e == Trace[l + 1] IN
     Report(l + 1, IF e.rc # 0 THEN << >> ELSE Violated(FoldLeft(LAMBDA acc, r : acc \o ProductConds(e, r, cur.m.N), << >>, e.tops)))

CNext == l < TraceLen /\ (CcfLoad \/ CcfQuant) /\ l' = l + 1 /\ Done(l + 1)
CSpec == Init /\ [][CNext]_vars
=============================================================================
