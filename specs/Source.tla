------------------------------- MODULE Source -------------------------------
(* The input language before any meaning is given to it: definitions with names, containers and roles, references by
   name or path.  This module says which definition a reference designates and which sets of definitions are a model.

   A source is a record of sequences
     box : fault trees and components, [p: path, up: path of the container ("" for fault trees), n: name, r: role]
     def : [k, n, b, r, ...], k the kind, b the path of the container ("" at model level), r "" or the declared role;
           gate [f: formula], basic [e: expression], house [s], param [e, u: unit],
           ccf [mem: names, e: distribution, fac: expression]
     et, rule, ie, al, sub : event trees, rules, initiating events, alignments, substitutions
   A reference is a sequence of names (the text between the dots).  A formula is [o, k, m, a], an argument
   [x: complemented, t: type of reference or "const", r: reference or <<"true">>, <<"false">>].
   An expression is [k: "none" | "v" (value v) | "p" (parameter r, in unit u) | "mul", v, r, u, x: arguments]. *)
EXTENDS FaultTree, Rat

LOCAL Rng(s) == {s[j] : j \in DOMAIN s}
LOCAL Distinct(s) == Cardinality(Rng(s)) = Len(s)
Dot(a, b) == IF a = "" THEN b ELSE a \o "." \o b
Text(r) == FoldLeft(Dot, "", r)
Flatten(ss) == FoldLeft(LAMBDA a, s : a \o s, << >>, ss)

\* ---- containers, roles and identity -------------------------------------------------------------------
\* The role a container gives to its members: its own, or else that of the container around it.
BoxRole(m, p) ==
  LET RECURSIVE role(_, _)
      role(q, d) ==
        IF q = "" \/ d = 0 THEN "public"
        ELSE LET b == CHOOSE x \in Rng(m.box) : x.p = q IN IF b.r # "" THEN b.r ELSE role(b.up, d - 1)
  IN role(p, Len(m.box))

\* Every named element that can be referred to, in the order of definition; the members of a group are basic events.
Elements(m) ==
  LET mk(d, k, n, e) ==
        LET priv == (IF d.r # "" THEN d.r ELSE BoxRole(m, d.b)) = "private"
            path == d.b \o "." \o n
        IN [k |-> k, n |-> n, b |-> d.b, priv |-> priv, path |-> path, id |-> IF priv THEN path ELSE n, d |-> d, e |-> e]
      of(d) == IF d.k = "ccf" THEN << mk(d, "ccf", d.n, d.e) >> \o [j \in DOMAIN d.mem |-> mk(d, "basic", d.mem[j], d.e)]
               ELSE << mk(d, d.k, d.n, IF d.k \in {"basic", "param"} THEN d.e ELSE [k |-> "none"]) >>
  IN Flatten([j \in DOMAIN m.def |-> of(m.def[j])])

Events == {"gate", "basic", "house"}
KindsOf(t) == CASE t = "event" -> Events [] t = "gate" -> {"gate"} [] t = "basic-event" -> {"basic"}
                [] t = "house-event" -> {"house"} [] t = "parameter" -> {"param"}

\* The element designated by reference r of a type, made in container base: 0 when there is none.
\*   first the element at path base.r; otherwise a single name is a public element anywhere, a path starts at the top.
Resolve(E, t, r, base) ==
  LET of == {i \in DOMAIN E : E[i].k \in KindsOf(t)}
      near == {i \in of : base # "" /\ E[i].path = base \o "." \o Text(r)}
      far == IF Len(r) > 1 THEN {i \in of : E[i].path = Text(r)} ELSE {i \in of : ~E[i].priv /\ E[i].n = r[1]}
  IN IF near # {} THEN CHOOSE i \in near : TRUE ELSE IF far # {} THEN CHOOSE i \in far : TRUE ELSE 0

DuplicateNames(m, E) ==
  LET clash(i, j) == \/ E[i].k \in Events /\ E[j].k \in Events
                     \/ E[i].k = E[j].k
      same(i, j) == E[i].id = E[j].id \/ (E[i].b # "" /\ E[i].path = E[j].path)
  IN \/ \E i, j \in DOMAIN E : i < j /\ clash(i, j) /\ same(i, j)
     \/ ~Distinct([j \in DOMAIN m.box |-> m.box[j].p])

\* ---- graphs --------------------------------------------------------------------------------------------
\* Whether a graph (node -> set of nodes) has a cycle.
Cyclic(G) ==
  LET peel(S, x) == {i \in S : G[i] \cap S # {}}
      left == FoldLeft(peel, DOMAIN G, [j \in 1 .. Cardinality(DOMAIN G) |-> j])
  IN left # {}

\* ---- formulas and expressions ------------------------------------------------------------------------
Arg(E, a, base) == IF a.t = "const" THEN (IF a.r[1] = "true" THEN 900 ELSE 901) ELSE Resolve(E, a.t, a.r, base)
ArgsOf(E, f, base) == {Arg(E, f.a[j], base) : j \in DOMAIN f.a}
FormulaProblems(E, f, base) ==
  LET n == Len(f.a)
      args == [j \in DOMAIN f.a |-> Arg(E, f.a[j], base)]
  IN (IF 0 \in Rng(args) THEN {"undefined event"} ELSE {})
     \cup (IF \E i, j \in 1 .. n : i < j /\ args[i] = args[j] /\ args[i] # 0 THEN {"repeated argument"} ELSE {})
     \cup (IF CASE f.o \in {"and", "or", "nand", "nor"} -> n >= 2
                [] f.o \in {"not", "null"} -> n = 1
                [] f.o \in {"xor", "iff", "imply"} -> n = 2
                [] f.o = "atleast" -> f.k >= 2 /\ n > f.k
                [] f.o = "cardinality" -> f.k >= 0 /\ f.k <= f.m /\ f.m <= n /\ n >= 1
           THEN {} ELSE {"number of arguments"})

\* The references of an expression to parameters: a sequence of [r, u].
ParamRefs(x) ==
  LET RECURSIVE pr(_)
      pr(y) == CASE y.k = "p" -> << [r |-> y.r, u |-> y.u] >>
                 [] y.k = "mul" -> Flatten([j \in DOMAIN y.x |-> pr(y.x[j])])
                 [] OTHER -> << >>
  IN pr(x)
ExprProblems(E, x, base) ==
  UNION {LET i == Resolve(E, "parameter", q.r, base)
         IN IF i = 0 THEN {"undefined parameter"}
            ELSE IF q.u # "" /\ q.u # (IF E[i].d.u = "" THEN "unitless" ELSE E[i].d.u) THEN {"unit mismatch"} ELSE {}
         : q \in Rng(ParamRefs(x))}

\* The value of an expression without problems.
Value(E, x, base) ==
  LET RECURSIVE v(_, _)
      v(y, b) == CASE y.k = "v" -> RDec(y.v)
                   [] y.k = "p" -> LET i == Resolve(E, "parameter", y.r, b) IN v(E[i].e, E[i].b)
                   [] y.k = "mul" -> RProd([j \in DOMAIN y.x |-> v(y.x[j], b)])
  IN v(x, base)

\* ---- instructions and branches -------------------------------------------------------------------------
\* [k: "rule" n | "link" n | "cf" f | "ce" x | "set" n | "if" x t e | "block" is]; t, e, is are sequences of instructions.
RECURSIVE Inside(_)
Inside(ins) ==   \* the instructions and those nested in them, in sequence
  Flatten([j \in DOMAIN ins |->
    LET i == ins[j] IN << i >> \o (IF i.k = "if" THEN Inside(i.t) \o Inside(i.e) ELSE IF i.k = "block" THEN Inside(i.is) ELSE << >>)])
Named(ins, k) == {i.n : i \in {j \in Rng(Inside(ins)) : j.k = k}}

\* The rules executing instructions may execute, themselves included.
RulesFrom(m, ins) ==
  LET step(S, x) == S \cup UNION {Named(m.rule[j].ins, "rule") : j \in {q \in DOMAIN m.rule : m.rule[q].n \in S}}
  IN FoldLeft(step, Named(ins, "rule"), m.rule)
\* Everything executing them may execute.
Deep(m, ins) == Rng(Inside(ins)) \cup UNION {Rng(Inside(m.rule[j].ins)) : j \in {q \in DOMAIN m.rule : m.rule[q].n \in RulesFrom(m, ins)}}

InsProblems(m, E, ins) ==
  UNION {CASE i.k = "rule" -> (IF \E q \in Rng(m.rule) : q.n = i.n THEN {} ELSE {"undefined rule"})
           [] i.k = "link" -> (IF \E q \in Rng(m.et) : q.n = i.n THEN {} ELSE {"undefined event tree"})
           [] i.k = "set" -> (IF \E j \in DOMAIN E : E[j].k = "house" /\ E[j].id = i.n THEN {} ELSE {"undefined house event"})
           [] i.k = "cf" -> FormulaProblems(E, i.f, "")
           [] i.k = "ce" -> ExprProblems(E, i.x, "")
           [] i.k = "if" -> ExprProblems(E, i.x, "")
           [] OTHER -> {}
         : i \in Rng(Inside(ins))}

\* A branch is [ins, t], its target [k: "seq" n | "branch" n | "fork" n ps]; ps: [s: state, b: branch].
RECURSIVE Branches(_)
Branches(b) ==   \* the branch and those below it within the same definition
  << b >> \o (IF b.t.k = "fork" THEN Flatten([j \in DOMAIN b.t.ps |-> Branches(b.t.ps[j].b)]) ELSE << >>)
TreeBranches(t) == Branches(t.init) \o Flatten([j \in DOMAIN t.br |-> Branches(t.br[j].b)])
BranchNamed(t, n) == (CHOOSE q \in Rng(t.br) : q.n = n).b
Position(t, fe) == CHOOSE j \in DOMAIN t.fe : t.fe[j] = fe

\* Names used in a tree but not defined.
TreeNameProblems(m, t) ==
  UNION {(CASE b.t.k = "seq" -> (IF \E q \in Rng(m.et) : \E s \in Rng(q.sq) : s.n = b.t.n THEN {} ELSE {"undefined sequence"})
            [] b.t.k = "branch" -> (IF \E q \in Rng(t.br) : q.n = b.t.n THEN {} ELSE {"undefined branch"})
            [] b.t.k = "fork" -> (IF b.t.n \in Rng(t.fe) THEN {} ELSE {"undefined functional event"})
                                 \cup (IF Distinct([j \in DOMAIN b.t.ps |-> b.t.ps[j].s]) THEN {} ELSE {"repeated state"}))
         : b \in Rng(TreeBranches(t))}

BranchGraph(t) ==
  [n \in {q.n : q \in Rng(t.br)} |-> {b.t.n : b \in {x \in Rng(Branches(BranchNamed(t, n))) : x.t.k = "branch"}}]

\* The first fork met from a branch, through named branches (acyclic): the position of its event, or 0.
RECURSIVE FirstFork(_, _)
FirstFork(t, b) ==
  CASE b.t.k = "fork" -> Position(t, b.t.n) [] b.t.k = "branch" -> FirstFork(t, BranchNamed(t, b.t.n)) [] OTHER -> 0
ForkOrderOk(t) ==
  \A b \in Rng(TreeBranches(t)) : b.t.k = "fork" =>
    \A j \in DOMAIN b.t.ps : LET f == FirstFork(t, b.t.ps[j].b) IN f = 0 \/ f > Position(t, b.t.n)

Sequences_(m) == Flatten([j \in DOMAIN m.et |-> m.et[j].sq])
SequenceNamed(m, n) == CHOOSE s \in Rng(Sequences_(m)) : s.n = n
\* All branches that can be taken from a branch of t, through named branches.
Reach(t, b) ==
  LET step(S, x) == S \cup UNION {Rng(Branches(BranchNamed(t, y.t.n))) : y \in {z \in S : z.t.k = "branch"}}
  IN FoldLeft(step, Rng(Branches(b)), t.br)
SequencesFrom(m, t, b) == {SequenceNamed(m, y.t.n) : y \in {z \in Reach(t, b) : z.t.k = "seq"}}
LinksOf(m, ins) == {i.n : i \in {j \in Deep(m, ins) : j.k = "link"}}
TreeNamed(m, n) == CHOOSE q \in Rng(m.et) : q.n = n
\* Which trees a tree leads to by the links of the sequences its initial state can end in.
LinkGraph(m) ==
  [n \in {q.n : q \in Rng(m.et)} |-> UNION {LinksOf(m, s.ins) : s \in SequencesFrom(m, TreeNamed(m, n), TreeNamed(m, n).init)}]
LinkCycle(m) ==
  LET G == LinkGraph(m)
      used == UNION {LinksOf(m, s.ins) : s \in Rng(Sequences_(m))} \cup UNION {Named(q.ins, "link") : q \in Rng(m.rule)}
      step(S, x) == S \cup UNION {G[n] : n \in S}
      from == FoldLeft(step, used, m.et)
  IN Cyclic([n \in from |-> G[n]])
\* The kinds of instructions ("cf", "ce") met from a branch, through links.
Collected(m, t, b) ==
  LET G == LinkGraph(m)
      here == UNION {Deep(m, y.ins) : y \in Reach(t, b)} \cup UNION {Deep(m, s.ins) : s \in SequencesFrom(m, t, b)}
      step(S, x) == S \cup UNION {G[n] : n \in S}
      trees == FoldLeft(step, {i.n : i \in {j \in here : j.k = "link"}}, m.et)
      all == here \cup UNION {UNION {Deep(m, y.ins) : y \in Reach(TreeNamed(m, n), TreeNamed(m, n).init)}
                              \cup UNION {Deep(m, s.ins) : s \in SequencesFrom(m, TreeNamed(m, n), TreeNamed(m, n).init)} : n \in trees}
  IN {i.k : i \in all} \cap {"cf", "ce"}

EventTreeProblems(m, E) ==
  LET names == UNION {TreeNameProblems(m, t) : t \in Rng(m.et)}
               \cup UNION {InsProblems(m, E, b.ins) : b \in UNION {Rng(TreeBranches(t)) : t \in Rng(m.et)}}
               \cup UNION {InsProblems(m, E, s.ins) : s \in Rng(Sequences_(m))}
               \cup UNION {InsProblems(m, E, q.ins) : q \in Rng(m.rule)}
      dups == (IF Distinct([j \in DOMAIN m.et |-> m.et[j].n]) THEN {} ELSE {"repeated event tree"})
              \cup (IF Distinct([j \in DOMAIN m.rule |-> m.rule[j].n]) THEN {} ELSE {"repeated rule"})
              \cup (IF Distinct(LET s == Sequences_(m) IN [j \in DOMAIN s |-> s[j].n]) THEN {} ELSE {"repeated sequence"})
              \cup (IF \A t \in Rng(m.et) : Distinct(t.fe) /\ Distinct([j \in DOMAIN t.br |-> t.br[j].n]) THEN {} ELSE {"repeated name in event tree"})
              \cup (IF Distinct([j \in DOMAIN m.ie |-> m.ie[j].n]) THEN {} ELSE {"repeated initiating event"})
      ies == IF \A i \in Rng(m.ie) : i.t = "" \/ \E t \in Rng(m.et) : t.n = i.t THEN {} ELSE {"undefined event tree"}
  IN IF names \cup dups \cup ies # {} THEN names \cup dups \cup ies
     ELSE IF Cyclic([n \in {q.n : q \in Rng(m.rule)} |-> UNION {Named(q.ins, "rule") : q \in {x \in Rng(m.rule) : x.n = n}}]) THEN {"rule cycle"}
     ELSE IF \E t \in Rng(m.et) : Cyclic(BranchGraph(t)) THEN {"branch cycle"}
     ELSE (IF \A t \in Rng(m.et) : ForkOrderOk(t) THEN {} ELSE {"order of forks"})
          \cup (IF \A t \in Rng(m.et) : \A b \in Rng(TreeBranches(t)) : LinksOf(m, b.ins) = {} THEN {} ELSE {"link in a branch"})
          \cup (IF LinkCycle(m) THEN {"link cycle"}
                ELSE IF \A t \in Rng(m.et) : \A b \in {t.init} \cup {q.b : q \in Rng(t.br)} : Cardinality(Collected(m, t, b)) <= 1
                THEN {} ELSE {"mixed collection"})

\* ---- alignments and substitutions ----------------------------------------------------------------------
\* Fractions are integers in thousandths.
AlignmentProblems(m, E) ==
  (IF Distinct([j \in DOMAIN m.al |-> m.al[j].n]) THEN {} ELSE {"repeated alignment"})
  \cup UNION {(IF Distinct([j \in DOMAIN a.ph |-> a.ph[j].n]) THEN {} ELSE {"repeated phase"})
              \cup (IF \A p \in Rng(a.ph) : p.fr > 0 /\ p.fr <= 1000 THEN {} ELSE {"phase fraction"})
              \cup (IF FoldLeft(LAMBDA s, p : s + p.fr, 0, a.ph) = 1000 THEN {} ELSE {"sum of fractions"})
              \cup UNION {InsProblems(m, E, p.ins) : p \in Rng(a.ph)}
              : a \in Rng(m.al)}

\* A substitution is [n, h: formula, src: references, tgt: [t: "basic-event" | "const", r], type].
SubstitutionProblems(m, E) ==
  LET S == m.sub
      src(s) == [j \in DOMAIN s.src |-> Resolve(E, "basic-event", s.src[j], "")]
      tgt(s) == Arg(E, s.tgt, "")
      decl(s) == s.src = << >>
      hyp(s) == ArgsOf(E, s.h, "")
      exclusive(s) == (s.h.o = "atleast" /\ s.h.k = 2) \/ (s.h.o = "and" /\ Len(s.h.a) = 2)
      kind(s) == IF decl(s) THEN (IF tgt(s) = 901 THEN (IF exclusive(s) THEN "delete-terms" ELSE "none")
                                  ELSE IF s.h.o = "and" THEN "recovery-rule" ELSE "none")
                 ELSE IF tgt(s) >= 900 \/ s.h.o \notin {"and", "null"} THEN "none"
                 ELSE IF Len(s.src) = Len(s.h.a) THEN (IF Rng(src(s)) \subseteq hyp(s) THEN "recovery-rule" ELSE "none")
                 ELSE IF Len(s.src) = 1 /\ Rng(src(s)) \subseteq hyp(s) THEN "exchange-event" ELSE "none"
      basic(i) == i < 900 /\ E[i].k = "basic"
      one(s) ==
        FormulaProblems(E, s.h, "")
        \cup (IF 0 \in Rng(src(s)) \/ tgt(s) = 0 THEN {"undefined event"} ELSE {})
        \cup (IF Distinct(src(s)) THEN {} ELSE {"repeated source"})
      form(s) ==
        (IF (\A i \in hyp(s) : basic(i)) /\ (\A j \in DOMAIN s.h.a : ~s.h.a[j].x) THEN {} ELSE {"hypothesis"})
        \cup (IF s.h.o \in (IF decl(s) THEN {"null", "and", "atleast", "or"} ELSE {"null", "and", "or"}) THEN {} ELSE {"hypothesis connective"})
        \cup (IF tgt(s) # (IF decl(s) THEN 900 ELSE 901) THEN {} ELSE {"substitution target"})
        \cup (IF s.type # "" /\ s.type # kind(s) THEN {"substitution type"} ELSE {})
      nd == {j \in DOMAIN S : ~decl(S[j])}
      conflict == \E i, j \in nd : \/ tgt(S[i]) \in Rng(src(S[j]))
                                   \/ i # j /\ (tgt(S[i]) \in hyp(S[j]) \/ Rng(src(S[i])) \cap hyp(S[j]) # {})
      grouped == \E j \in nd : \E i \in hyp(S[j]) \cup Rng(src(S[j])) \cup {tgt(S[j])} : i < 900 /\ E[i].d.k = "ccf"
      names == UNION {one(s) : s \in Rng(S)}
  IN (IF Distinct([j \in DOMAIN S |-> S[j].n]) THEN {} ELSE {"repeated substitution"})
     \cup (IF names # {} THEN names
           ELSE LET forms == UNION {form(s) : s \in Rng(S)}
                IN IF forms # {} THEN forms
                   ELSE (IF conflict THEN {"conflict of substitutions"} ELSE {}) \cup (IF grouped THEN {"substitution in a group"} ELSE {}))

\* What is wrong with a well-formed source for an analysis with settings o = [prob, exact, ccf].
OptionProblems(m, E, o) ==
  LET nd == {s \in Rng(m.sub) : s.src # << >>}
  IN (IF o.prob /\ \E i \in DOMAIN E : E[i].k = "basic" /\ E[i].e.k = "none" THEN {"missing expression"} ELSE {})
     \cup (IF o.exact /\ nd # {} THEN {"substitution in an exact analysis"} ELSE {})

\* ---- well-formedness -----------------------------------------------------------------------------------
\* What is wrong with a source, whatever the analysis.
Problems(m, E) ==
  LET gates == {i \in DOMAIN E : E[i].k = "gate"}
      params == {i \in DOMAIN E : E[i].k = "param"}
      refs == UNION {FormulaProblems(E, E[i].d.f, E[i].b) : i \in gates}
              \cup UNION {ExprProblems(E, E[i].e, E[i].b) : i \in {j \in DOMAIN E : E[j].k \in {"basic", "param", "ccf"}}}
              \cup UNION {ExprProblems(E, E[i].d.fac, E[i].b) : i \in {j \in DOMAIN E : E[j].k = "ccf"}}
      undefined == refs \cap {"undefined event", "undefined parameter"} # {}
  IN (IF DuplicateNames(m, E) THEN {"repeated element"} ELSE {})
     \cup (IF \E d \in Rng(m.def) : d.b = "" /\ d.r = "private" THEN {"private at model scope"} ELSE {})
     \cup (IF \E i \in DOMAIN E : E[i].k = "ccf" /\ (Len(E[i].d.mem) < 2 \/ ~Distinct(E[i].d.mem)) THEN {"group members"} ELSE {})
     \cup refs
     \cup (IF ~undefined /\ Cyclic([i \in gates |-> ArgsOf(E, E[i].d.f, E[i].b) \cap gates]) THEN {"gate cycle"} ELSE {})
     \cup (IF ~undefined /\ Cyclic([i \in params |-> {Resolve(E, "parameter", q.r, E[i].b) : q \in Rng(ParamRefs(E[i].e))}]) THEN {"parameter cycle"} ELSE {})
     \cup EventTreeProblems(m, E)
     \cup AlignmentProblems(m, E)
     \cup SubstitutionProblems(m, E)

\* ---- error messages ------------------------------------------------------------------------------------
\* x = [cls: class of the error, ref: reference, base: container it is made in, type, id, at: container, cycle: names], "" or << >> if not said.
ClassOf(k) ==
  CASE k \in {"repeated element", "repeated argument", "repeated event tree", "repeated rule", "repeated sequence", "repeated name in event tree",
              "repeated initiating event", "repeated alignment", "repeated phase", "repeated substitution", "repeated source"} -> "DuplicateElementError"
    [] k \in {"undefined event", "undefined parameter", "undefined rule", "undefined event tree", "undefined house event", "undefined sequence",
              "undefined branch", "undefined functional event"} -> "UndefinedElement"
    [] k \in {"gate cycle", "parameter cycle", "rule cycle", "branch cycle", "link cycle"} -> "CycleError"
    [] k = "phase fraction" -> "DomainError"
    [] k = "group members" -> "DuplicateElementError"   \* or ValidityError
    [] OTHER -> "ValidityError"

\* Whether what an error says of a source is true.
ErrorTrue(m, E, x) ==
  LET tree(n) == {t \in Rng(m.et) : t.n = n}
      edge(a, b) ==
        CASE x.type = "gate" -> \E i, j \in DOMAIN E : E[i].k = "gate" /\ E[j].k = "gate" /\ E[i].id = a /\ E[j].id = b /\ j \in ArgsOf(E, E[i].d.f, E[i].b)
          [] x.type = "parameter" -> \E i, j \in DOMAIN E : E[i].k = "param" /\ E[j].k = "param" /\ E[i].id = a /\ E[j].id = b
                                       /\ \E q \in Rng(ParamRefs(E[i].e)) : Resolve(E, "parameter", q.r, E[i].b) = j
          [] x.type = "rule" -> \E q \in Rng(m.rule) : q.n = a /\ b \in Named(q.ins, "rule")
          [] x.type = "branch" -> \E t \in tree(x.at) : \E q \in Rng(t.br) : q.n = a /\ \E y \in Rng(Branches(q.b)) : y.t.k = "branch" /\ y.t.n = b
          [] x.type = "event-tree link" -> \E t \in tree(a) : b \in LinkGraph(m)[a]
          [] OTHER -> FALSE
      kind(t) == CASE t = "basic event" -> "basic-event" [] t = "house event" -> "house-event" [] OTHER -> t
  IN CASE x.cls = "UndefinedElement" /\ x.ref # << >> -> Resolve(E, kind(x.type), x.ref, x.base) = 0
       [] x.cls = "UndefinedElement" ->
            ~ CASE x.type = "event tree" -> \E t \in Rng(m.et) : t.n = x.id
                [] x.type = "rule" -> \E q \in Rng(m.rule) : q.n = x.id
                [] x.type = "sequence" -> \E s \in Rng(Sequences_(m)) : s.n = x.id
                [] x.type = "branch" -> \E t \in tree(x.at) : \E q \in Rng(t.br) : q.n = x.id
                [] x.type = "functional event" -> \E t \in tree(x.at) : x.id \in Rng(t.fe)
                [] x.type = "house event" -> \E i \in DOMAIN E : E[i].k = "house" /\ E[i].id = x.id
                [] OTHER -> TRUE
       [] x.cls = "CycleError" -> /\ Len(x.cycle) >= 2 /\ x.cycle[1] = x.cycle[Len(x.cycle)]
                                  /\ \A j \in 1 .. Len(x.cycle) - 1 : edge(x.cycle[j], x.cycle[j + 1])
       [] OTHER -> TRUE

\* ---- meaning of a well-formed source without event trees: a fault tree --------------------------------
Basics(E) == SelectSeq([i \in DOMAIN E |-> i], LAMBDA i : E[i].k = "basic")
\* The function of every gate (element -> points).
GateMeaning(E) ==
  LET B == Basics(E)
      N == Len(B)
      var == [i \in {B[j] : j \in DOMAIN B} |-> CHOOSE j \in DOMAIN B : B[j] = i]
      gates == {i \in DOMAIN E : E[i].k = "gate"}
      args == [g \in gates |-> [j \in DOMAIN E[g].d.f.a |-> Arg(E, E[g].d.f.a[j], E[g].b)]]
      fn(env, i) == IF i = 900 THEN Points(N) ELSE IF i = 901 THEN {}
                    ELSE IF E[i].k = "basic" THEN VarFn(var[i], N)
                    ELSE IF E[i].k = "house" THEN ConstFn(E[i].d.s, N) ELSE env[i]
      ready(env, g) == g \notin DOMAIN env /\ \A j \in DOMAIN args[g] : args[g][j] \in gates => args[g][j] \in DOMAIN env
      meaning(env, g) ==
        LET f == E[g].d.f
        IN Connect(f.o, f.k, f.m, [j \in DOMAIN f.a |-> LET x == fn(env, args[g][j]) IN IF f.a[j].x THEN Neg(x, N) ELSE x], N)
      step(env, x) ==
        LET R == {g \in gates : ready(env, g)}
            new == [g \in R |-> meaning(env, g)]
        IN [g \in DOMAIN env \cup R |-> IF g \in R THEN new[g] ELSE env[g]]
  IN FoldLeft(step, [g \in {} |-> {}], [j \in 1 .. Cardinality(gates) |-> j])

\* The fault tree an element belongs to.
RECURSIVE TopBox(_, _)
TopBox(m, p) == LET b == CHOOSE x \in Rng(m.box) : x.p = p IN IF b.up = "" THEN p ELSE TopBox(m, b.up)
\* The gates to analyse: those no other gate of the same fault tree uses.
TopGates(m, E) ==
  LET gates == {i \in DOMAIN E : E[i].k = "gate"}
      args(g) == ArgsOf(E, E[g].d.f, E[g].b)
  IN {g \in gates : \A h \in gates : g \in args(h) => TopBox(m, E[g].b) # TopBox(m, E[h].b)}
=============================================================================
