----------------------------- MODULE JsonTrace -----------------------------
(***************************************************************************)
(* The JSON formats: which documents are valid, and what they mean.        *)
(*                                                                         *)
(* A document is a tree: [t |-> "obj", m |-> members] with members         *)
(* [k |-> key, v |-> tree] in order (a key may occur twice),               *)
(* [t |-> "arr", e |-> trees], [t |-> "str", s], [t |-> "int", neg, hi,    *)
(* lo] (magnitude hi * 65536 + lo), [t |-> "flt"], [t |-> "bool", b],      *)
(* [t |-> "null"], and [t |-> "bad"] for text that is not JSON at all.     *)
(* An event says how a document was read ("parse": accepted or not, and    *)
(* what the resulting object contains), or which document was printed for  *)
(* an object ("print").                                                    *)
(***************************************************************************)
EXTENDS TraceLib

SetOf(s) == { s[i] : i \in DOMAIN s }
Max(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
Cnt(o, k) == Cardinality({ i \in DOMAIN o.m : o.m[i].k = k })
Get(o, k) == (CHOOSE x \in SetOf(o.m) : x.k = k).v
Keys(o) == { x.k : x \in SetOf(o.m) }
IsObj(v) == v.t = "obj"
IsArr(v) == v.t = "arr"
IsStr(v) == v.t = "str"
IsNat(v) == v.t = "int" /\ ~v.neg
Val(v) == v.hi * 65536 + v.lo     \* small numbers only

-----------------------------------------------------------------------------
(* Weights: a number of the type, neither its least nor its greatest value (they stand for infinities). *)
Signed(wt) == wt \in { "int", "vint" }
IsVec(wt) == wt \in { "vuint", "vint" }
WeightNum(v, wt) == v.t = "int" /\ IF v.neg THEN Signed(wt) /\ (v.hi < 32768)
                                   ELSE IF Signed(wt) THEN v.hi < 32767 \/ (v.hi = 32767 /\ v.lo < 65535) ELSE v.hi < 65535 \/ (v.hi = 65535 /\ v.lo < 65535)
ValidWeight(v, wt) == IF IsVec(wt) THEN IsArr(v) /\ \A x \in SetOf(v.e) : WeightNum(x, wt) ELSE WeightNum(v, wt)
Num(v) == << v.neg, v.hi, v.lo >>
WeightOf(v, wt) == IF IsVec(wt) THEN [ i \in DOMAIN v.e |-> Num(v.e[i]) ] ELSE << Num(v) >>

(* Rules and states. *)
OpKeys == { "pop", "swap", "push" }
ValidRule(r, named, wt) ==
    /\ IsObj(r)
    /\ Keys(r) \subseteq { "to" } \cup OpKeys \cup (IF wt = "none" THEN {} ELSE { "weight" })
    /\ Cnt(r, "to") = 1 /\ (IF named THEN IsStr(Get(r, "to")) ELSE IsNat(Get(r, "to")))
    /\ Cnt(r, "pop") + Cnt(r, "swap") + Cnt(r, "push") = 1
    /\ \A k \in OpKeys : Cnt(r, k) = 1 => IsStr(Get(r, k))
    /\ Cnt(r, "pop") = 1 => Get(r, "pop").s = ""
    /\ wt # "none" => Cnt(r, "weight") = 1 /\ ValidWeight(Get(r, "weight"), wt)
RuleList(v) == IF IsArr(v) THEN SetOf(v.e) ELSE { v }
ValidState(s, named, wt) == IsObj(s) /\ \A x \in SetOf(s.m) : \A r \in RuleList(x.v) : ValidRule(r, named, wt)
ValidPda(p, named, wt) ==
    /\ IsObj(p) /\ Cnt(p, "states") = 1       \* other keys are ignored
    /\ LET s == Get(p, "states") IN
       IF named THEN IsObj(s) /\ \A x \in SetOf(s.m) : ValidState(x.v, named, wt)
       ELSE IsArr(s) /\ \A x \in SetOf(s.e) : ValidState(x, named, wt)

OpOf(r) == CHOOSE k \in OpKeys : Cnt(r, k) = 1
MkRule(from, pre, r, named, wt) ==
    LET op == OpOf(r)
        lab == Get(r, op).s
        noop == op = "swap" /\ pre = "*" /\ lab = "*"
    IN  [ from |-> from, pre |-> pre, op |-> IF noop THEN "noop" ELSE op, opl |-> IF noop THEN "" ELSE lab,
          to |-> IF named THEN Get(r, "to").s ELSE ToString(Val(Get(r, "to"))),
          w |-> IF wt = "none" THEN << >> ELSE WeightOf(Get(r, "weight"), wt) ]
StateRules(name, s, named, wt) == UNION { { MkRule(name, x.k, r, named, wt) : r \in RuleList(x.v) } : x \in SetOf(s.m) }
StateMeaning(p, named, wt) ==
    LET s == Get(p, "states")
        R == IF named THEN UNION { StateRules(x.k, x.v, named, wt) : x \in SetOf(s.m) }
             ELSE UNION { StateRules(ToString(i - 1), s.e[i], named, wt) : i \in DOMAIN s.e }
        pre == IF named THEN UNION { Keys(x.v) : x \in SetOf(s.m) } ELSE UNION { Keys(x) : x \in SetOf(s.e) }
        to == IF named THEN {} ELSE UNION { UNION { { Val(Get(r, "to")) : r \in RuleList(x.v) } : x \in SetOf(y.m) } : y \in SetOf(s.e) }
        n == 1 + Max(to \cup { Len(s.e) - 1 })
    IN  [ rules |-> R,
          states |-> IF named THEN Keys(s) \cup { r.to : r \in R } ELSE { ToString(i) : i \in 0 .. (n - 1) },
          n |-> IF named THEN 0 ELSE n,
          labels |-> (pre \ { "*" }) \cup { r.opl : r \in { x \in R : x.op \in { "push", "swap" } } } ]

(* The same rule for every label makes the rule for one label redundant; a noop for one label is a swap with itself. *)
Norm(R) == LET K == { IF r.op = "noop" /\ r.pre # "*" THEN [ r EXCEPT !.op = "swap", !.opl = r.pre ] ELSE r : r \in R }
           IN  { r \in K : r.pre = "*" \/ [ r EXCEPT !.pre = "*" ] \notin K }

-----------------------------------------------------------------------------
(* P-automata, relative to the meaning of a PDA. *)
ValidAState(v, named) == IsNat(v) \/ (named /\ IsStr(v))
ValidInit(v, named, M) == IF named THEN IsStr(v) /\ v.s \in M.states ELSE IsNat(v) /\ (v.hi = 0 /\ Val(v) < M.n)
ValidEdge(e, named) == IsArr(e) /\ Len(e.e) = 3 /\ ValidAState(e.e[1], named) /\ IsStr(e.e[2]) /\ ValidAState(e.e[3], named)
ValidAut(a, named, M, needInit) ==
    /\ IsObj(a) /\ Keys(a) \subseteq { "accepting", "edges", "initial" }
    /\ Cnt(a, "accepting") = 1 /\ IsArr(Get(a, "accepting")) /\ \A x \in SetOf(Get(a, "accepting").e) : ValidAState(x, named)
    /\ Cnt(a, "edges") = 1 /\ IsArr(Get(a, "edges")) /\ \A x \in SetOf(Get(a, "edges").e) : ValidEdge(x, named)
    /\ needInit => Cnt(a, "initial") = 1
    /\ \A x \in SetOf(a.m) : x.k = "initial" => IsArr(x.v) /\ \A y \in SetOf(x.v.e) : ValidInit(y, named, M)

(* A state of the PDA, or another one. *)
AState(v, named, M) ==
    IF IsStr(v) THEN IF v.s \in M.states THEN << "p", v.s >> ELSE << "s", v.s >>
    ELSE IF ~named /\ v.hi = 0 /\ v.lo < M.n THEN << "p", ToString(v.lo) >> ELSE << "n", ToString(v.hi) \o ":" \o ToString(v.lo) >>
AutMeaning(a, named, M) ==
    LET E == { << AState(e.e[1], named, M), e.e[2].s, AState(e.e[3], named, M) >> : e \in SetOf(Get(a, "edges").e) }
        A == { AState(x, named, M) : x \in SetOf(Get(a, "accepting").e) }
    IN  [ edges |-> E, acc |-> A, extra |-> { x \in UNION { { e[1], e[3] } : e \in E } \cup A : x[1] # "p" },
          labels |-> { e[2] : e \in E } \ { "" } ]

(* An observed automaton: states are PDA states << "p", name >> or others << "x", number >>, which correspond   *)
(* one to one to the other states of the document.  Only states that look alike can correspond.                *)
Look(x, E, A) == << x \in A,
                    { << e[2], e[3] >> : e \in { d \in E : d[1] = x /\ d[3][1] = "p" } }, { << e[2], e[1] >> : e \in { d \in E : d[3] = x /\ d[1][1] = "p" } },
                    { e[2] : e \in { d \in E : d[1] = x /\ d[3] = x } }, Cardinality({ e \in E : e[1] = x }), Cardinality({ e \in E : e[3] = x }) >>
RECURSIVE Iso(_, _, _, _, _)
Iso(todo, free, f, E, oe) ==     \* f maps the states already placed
    IF todo = {} THEN TRUE
    ELSE LET x == CHOOSE z \in todo : TRUE IN
         \E y \in { z \in free : z[2] = x[2] } :
            LET g == f @@ (x[1] :> y[1])
                D == DOMAIN g
                img == { g[z] : z \in D }
            IN  /\ { << g[e[1]], e[2], g[e[3]] >> : e \in { d \in E : d[1] \in D /\ d[3] \in D } } = { d \in oe : d[1] \in img /\ d[3] \in img }
                /\ Iso(todo \ { x }, free \ { y }, g, E, oe)
Match(A, obs, exact) ==
    LET oe == SetOf(obs.edges)
        oa == SetOf(obs.acc)
        ox == { << "x", ToString(i) >> : i \in SetOf(obs.extra) }
        used == IF exact THEN ox ELSE { x \in ox : x \in oa \/ \E e \in oe : x \in { e[1], e[3] } }
        P(S) == { x \in S : x[1] = "p" }
        PP(S) == { e \in S : e[1][1] = "p" /\ e[3][1] = "p" }
    IN  /\ Cardinality(used) = Cardinality(A.extra)
        /\ P(oa) = P(A.acc) /\ PP(oe) = PP(A.edges)
        /\ Cardinality(oe) = Cardinality(A.edges)
        /\ Iso({ << x, Look(x, A.edges, A.acc) >> : x \in A.extra }, { << x, Look(x, oe, oa) >> : x \in used }, << >>, A.edges, oe)

-----------------------------------------------------------------------------
(* Whole documents. *)
ValidType(v) == /\ IsObj(v) /\ Keys(v) = { "state-names", "weight-type" } /\ Len(v.m) = 2
                /\ Get(v, "state-names").t = "bool"
                /\ LET w == Get(v, "weight-type") IN
                   \/ IsStr(w) /\ w.s \in { "none", "uint", "int" }
                   \/ IsArr(w) /\ Len(w.e) \in { 1, 2 } /\ IsStr(w.e[1]) /\ w.e[1].s \in { "uint", "int" } /\ (Len(w.e) = 2 => IsNat(w.e[2]))
TypeWt(v) == LET w == Get(v, "weight-type") IN IF IsStr(w) THEN w.s ELSE IF w.e[1].s = "uint" THEN "vuint" ELSE "vint"
TypeNamed(v) == Get(v, "state-names").b
InstOf(d) == Get(d, "instance").e

Valid(ev) ==
    LET d == ev.doc IN
    CASE ev.kind = "pda" -> IsObj(d) /\ Cnt(d, "pda") = 1 /\ ValidPda(Get(d, "pda"), ev.named, ev.wt)
      [] ev.kind = "aut" -> IsObj(d) /\ Keys(d) = { "P-automaton" } /\ Len(d.m) = 1
                            /\ ValidAut(Get(d, "P-automaton"), ev.named, StateMeaning(ev.base, ev.named, ev.wt), TRUE)
      [] ev.kind = "inst" -> /\ IsObj(d) /\ Keys(d) = { "instance" } /\ Len(d.m) = 1 /\ IsArr(Get(d, "instance")) /\ Len(InstOf(d)) = 4
                             /\ ValidType(InstOf(d)[1])
                             /\ LET named == TypeNamed(InstOf(d)[1])
                                    wt == TypeWt(InstOf(d)[1])
                                IN  /\ ValidPda(InstOf(d)[2], named, wt)
                                    /\ LET M == StateMeaning(InstOf(d)[2], named, wt)
                                       IN  ValidAut(InstOf(d)[3], named, M, FALSE) /\ ValidAut(InstOf(d)[4], named, M, FALSE)

(* States of the object, its rules, and labels: everything the document mentions (an object that was printed may *)
(* have had more labels).                                                                                       *)
PdaMatch(M, obs, more, exact) ==
    /\ SetOf(obs.states) = M.states
    /\ Norm(SetOf(obs.rules)) = Norm(M.rules)
    /\ IF exact THEN SetOf(obs.labels) = M.labels \cup more ELSE M.labels \cup more \subseteq SetOf(obs.labels)

Means(ev, exact) ==
    LET d == ev.doc IN
    CASE ev.kind = "pda" -> PdaMatch(StateMeaning(Get(d, "pda"), ev.named, ev.wt), ev.pda, {}, exact)
      [] ev.kind = "aut" -> Match(AutMeaning(Get(d, "P-automaton"), ev.named, StateMeaning(ev.base, ev.named, ev.wt)), ev.I, exact)
      [] ev.kind = "inst" -> LET named == TypeNamed(InstOf(d)[1])
                                 wt == TypeWt(InstOf(d)[1])
                                 M == StateMeaning(InstOf(d)[2], named, wt)
                                 A == AutMeaning(InstOf(d)[3], named, M)
                                 B == AutMeaning(InstOf(d)[4], named, M)
                             IN  /\ exact => ev.isnamed = named
                                 /\ PdaMatch(M, ev.pda, A.labels \cup B.labels, exact)
                                 /\ Match(A, ev.I, exact) /\ Match(B, ev.F, exact)

Parsed == /\ Is("parse")
         /\ IF Ev.doc.t # "bad" /\ Valid(Ev) THEN Ev.ok /\ Means(Ev, TRUE) ELSE ~Ev.ok
Printed == /\ Is("print") /\ Valid(Ev) /\ Means(Ev, FALSE)

Init == l = 1
Next == Is("new") \/ Parsed \/ Printed
Spec == Init /\ [][Next]_l
=============================================================================
