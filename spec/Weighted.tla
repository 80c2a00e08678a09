----------------------------- MODULE Weighted -----------------------------
(***************************************************************************)
(* Optimal weights of runs.  The weight of an automaton edge produced by   *)
(* pre* is the optimum over all runs it summarises; it is the solution of  *)
(* a system of equations, one variable per edge of the saturated automaton *)
(* and one per pair of states of the product with the initial automaton.   *)
(* An equation is a set of alternatives << w, subs >>: the constant w plus *)
(* the values of the variables in the sequence subs.                       *)
(***************************************************************************)
EXTENDS PDS

BIG  == 100000000          \* no derivation
ISINF(x) == x = BIG \/ x = -BIG

EdgesOf(d, L) == { << q, l, t >> \in (DOMAIN d) \X L \X (DOMAIN d) : t \in d[q][l] }

Alternatives(R, d0, d, e) ==   \* e = <<q, l, t>> an edge of the saturated automaton d; d0 the original one
    (IF e[3] \in d0[e[1]][e[2]] THEN { << 0, << >> >> } ELSE {})
    \cup UNION { CASE r.op = "pop"  -> IF r.to = e[3] THEN { << r.w, << >> >> } ELSE {}
                   [] r.op = "swap" -> IF e[3] \in d[r.to][r.opl] THEN { << r.w, << << r.to, r.opl, e[3] >> >> >> } ELSE {}
                   [] r.op = "noop" -> IF e[3] \in d[r.to][r.pre] THEN { << r.w, << << r.to, r.pre, e[3] >> >> >> } ELSE {}
                   [] r.op = "push" -> { << r.w, << << r.to, r.opl, q >>, << q, r.pre, e[3] >> >> >> :
                                            q \in { x \in d[r.to][r.opl] : e[3] \in d[x][r.pre] } }
               : r \in { x \in R : x.from = e[1] /\ x.pre = e[2] } }

(* Variables for the product with the initial automaton: <<"n", i, f>>. *)
NodeAlternatives(dI, accI, d, accF, L, N, x) ==
    (IF x[1] \in accI /\ x[2] \in accF THEN { << 0, << >> >> } ELSE {})
    \cup UNION { { << 0, << << x[2], l, y[2] >>, << y[1], y[2] >> >> >> : y \in (dI[x[1]][l] \X d[x[2]][l]) \cap N } : l \in L }

(* Values: BIG = no derivation yet.  maxi selects the optimisation direction. *)
Better(maxi, a, b) == IF b = BIG THEN a # BIG ELSE IF a = BIG THEN FALSE ELSE IF maxi THEN a > b ELSE a < b
INFVAL(maxi) == IF maxi THEN BIG - 1 ELSE -(BIG - 1)

(* Values beyond CAP only arise while a variable with an unbounded optimum is being pumped. *)
CAP == 40000000
AddW(maxi, a, b) == IF a = BIG \/ b = BIG THEN BIG
                    ELSE IF a = INFVAL(maxi) \/ b = INFVAL(maxi) THEN INFVAL(maxi)
                    ELSE LET s == a + b IN IF (maxi /\ s > CAP) \/ (~maxi /\ s < -CAP) THEN INFVAL(maxi) ELSE s

RECURSIVE SumSubs(_, _, _, _)
SumSubs(maxi, v, subs, i) == IF i > Len(subs) THEN 0 ELSE AddW(maxi, v[subs[i]], SumSubs(maxi, v, subs, i + 1))

AltValue(maxi, v, a) == AddW(maxi, a[1], SumSubs(maxi, v, a[2], 1))

BestOf(maxi, S) == LET T == S \ { BIG }
                   IN  IF T = {} THEN BIG
                       ELSE IF maxi THEN CHOOSE x \in T : \A y \in T : y <= x
                       ELSE CHOOSE x \in T : \A y \in T : x <= y

EqStep(maxi, eqs, v) == TLCEval([ x \in DOMAIN eqs |->
    LET b == BestOf(maxi, { AltValue(maxi, v, a) : a \in eqs[x] }) IN IF Better(maxi, b, v[x]) THEN b ELSE v[x] ])

(* After as many rounds as there are variables, a variable that still improves has an unbounded optimum:         *)
(* a derivation tree higher than the number of variables repeats a variable on a path, and improves by pumping. *)
EqStepInf(maxi, eqs, v) == TLCEval([ x \in DOMAIN eqs |->
    LET b == BestOf(maxi, { AltValue(maxi, v, a) : a \in eqs[x] }) IN IF Better(maxi, b, v[x]) THEN INFVAL(maxi) ELSE v[x] ])

RECURSIVE Iterate(_, _, _, _)
Iterate(maxi, eqs, v, k) ==
    IF k > 0 THEN LET u == EqStep(maxi, eqs, v) IN IF u = v THEN v ELSE Iterate(maxi, eqs, u, k - 1)
    ELSE LET u == EqStepInf(maxi, eqs, v) IN IF u = v THEN v ELSE Iterate(maxi, eqs, u, 0)

Solve(maxi, eqs) == Iterate(maxi, eqs, TLCEval([ x \in DOMAIN eqs |-> BIG ]), Cardinality(DOMAIN eqs) + 1)

(* The equation system of a whole instance; d is the saturated pre* automaton of dF. *)
(* Only the variables the value of a start node << p, p >> can depend on are kept.                                     *)
NodeSucc(dI, d, L, x) == UNION { dI[x[1]][l] \X d[x[2]][l] : l \in L }
RECURSIVE CoAcc(_, _, _, _, _)
CoAcc(dI, d, L, N, S) == LET T == TLCEval({ x \in N \ S : NodeSucc(dI, d, L, x) \cap S # {} })
                         IN  IF T = {} THEN S ELSE CoAcc(dI, d, L, N, S \cup T)
SubVars(as) == UNION { SeqSet(a[2]) : a \in as }
RECURSIVE CloseSystem(_, _, _, _)
CloseSystem(R, dF, d, eqs) ==
    LET new == UNION { SubVars(eqs[x]) : x \in DOMAIN eqs } \ DOMAIN eqs
    IN  IF new = {} THEN eqs
        ELSE CloseSystem(R, dF, d, [ x \in new |-> TLCEval(Alternatives(R, dF, d, x)) ] @@ eqs)
System(R, P, L, dI, accI, dF, d, accF) ==
    LET N0 == PairClosure(dI, d, L, { << p, p >> : p \in P })
        N  == CoAcc(dI, d, L, N0, { x \in N0 : x[1] \in accI /\ x[2] \in accF })
    IN  CloseSystem(R, dF, d, TLCEval([ x \in N |-> TLCEval(NodeAlternatives(dI, accI, d, accF, L, N, x)) ]))

(* Optimal weight of a run from a configuration of I to a configuration of F: BIG if there is none. *)
Optimum(maxi, R, P, L, dI, accI, dF, d, accF) ==
    LET v == Solve(maxi, System(R, P, L, dI, accI, dF, d, accF))
    IN  BestOf(maxi, { v[x] : x \in { y \in DOMAIN v : Len(y) = 2 /\ y[1] = y[2] /\ y[1] \in P } })

(* Extremal weight of a given run: each step may be due to several rules. *)
RECURSIVE RunWeight(_, _, _, _)
RunWeight(maxi, R, run, i) ==
    IF i >= Len(run) THEN 0
    ELSE AddW(maxi, BestOf(maxi, { r.w : r \in StepRules(R, run[i], run[i + 1]) }), RunWeight(maxi, R, run, i + 1))

(* Optimal weight over runs from the single configuration c to F (v: solved weights of the saturated automaton). *)
RECURSIVE WordWeights(_, _, _, _, _, _)
(* cur: function from states to best weight so far *)
WordWeights(maxi, d, v, cur, w, i) ==
    IF i > Len(w) THEN cur
    ELSE WordWeights(maxi, d, v,
            [ q \in DOMAIN d |-> BestOf(maxi, { AddW(maxi, cur[s], v[<< s, w[i], q >>]) :
                                                  s \in { x \in DOMAIN d : cur[x] # BIG /\ q \in d[x][w[i]] } }) ], w, i + 1)
=============================================================================
