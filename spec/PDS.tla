------------------------------- MODULE PDS -------------------------------
(***************************************************************************)
(* Pushdown systems: operational semantics, P-automata, and the sets of    *)
(* backward / forward reachable configurations.                            *)
(*                                                                         *)
(* A rule is a record [from, pre, op, opl, to, w].  A configuration is a   *)
(* pair <<state, stack>>, the top of the stack first.  A P-automaton is a  *)
(* record [n, acc, d]: states 0..n-1 (the control states first),           *)
(* accepting states acc, and d[q][l] the set of l-successors of q; l = EPS *)
(* is the empty word.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC   \* TLCEval: evaluate eagerly

EPS == -1

Range0(n) == 0 .. (n - 1)
SeqSet(s) == { s[i] : i \in 1 .. Len(s) }

(* ------------------------- operational semantics ----------------------- *)
Enabled(r, c) == c[1] = r.from /\ Len(c[2]) > 0 /\ Head(c[2]) = r.pre

Fire(r, c) ==
    CASE r.op = "pop"  -> << r.to, Tail(c[2]) >>
      [] r.op = "swap" -> << r.to, << r.opl >> \o Tail(c[2]) >>
      [] r.op = "noop" -> << r.to, c[2] >>
      [] r.op = "push" -> << r.to, << r.opl >> \o c[2] >>

Succ(R, c) == { Fire(r, c) : r \in { x \in R : Enabled(x, c) } }

(* The rules that take configuration c to configuration c2 in one step. *)
StepRules(R, c, c2) == { r \in R : Enabled(r, c) /\ Fire(r, c) = c2 }

IsRun(R, run) == \A i \in 1 .. (Len(run) - 1) : StepRules(R, run[i], run[i + 1]) # {}

RECURSIVE ReachBounded(_, _, _, _, _)
(* Configurations reachable from frontier fr (already seen) with stacks of height at most h in at most k rounds. *)
ReachBounded(R, seen, fr, h, k) ==
    IF k = 0 \/ fr = {} THEN seen
    ELSE LET nx == { c \in UNION { Succ(R, x) : x \in fr } : Len(c[2]) <= h } \ seen
         IN  ReachBounded(R, seen \cup nx, nx, h, k - 1)

(* --------------------------------- P-automata -------------------------- *)
(* d as a total function, from a set of edges <<from, label, to>>. *)
DeltaOf(Q, L, E) == TLCEval([ q \in Q |-> TLCEval([ l \in L |-> TLCEval({ e[3] : e \in { x \in E : x[1] = q /\ x[2] = l } }) ]) ])

RECURSIVE ReadWord(_, _, _, _)
ReadWord(d, S, w, i) ==
    IF i > Len(w) \/ S = {} THEN S
    ELSE ReadWord(d, UNION { d[q][w[i]] : q \in S }, w, i + 1)

(* Acceptance without and with epsilon edges. *)
AcceptsNE(d, acc, c) == ReadWord(d, { c[1] }, c[2], 1) \cap acc # {}

RECURSIVE EpsClose(_, _)
EpsClose(d, S) ==
    LET T == TLCEval(S \cup UNION { d[q][EPS] : q \in S })
    IN  IF T = S THEN S ELSE EpsClose(d, T)

RECURSIVE ReadWordE(_, _, _, _)
ReadWordE(d, S, w, i) ==
    IF i > Len(w) \/ S = {} THEN S
    ELSE ReadWordE(d, EpsClose(d, UNION { d[q][w[i]] : q \in S }), w, i + 1)

AcceptsE(d, acc, c) == ReadWordE(d, EpsClose(d, { c[1] }), c[2], 1) \cap acc # {}

Words(L, k) == UNION { [ 1 .. n -> L ] : n \in 0 .. k }

(* --------------------------------- pre* -------------------------------- *)
(* Edges that rule r contributes, given the edges d so far. *)
PreTargets(d, r) ==
    CASE r.op = "pop"  -> { r.to }
      [] r.op = "swap" -> d[r.to][r.opl]
      [] r.op = "noop" -> d[r.to][r.pre]
      [] r.op = "push" -> UNION { d[q][r.pre] : q \in d[r.to][r.opl] }

PreStep(R, d) ==
    TLCEval([ q \in DOMAIN d |-> TLCEval([ l \in DOMAIN d[q] |->
        TLCEval(d[q][l] \cup UNION { PreTargets(d, r) : r \in { x \in R : x.from = q /\ x.pre = l } }) ]) ])

RECURSIVE PreStar(_, _)
PreStar(R, d) == LET e == PreStep(R, d) IN IF e = d THEN d ELSE PreStar(R, e)

(* --------------------------------- post* ------------------------------- *)
(* The auxiliary state for "control state p reached with x pushed on top". *)
Mid(nq, nl, p, x) == nq + p * nl + x
PostQ(nq, np, nl) == 0 .. (nq + np * nl - 1)

(* l-successors of a control state, possibly after one epsilon edge. *)
EpsRead(d, p, l) == UNION { d[s][l] : s \in { p } \cup d[p][EPS] }

PostContrib(d, r, nq, nl) ==   \* a set of edges <<from, label, to>>
    LET T == EpsRead(d, r.from, r.pre) IN
    CASE r.op = "pop"  -> { << r.to, EPS, t >> : t \in T }
      [] r.op = "swap" -> { << r.to, r.opl, t >> : t \in T }
      [] r.op = "noop" -> { << r.to, r.pre, t >> : t \in T }
      [] r.op = "push" -> LET m == Mid(nq, nl, r.to, r.opl)
                          IN  IF T = {} THEN {} ELSE { << r.to, r.opl, m >> } \cup { << m, r.pre, t >> : t \in T }

PostStep(R, d, nq, nl) ==
    LET N == TLCEval(UNION { PostContrib(d, r, nq, nl) : r \in R }) IN
    TLCEval([ q \in DOMAIN d |-> TLCEval([ l \in DOMAIN d[q] |-> TLCEval(d[q][l] \cup { e[3] : e \in { x \in N : x[1] = q /\ x[2] = l } }) ]) ])

RECURSIVE PostStar(_, _, _, _)
PostStar(R, d, nq, nl) == LET e == PostStep(R, d, nq, nl) IN IF e = d THEN d ELSE PostStar(R, e, nq, nl)

(* ------------------------------ intersection --------------------------- *)
RECURSIVE PairClosure(_, _, _, _)
PairClosure(d1, d2, L, S) ==
    LET T == TLCEval(S \cup UNION { UNION { d1[p[1]][l] \X d2[p[2]][l] : l \in L } : p \in S })
    IN  IF T = S THEN S ELSE PairClosure(d1, d2, L, T)

(* Do the two automata accept a common configuration?  (no epsilon edges) *)
Intersects(P, L, d1, acc1, d2, acc2) ==
    \E x \in PairClosure(d1, d2, L, { << p, p >> : p \in P }) : x[1] \in acc1 /\ x[2] \in acc2

(* Verdict of a reachability instance: some configuration of I reaches some configuration of F. *)
Reachable(R, P, L, dI, accI, dF, accF) == Intersects(P, L, dI, accI, PreStar(R, dF), accF)
=============================================================================
