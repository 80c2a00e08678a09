----------------------------- MODULE MCReducer -----------------------------
(***************************************************************************)
(* Reduction on every small system.                                        *)
(* SpecRun: the pushdown system as a machine; "Useful" is exactly the set  *)
(* of rules that runs to the terminal state use.                           *)
(* SpecTos: the analysis by labels on top of and below the top of the      *)
(* stack, in any order: what it finds unreachable is not used by any run.  *)
(***************************************************************************)
EXTENDS Reduction
CONSTANTS NR, H, K, SLICE, SLICES
np == 4
nl == 2
init == 0
term == 1
L == Range0(nl)
Ops == { << "pop", 0 >>, << "noop", 0 >> } \cup ({ "swap", "push" } \X L)
Rule(p, x, o, q) == [ from |-> p, pre |-> x, op |-> o[1], opl |-> o[2], to |-> q, w |-> 0 ]
Start == { Rule(0, 0, << "push", x >>, 2) : x \in L }
Bodies == { Rule(p, x, o, q) : p \in { 2, 3 }, x \in L, o \in Ops, q \in { 1, 2, 3 } }
Code(r) == (((r.from * 2 + r.pre) * 3 + r.to) * 2 + r.opl) * 4 + (CASE r.op = "pop" -> 0 [] r.op = "noop" -> 1 [] r.op = "swap" -> 2 [] r.op = "push" -> 3)
RECURSIVE Subsets(_, _)
Subsets(S, k) == IF k = 0 THEN { {} } ELSE { s \cup { x } : s \in Subsets(S, k - 1), x \in S }
RECURSIVE SumCodes(_)
SumCodes(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Code(x) + SumCodes(S \ { x })
Systems == { S \cup { s } : S \in { T \in Subsets(Bodies, NR) : SumCodes(T) % SLICES = SLICE }, s \in Start }

VARIABLES R, U, c, used, tos, below
vars == << R, U, c, used, tos, below >>
Init == /\ R \in Systems /\ U = Useful(R, np, nl, init, term)
        /\ c = << init, << >> >> /\ used = {}
        /\ tos = [ p \in Range0(np) |-> {} ] /\ below = [ p \in Range0(np) |-> {} ]

(* The machine. *)
Go == \/ \E r \in R : /\ c[1] = init /\ r.from = init /\ c' = << r.to, << r.opl >> >> /\ UNCHANGED used
      \/ \E r \in R : /\ c[1] \notin { init, term } /\ Enabled(r, c) /\ c' = Fire(r, c) /\ Len(c'[2]) <= H /\ used' = used \cup { r }
SpecRun == Init /\ [][Go /\ UNCHANGED << R, U, tos, below >>]_vars
UsedUseful == c[1] = term => /\ used \subseteq U.rules
                             /\ U.starts # {}
Ends(x) == \E y \in ReachBounded(R, { x }, { x }, H + 4, K) : y[1] = term
UsefulUsed == c[1] = init =>
    LET s == CHOOSE r \in R : r.from = init
        x0 == << s.to, << s.opl >> >>
        live == { r \in R : r.from \notin { init, term } }
        reach == ReachBounded(live, { x0 }, { x0 }, H + 2, K)
    IN  /\ \A r \in U.rules : \E x \in reach : Enabled(r, x) /\ Ends(Fire(r, x))
        /\ U.starts # {} <=> Ends(x0)

(* The analysis: labels on top (tos) and below the top, per state. *)
Add(p, t, b) == /\ tos' = [ tos EXCEPT ![p] = @ \cup t ] /\ below' = [ below EXCEPT ![p] = @ \cup b ]
                /\ << tos', below' >> # << tos, below >>
Flow(r) == IF r.from = init THEN Add(r.to, { r.opl }, {})
           ELSE /\ r.from # term /\ r.pre \in tos[r.from]
                /\ CASE r.op = "pop"  -> Add(r.to, below[r.from], below[r.from])
                     [] r.op = "swap" -> Add(r.to, { r.opl }, below[r.from])
                     [] r.op = "noop" -> Add(r.to, { r.pre }, below[r.from])
                     [] r.op = "push" -> Add(r.to, { r.opl }, below[r.from] \cup { r.pre })
Analyse == (\E r \in R : Flow(r)) /\ UNCHANGED << R, U, c, used >>
SpecTos == Init /\ [][Analyse]_vars /\ WF_vars(Analyse)
Fix == \A r \in R : ~ENABLED Flow(r)
Kept == { r \in R : r.from # init /\ r.pre \in tos[r.from] }
KeepsUseful == Fix => U.rules \subseteq Kept
Covers == Fix =>
    LET s == CHOOSE r \in R : r.from = init
        x0 == << s.to, << s.opl >> >>
    IN  \A x \in ReachBounded({ r \in R : r.from \notin { init, term } }, { x0 }, { x0 }, 3, 4) :
            x[2] # << >> => x[2][1] \in tos[x[1]] /\ \A i \in 2 .. Len(x[2]) : x[2][i] \in below[x[1]]
Settles == <>[]Fix
=============================================================================
