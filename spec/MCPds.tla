------------------------------- MODULE MCPds -------------------------------
(***************************************************************************)
(* The pushdown system as a machine that fires rules, started in a         *)
(* configuration of the initial automaton, for every small system: what    *)
(* the specification says about it without running it (saturated automata, *)
(* verdict, optimal weights) is checked against the configurations and     *)
(* accumulated weights the machine goes through.                           *)
(***************************************************************************)
EXTENDS Weighted
CONSTANTS NR,      \* the systems have exactly NR rules
          WS,      \* with weights from WS
          H,       \* bound on the stack height
          K,       \* bound on the number of steps
          SLICE, SLICES   \* only every SLICES-th system, for quick runs

Mixed == { -1, 2 }
np == 2
nl == 2
P == Range0(np)
L == Range0(nl)
Ops == { << "pop", 0 >>, << "noop", 0 >> } \cup ({ "swap", "push" } \X L)
Code(r) == (((r.from * 2 + r.pre) * 2 + r.to) * 2 + r.opl) * 4 + (CASE r.op = "pop" -> 0 [] r.op = "noop" -> 1 [] r.op = "swap" -> 2 [] r.op = "push" -> 3)
Bodies == { [ from |-> p, pre |-> x, op |-> o[1], opl |-> o[2], to |-> q ] : p \in P, x \in L, o \in Ops, q \in P }
RECURSIVE Subsets(_, _)
Subsets(S, k) == IF k = 0 THEN { {} } ELSE { s \cup { x } : s \in Subsets(S, k - 1), x \in S }
RECURSIVE SumCodes(_)
SumCodes(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Code(x) + SumCodes(S \ { x })
Systems == { S \in Subsets(Bodies, NR) : SumCodes(S) % SLICES = SLICE }
(* The initial configurations: << 0, 0 >>; the final ones: << 1, <<>> >> (state 2 of F has no edges), << 1, 1 >>, or any stack in state 1. *)
IAut == [ n |-> 3, acc |-> { 2 }, d |-> DeltaOf(0 .. 2, L, { << 0, 0, 2 >> }) ]
FAut(k) == CASE k = 1 -> [ n |-> 3, acc |-> { 1 }, d |-> DeltaOf(0 .. 2, L, {}) ]
             [] k = 2 -> [ n |-> 3, acc |-> { 2 }, d |-> DeltaOf(0 .. 2, L, { << 1, 1, 2 >> }) ]
             [] k = 3 -> [ n |-> 3, acc |-> { 2 }, d |-> DeltaOf(0 .. 2, L, { << 1, x, 2 >> : x \in L } \cup { << 2, x, 2 >> : x \in L }) ]

VARIABLES R, F, pre, post, verd, omin, omax, c, w, k
vars == << R, F, pre, post, verd, omin, omax, c, w, k >>
PostAut(S) == LET Q == PostQ(3, np, nl)
                  d0 == [ q \in Q |-> [ x \in L \cup { EPS } |-> IF q < 3 /\ x # EPS THEN IAut.d[q][x] ELSE {} ] ]
              IN  PostStar(S, d0, 3, nl)
Init == /\ \E S \in Systems : \E f \in [ S -> WS ] : R = { [ from |-> r.from, pre |-> r.pre, op |-> r.op, opl |-> r.opl, to |-> r.to, w |-> f[r] ] : r \in S }
        /\ \E i \in 1 .. 3 : F = FAut(i)
        /\ pre = PreStar(R, F.d)
        /\ post = PostAut(R)
        /\ verd = Intersects(P, L, IAut.d, IAut.acc, pre, F.acc)
        /\ omin = Optimum(FALSE, R, P, L, IAut.d, IAut.acc, F.d, pre, F.acc)
        /\ omax = Optimum(TRUE, R, P, L, IAut.d, IAut.acc, F.d, pre, F.acc)
        /\ c = << 0, << 0 >> >> /\ w = 0 /\ k = 0
Next == /\ k < K
        /\ \E r \in R : /\ Enabled(r, c)
                        /\ c' = Fire(r, c) /\ w' = w + r.w
                        /\ Len(c'[2]) <= H
        /\ k' = k + 1
        /\ UNCHANGED << R, F, pre, post, verd, omin, omax >>
Spec == Init /\ [][Next]_vars

InFinal == AcceptsNE(F.d, F.acc, c)
(* Every configuration the machine reaches is in post*, and from it a final one is reachable only if pre* says so. *)
PostSound   == AcceptsE(post, IAut.acc, c)
PreSound    == InFinal => verd
PreClosed   == AcceptsNE(pre, F.acc, c) => verd
MinBound    == InFinal => omin <= w
MaxBound    == InFinal => omax >= w
NoRunNoOpt  == ~verd <=> omin = BIG
(* Completeness, looked at in the initial state: what the automata accept is really reached (with taller stacks in between). *)
Reached == ReachBounded(R, { << 0, << 0 >> >> }, { << 0, << 0 >> >> }, H, K)
Small == { << p, x >> : p \in P, x \in Words(L, 2) }
PostComplete == k = 0 => \A x \in Small : AcceptsE(post, IAut.acc, x) => x \in Reached
PreComplete  == k = 0 /\ verd => \E x \in Reached : AcceptsNE(F.d, F.acc, x)
(* The optima are attained (if finite) or exceeded by far (if infinite). *)
RECURSIVE Weights(_, _, _)
Weights(seen, fr, i) == IF i = 0 \/ fr = {} THEN seen
                        ELSE LET nx == UNION { { << Fire(r, x[1]), x[2] + r.w >> : r \in { y \in R : Enabled(y, x[1]) } } : x \in fr }
                                 ok == { x \in nx : Len(x[1][2]) <= H } \ seen
                             IN  Weights(seen \cup ok, ok, i - 1)
Attained == k = 0 /\ verd =>
    LET V == { x[2] : x \in { y \in Weights({ << << 0, << 0 >> >>, 0 >> }, { << << 0, << 0 >> >>, 0 >> }, K) : AcceptsNE(F.d, F.acc, y[1]) } }
    IN  /\ IF omin = INFVAL(FALSE) THEN \E v \in V : v <= -1 ELSE omin \in V
        /\ IF omax = INFVAL(TRUE) THEN \E v \in V : v >= 1 ELSE omax \in V
=============================================================================
