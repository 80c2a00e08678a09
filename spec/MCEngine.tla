------------------------------ MODULE MCEngine ------------------------------
(***************************************************************************)
(* The engines on every small system: whatever order they process edges    *)
(* in, they answer, and the answer is the verdict of the specification.    *)
(***************************************************************************)
EXTENDS Engine
CONSTANTS NR, MODES, SLICE, SLICES
np == 2
nl == 2
P == Range0(np)
L == Range0(nl)
Ops == { << "pop", 0 >>, << "noop", 0 >> } \cup ({ "swap", "push" } \X L)
Code(r) == (((r.from * 2 + r.pre) * 2 + r.to) * 2 + r.opl) * 4 + (CASE r.op = "pop" -> 0 [] r.op = "noop" -> 1 [] r.op = "swap" -> 2 [] r.op = "push" -> 3)
Bodies == { [ from |-> p, pre |-> x, op |-> o[1], opl |-> o[2], to |-> q ] : p \in P, x \in L, o \in Ops, q \in P }
RECURSIVE Subsets(_, _)
Subsets(S, k) == IF k = 0 THEN { {} } ELSE { s \cup { x } : s \in Subsets(S, k - 1), x \in S }
RECURSIVE SumCodes(_)
SumCodes(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Code(x) + SumCodes(S \ { x })
Systems == { S \in Subsets(Bodies, NR) : SumCodes(S) % SLICES = SLICE }
(* Initial configurations << 0, 0 1 >>; final ones << 1, <<>> >>, << 1, 1 >> or << 1, 0 1 >>. *)
IAut == [ n |-> 4, acc |-> { 3 }, e |-> { << 0, 0, 2 >>, << 2, 1, 3 >> } ]
FAut(k) == CASE k = 1 -> [ n |-> 4, acc |-> { 1 }, e |-> {} ]
             [] k = 2 -> [ n |-> 4, acc |-> { 2 }, e |-> { << 1, 1, 2 >> } ]
             [] k = 3 -> [ n |-> 4, acc |-> { 3 }, e |-> { << 1, 0, 2 >>, << 2, 1, 3 >> } ]
Init == /\ mode \in MODES /\ R \in Systems /\ I = IAut /\ (\E k \in 1 .. 3 : F = FAut(k))
        /\ turn = (IF mode = "pre" THEN "pre" ELSE "post")
        /\ preE = {} /\ preW = (IF mode = "post" THEN F.e ELSE PreInit)
        /\ postE = {} /\ postW = I.e /\ answer = "none"
Next == Go(nl) \/ Answer(P)
Spec == Init /\ [][Next]_evars /\ WF_evars(Next)

Truth == LET d == PreStar(R, DeltaOf(0 .. 3, L, F.e)) IN Intersects(P, L, DeltaOf(0 .. 3, L, I.e), I.acc, d, F.acc)
Correct == answer # "none" => (answer = "yes") = Truth
(* Nothing is found that is not there, and a finished workset has found everything. *)
PreExact == /\ \A e \in preE \cup preW : e[3] \in PreStar(R, DeltaOf(0 .. 3, L, F.e))[e[1]][e[2]]
            /\ mode # "post" /\ preW = {} => \A e \in (0 .. 3) \X L \X (0 .. 3) : e[3] \in PreStar(R, DeltaOf(0 .. 3, L, F.e))[e[1]][e[2]] => e \in preE
(* Once met, always met: early termination does not depend on when it is tested. *)
Stable == [][ Met(P) => Met(P)' ]_evars
Answers == <>(answer # "none")
=============================================================================
