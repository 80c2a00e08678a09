------------------------------ MODULE MCCegar ------------------------------
(***************************************************************************)
(* The refinement loop on every small system and initial abstraction.      *)
(***************************************************************************)
EXTENDS Cegar
CONSTANTS NR, K, H, SLICE, SLICES
np == 2
nl == 3
P == Range0(np)
L == Range0(nl)
From == << 0, << 0 >> >>
Ops == { << "pop", 0 >>, << "noop", 0 >> } \cup ({ "swap", "push" } \X L)
Code(r) == (((r.from * 3 + r.pre) * 2 + r.to) * 3 + r.opl) * 4 + (CASE r.op = "pop" -> 0 [] r.op = "noop" -> 1 [] r.op = "swap" -> 2 [] r.op = "push" -> 3)
Bodies == { [ from |-> p, pre |-> x, op |-> o[1], opl |-> o[2], to |-> q ] : p \in P, x \in L, o \in Ops, q \in P }
RECURSIVE Subsets(_, _)
Subsets(S, n) == IF n = 0 THEN { {} } ELSE { s \cup { x } : s \in Subsets(S, n - 1), x \in S }
RECURSIVE SumCodes(_)
SumCodes(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Code(x) + SumCodes(S \ { x })
Systems == { S \in Subsets(Bodies, NR) : SumCodes(S) % SLICES = SLICE }
(* Partitions, as functions to the least member. *)
Parts(S) == { f \in [ S -> S ] : \A x \in S : f[x] <= x /\ f[f[x]] = f[x] }

Init == /\ R \in Systems /\ Fin \in { << 1, << >> >>, << 1, << 1 >> >>, << 0, << 1, 2 >> >> }
        /\ cl \in Parts(L) /\ cs \in Parts(P)
        /\ a = AbsConf(From) /\ C = { From } /\ k = 0 /\ answer = "none"
Refine == RefineStep(From, np, L) \/ RefineEnd(From)
Next == No(From, np, L) \/ Yes \/ (k < K /\ Len(a[2]) <= H /\ Walk(np, L)) \/ Refine
Spec == Init /\ [][Next]_cvars

Truth == Reaches(R, From, Fin, np, L)
Correct == /\ answer = "yes" => Truth
           /\ answer = "no" => ~Truth
(* The abstraction may only add behaviour. *)
Over == Truth => Reaches(AbsR, AbsConf(From), AbsConf(Fin), np, L)
(* What follows the abstract run is abstracted to it, and really reached. *)
Follows == \A c \in C : AbsConf(c) = a /\ Reaches(R, From, c, np, L)
NeverLost == C # {}
(* The loop is never stuck: it answers, goes on along an abstract run, or can tell something apart. *)
Moves == answer = "none" /\ k < K /\ Len(a[2]) <= H => ENABLED Next
(* Every refinement splits a class, so there are finitely many. *)
Finer == [][ Refine => NClasses' > NClasses ]_cvars
=============================================================================
