---------------------------- MODULE Reduction ----------------------------
(***************************************************************************)
(* Which rules a reduction has to keep.  A run starts with a rule of the   *)
(* start state, which pushes on the empty stack (whatever its pre-label),  *)
(* and ends when the terminal state is reached, with any stack.            *)
(***************************************************************************)
EXTENDS PDS

Body(r) == << r.from, r.to, r.op, r.opl, r.w >>

(* What is left of the stack symbol a rule reads. *)
Pushed(r) == CASE r.op = "pop" -> << >> [] r.op = "swap" -> << r.opl >> [] r.op = "noop" -> << r.pre >> [] r.op = "push" -> << r.opl, r.pre >>

RECURSIVE Backward(_, _, _, _)
Backward(d1, d2, L, S) == \* pairs from which a pair of S can be read on a common word
    LET T == TLCEval(S \cup { x \in (DOMAIN d1) \X (DOMAIN d2) : \E z \in L : (d1[x[1]][z] \X d2[x[2]][z]) \cap S # {} })
    IN  IF T = S THEN S ELSE Backward(d1, d2, L, T)

(* The rules of R that some run uses, and the start rules that begin one. *)
Useful(R, np, nl, init, term) ==
    LET L      == Range0(nl)
        live   == { r \in R : r.from # term }
        starts == { r \in R : r.from = init /\ r.op = "push" }
        end    == np
        dF     == DeltaOf(0 .. np, L, { << term, z, end >> : z \in L } \cup { << end, z, end >> : z \in L })
        D      == PreStar(live, dF)                 \* configurations that reach the terminal state
        accD   == { term, end }
        EL     == L \cup { EPS }
        Q      == PostQ(np + 1, np, nl)
        dI     == DeltaOf(Q, EL, { << r.to, r.opl, np >> : r \in starts })
        A      == PostStar(live, dI, np + 1, nl)    \* configurations reached
        good   == Backward(A, D, L, { np } \X accD)
    IN  [ rules  |-> { r \in live : \E x \in EpsRead(A, r.from, r.pre), y \in ReadWord(D, { r.to }, Pushed(r), 1) : << x, y >> \in good },
          starts |-> { Body(r) : r \in { x \in starts : AcceptsNE(D, accD, << x.to, << x.opl >> >>) } } ]

(* A recorded run: its rules, applied one after the other, lead to the terminal state; the first one pushes on the empty stack. *)
RECURSIVE Replay(_, _, _, _)
Replay(run, k, p, st) ==   \* st: top first
    IF k > Len(run) THEN p
    ELSE IF st = << >> \/ run[k].from # p \/ run[k].pre # st[1] THEN -1
    ELSE Replay(run, k + 1, run[k].to, Pushed(run[k]) \o Tail(st))

RecordedRun(run, R, init, term) == /\ \A i \in DOMAIN run : run[i] \in R
                             /\ run[1].from = init /\ run[1].op = "push"
                             /\ Replay(run, 2, run[1].to, << run[1].opl >>) = term
=============================================================================
