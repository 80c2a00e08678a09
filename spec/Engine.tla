------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The engines as machines: saturation with a workset, processed in any    *)
(* order, with early termination.  "pre" extends the final automaton       *)
(* backwards, "post" the initial automaton forwards, "dual" takes turns    *)
(* and stops when the two meet or one of them is complete.  An edge is     *)
(* << from, label, to >>.                                                  *)
(***************************************************************************)
EXTENDS PDS

VARIABLES mode, R, I, F,     \* the instance; I and F are [n, acc, e]: states, accepting states, edges
          preE, preW,        \* edges found backwards: processed, and waiting
          postE, postW,      \* edges found forwards
          turn, answer       \* "pre" / "post"; "none" / "yes" / "no"

evars == << mode, R, I, F, preE, preW, postE, postW, turn, answer >>

(* Edges that follow from e together with the processed edges E (e among them). *)
PreFrom(E, e) ==
    { << r.from, r.pre, e[3] >> : r \in { x \in R : (x.op = "swap" /\ x.to = e[1] /\ x.opl = e[2]) \/ (x.op = "noop" /\ x.to = e[1] /\ x.pre = e[2]) } }
    \cup UNION { { << r.from, r.pre, f[3] >> : f \in { x \in E : x[1] = e[3] /\ x[2] = r.pre } } : r \in { x \in R : x.op = "push" /\ x.to = e[1] /\ x.opl = e[2] } }
    \cup UNION { IF << r.to, r.opl, e[1] >> \in E THEN { << r.from, r.pre, e[3] >> } ELSE {} : r \in { x \in R : x.op = "push" /\ x.pre = e[2] } }

PreInit == F.e \cup { << r.from, r.pre, r.to >> : r \in { x \in R : x.op = "pop" } }

(* Forward: auxiliary states are numbered from I.n; nl labels. *)
PostRule(r, nl, t) ==
    CASE r.op = "pop"  -> { << r.to, EPS, t >> }
      [] r.op = "swap" -> { << r.to, r.opl, t >> }
      [] r.op = "noop" -> { << r.to, r.pre, t >> }
      [] r.op = "push" -> { << r.to, r.opl, Mid(I.n, nl, r.to, r.opl) >>, << Mid(I.n, nl, r.to, r.opl), r.pre, t >> }
PostFrom(E, e, nl) ==
    IF e[2] = EPS THEN { << e[1], f[2], f[3] >> : f \in { x \in E : x[1] = e[3] } }    \* an epsilon edge is followed by what leaves its target
    ELSE UNION { PostRule(r, nl, e[3]) : r \in { x \in R : x.from = e[1] /\ x.pre = e[2] } }
         \cup { << f[1], e[2], e[3] >> : f \in { x \in E : x[2] = EPS /\ x[3] = e[1] } }

(* Do the edges found so far admit a common configuration?  Nodes are pairs of a forward and a backward state. *)
RECURSIVE Meet(_, _, _, _)
Meet(E1, E2, S, acc) ==
    LET step(p) == UNION { IF x[2] = EPS THEN { << x[3], p[2] >> } ELSE { << x[3], y[3] >> : y \in { f \in E2 : f[1] = p[2] /\ f[2] = x[2] } }
                           : x \in { e \in E1 : e[1] = p[1] } }
        T == TLCEval(S \cup UNION { step(p) : p \in S })
    IN  IF T = S THEN \E x \in S : x[1] \in acc[1] /\ x[2] \in acc[2] ELSE Meet(E1, E2, T, acc)
Met(P) == Meet(postE \cup postW, preE \cup preW, { << p, p >> : p \in P }, << I.acc, F.acc >>)

PreStepOf(e) == /\ preE' = preE \cup { e }
                /\ preW' = (preW \cup PreFrom(preE \cup { e }, e)) \ (preE \cup { e })
                /\ UNCHANGED << postE, postW >>
PostStepOf(e, nl) == /\ postE' = postE \cup { e }
                     /\ postW' = (postW \cup PostFrom(postE \cup { e }, e, nl)) \ (postE \cup { e })
                     /\ UNCHANGED << preE, preW >>
Go(nl) == /\ answer = "none"
          /\ \/ /\ turn = "pre" /\ \E e \in preW : PreStepOf(e)
             \/ /\ turn = "post" /\ \E e \in postW : PostStepOf(e, nl)
          /\ turn' = IF mode = "dual" THEN (IF turn = "pre" THEN "post" ELSE "pre") ELSE turn
          /\ UNCHANGED << mode, R, I, F, answer >>
Answer(P) == /\ answer = "none"
             /\ \/ Met(P) /\ answer' = "yes"
                \/ (IF mode = "post" THEN postW = {} ELSE IF mode = "pre" THEN preW = {} ELSE preW = {} \/ postW = {}) /\ ~Met(P) /\ answer' = "no"
             /\ UNCHANGED << mode, R, I, F, preE, preW, postE, postW, turn >>
=============================================================================
