---------------------------- MODULE ReducerTrace ----------------------------
(***************************************************************************)
(* Reduction.  A run starts with a rule of the start state, which pushes   *)
(* on the empty stack (whatever its pre-label), and ends when the terminal *)
(* state is reached, with any stack.  A reduction may remove a rule only   *)
(* if no such run uses it, and may not add anything.                       *)
(***************************************************************************)
EXTENDS TraceLib, Reduction

SetOf(s) == { s[i] : i \in DOMAIN s }
(* Larger systems come with some of their runs; small ones (no runs given) are analysed. *)
UsefulOf(B) ==
    CASE Ev.init = Ev.term -> [ rules |-> {}, starts |-> {} ]
      [] Ev.init # Ev.term /\ Ev.runs = << >> -> Useful(B, Ev.np, Ev.nl, Ev.init, Ev.term)
      [] OTHER -> [ rules  |-> UNION { { run[i] : i \in 2 .. Len(run) } : run \in SetOf(Ev.runs) },
                    starts |-> { Body(run[1]) : run \in SetOf(Ev.runs) } ]

Reduce == /\ Is("reduce")
          /\ Ev.states = Ev.np
          /\ LET B == SetOf(Ev.before)  A == SetOf(Ev.after)
                 U == UsefulOf(B)
             IN  /\ \A run \in SetOf(Ev.runs) : RecordedRun(run, B, Ev.init, Ev.term)
                 /\ A \subseteq B
                 /\ U.rules \subseteq A
                 /\ U.starts \subseteq { Body(r) : r \in A }
                 /\ Ev.fn = "reduce" => Ev.size[2] <= Ev.size[1]
                 /\ (Ev.fn = "reduce" /\ Ev.level = 0) => A = B /\ Ev.size[1] = Ev.size[2]

Init == l = 1
Next == Reduce
Spec == Init /\ [][Next]_l
=============================================================================
