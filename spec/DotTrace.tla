----------------------------- MODULE DotTrace -----------------------------
(***************************************************************************)
(* Drawings of automata.  The state of the specification is an automaton:  *)
(* nodes (accepting or not), edges with the symbols and weights they carry,*)
(* possibly negated, possibly with epsilon, and initial states.  A drawing *)
(* is a sequence of statements; Shown says when it depicts the automaton.  *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES aut   \* the automaton drawn next
vars == << l, aut >>

SetOf(s) == { s[i] : i \in 1 .. Len(s) }
(* What an edge of an automaton allows: symbols (with weights), all others if negated, epsilon. *)
Means(e) == [ f |-> e.f, t |-> e.t, neg |-> e.neg, syms |-> SetOf(e.syms), eps |-> e.eps, epsw |-> e.epsw ]
(* A star stands for every symbol: the negation of none, or in a P-automaton (no negation there) all its labels. *)
Star(e) == IF aut.kind = "nfa" THEN [ f |-> e.f, t |-> e.t, neg |-> TRUE, syms |-> {}, eps |-> e.eps, epsw |-> e.epsw ]
           ELSE [ f |-> e.f, t |-> e.t, neg |-> FALSE, syms |-> { << x, "" >> : x \in 0 .. (aut.nl - 1) }, eps |-> e.eps, epsw |-> e.epsw ]
Depicts(e) == IF e.star THEN Star(e) ELSE Means(e)

Bag(s, F(_)) == LET D == { F(s[i]) : i \in 1 .. Len(s) } IN [ d \in D |-> Cardinality({ i \in 1 .. Len(s) : F(s[i]) = d }) ]
Id(x) == x

Shown ==
    /\ Ev.ok
    /\ Bag(Ev.nodes, Id) = Bag(aut.st, Id)                  \* every state once, with its shape
    /\ Bag(Ev.edges, Depicts) = Bag(aut.es, Means)
    /\ \A i \in 1 .. Len(Ev.edges) : ~(Ev.edges[i].star /\ Ev.edges[i].neg) /\ Len(Ev.edges[i].syms) = Cardinality(SetOf(Ev.edges[i].syms))
    /\ Bag(Ev.hidden, Id) = Bag(Ev.arrows, Id)              \* the arrow of an initial state comes from an invisible node
    /\ Bag(Ev.arrows, Id) = Bag(aut.init, Id)

New == /\ Is("new")
       /\ aut' = [ kind |-> Ev.kind, nl |-> Ev.nl, st |-> Ev.st, es |-> Ev.es, init |-> Ev.init ]
Dot == /\ Is("dot") /\ UNCHANGED aut /\ Shown

Init == l = 1 /\ aut = [ kind |-> "none", nl |-> 0, st |-> << >>, es |-> << >>, init |-> << >> ]
Next == New \/ Dot
Spec == Init /\ [][Next]_vars
=============================================================================
