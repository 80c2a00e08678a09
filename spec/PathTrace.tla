----------------------------- MODULE PathTrace -----------------------------
(***************************************************************************)
(* Paths through automata.  A path is either null or a sequence of edges   *)
(* (front first) followed by an end state; an edge is recorded as the state*)
(* it leaves and its label.  States are numbers or, in the product of two  *)
(* automata, pairs of numbers.  EPS is the label of epsilon edges.         *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES reg,   \* register |-> [ null, end, edges ]
          pair   \* states are pairs
vars == << l, reg, pair >>

EPS == -1
NullPath == [ null |-> TRUE, end |-> 0, edges |-> << >> ]
Mk(e, es) == [ null |-> FALSE, end |-> e, edges |-> es ]
FrontState(p) == IF p.edges = << >> THEN p.end ELSE p.edges[1][1]
Target(p, i)  == IF i = Len(p.edges) THEN p.end ELSE p.edges[i + 1][1]
Labels(p)     == [ i \in 1 .. Len(p.edges) |-> p.edges[i][2] ]
Real(p)       == SelectSeq(p.edges, LAMBDA e : e[2] # EPS)
Proj(p, c)    == Mk(p.end[c], [ i \in 1 .. Len(p.edges) |-> << p.edges[i][1][c], p.edges[i][2] >> ])
Set(r, p)     == reg' = (r :> p) @@ reg

(* Everything that can be asked of a path. *)
Shows(p, o) ==
    /\ o.null = p.null
    /\ o.empty = (p.edges = << >>)
    /\ o.size = Len(p.edges)
    /\ p.null \/ o.front = FrontState(p)
    /\ p.edges = << >> \/ o.edge = << p.edges[1][1], p.edges[1][2], Target(p, 1) >>
    /\ o.stack = Labels(p)
    /\ p.null \/ (/\ o.path = [ i \in 1 .. (Len(Real(p)) + 1) |-> IF i <= Len(Real(p)) THEN Real(p)[i][1] ELSE p.end ]
                  /\ o.pstack = [ i \in 1 .. Len(Real(p)) |-> Real(p)[i][2] ])

New   == /\ Is("new") /\ pair' = Ev.pair /\ reg' = << >>
Null  == /\ Is("null") /\ UNCHANGED pair /\ Set(Ev.r, NullPath)
Start == /\ Is("start") /\ UNCHANGED pair /\ Set(Ev.r, Mk(Ev.end, << >>))
(* From the list of the states passed and the labels between them. *)
Build == /\ Is("build") /\ UNCHANGED pair
         /\ Len(Ev.path) = Len(Ev.stack) + 1
         /\ Set(Ev.r, Mk(Ev.path[Len(Ev.path)], [ i \in 1 .. Len(Ev.stack) |-> << Ev.path[i], Ev.stack[i] >> ]))
Push  == /\ Is("push") /\ UNCHANGED pair
         /\ LET p == reg[Ev.r] IN ~p.null /\ Set(Ev.r, Mk(p.end, << << Ev.from, Ev.label >> >> \o p.edges))
Pop   == /\ Is("pop") /\ UNCHANGED pair
         /\ LET p == reg[Ev.r] IN p.edges # << >> /\ Set(Ev.r, Mk(p.end, Tail(p.edges)))
(* Drops an epsilon edge in front, if there is one. *)
NoEps == /\ Is("noeps") /\ UNCHANGED pair
         /\ LET p == reg[Ev.r] IN Set(Ev.r, IF p.edges # << >> /\ p.edges[1][2] = EPS THEN Mk(p.end, Tail(p.edges)) ELSE p)
Copy  == /\ Is("copy") /\ UNCHANGED pair /\ Set(Ev.r, reg[Ev.s])
Obs   == /\ Is("obs") /\ UNCHANGED << reg, pair >> /\ Shows(reg[Ev.r], Ev.o)
(* A path of pairs splits into the paths of the components. *)
Split == /\ Is("split") /\ UNCHANGED << reg, pair >> /\ pair
         /\ Shows(Proj(reg[Ev.r], 1), Ev.o1) /\ Shows(Proj(reg[Ev.r], 2), Ev.o2)
Equal == /\ Is("equal") /\ UNCHANGED << reg, pair >>
         /\ Ev.eq = (reg[Ev.r] = reg[Ev.s]) /\ Ev.ne = ~Ev.eq
         /\ Ev.eq => Ev.hash      \* equal paths have equal hashes

Init == l = 1 /\ reg = << >> /\ pair = FALSE
Next == New \/ Null \/ Start \/ Build \/ Push \/ Pop \/ NoEps \/ Copy \/ Obs \/ Split \/ Equal
Spec == Init /\ [][Next]_vars
=============================================================================
