----------------------------- MODULE PautTrace -----------------------------
(***************************************************************************)
(* Histories of P-automaton construction.  A register holds the set of     *)
(* configurations (stacks up to height k) that the automaton should        *)
(* accept, and the graph of the real automaton as last reported.  Taller   *)
(* stacks are judged against that graph, and where the history gives an    *)
(* expression for the stacks of each state (tall.known), stacks of every   *)
(* height are: the graph is explored together with the expression.         *)
(***************************************************************************)
EXTENDS Regular, TraceLib

VARIABLES reg,       \* register |-> [lang, g, tall]
          P, L, k
vars == << l, reg, P, L, k >>

NoG == [ n |-> 0, acc |-> {}, e |-> {} ]

RECURSIVE Tree(_)
Tree(j) == CASE j[1] = "set" -> << "set", j[2], SetOf(j[3]) >>
             [] j[1] \in { "eps", "none" } -> << j[1] >>
             [] j[1] \in { "cat", "or" } -> << j[1], Tree(j[2]), Tree(j[3]) >>
             [] OTHER -> << j[1], Tree(j[2]) >>

(* Configurations accepted by a graph with edges <<from, label, to, weight>>. *)
RECURSIVE FromState(_, _, _)
FromState(g, q, h) ==
    (IF q \in g.acc THEN { << >> } ELSE {}) \cup
    (IF h = 0 THEN {} ELSE UNION { { << e[2] >> \o w : w \in FromState(g, e[3], h - 1) } : e \in { x \in g.e : x[1] = q } })
GLang(g) == TLCEval(UNION { { << p, w >> : w \in FromState(g, p, k) } : p \in P })

Keep == UNCHANGED << P, L, k >>
Unknown == [ known |-> FALSE, t |-> << >> ]
Known(S, t) == [ known |-> TRUE, t |-> [ p \in P |-> IF p \in S THEN t ELSE << "none" >> ] ]
RECURSIVE WordTree(_)
WordTree(w) == IF w = << >> THEN << "eps" >> ELSE << "cat", << "set", FALSE, { w[1] } >>, WordTree(Tail(w)) >>
SetT(r, v, t) == reg' = TLCEval((r :> [ lang |-> v, g |-> NoG, tall |-> t ]) @@ reg)
Set(r, v) == SetT(r, v, Unknown)
Both(t, u) == IF t.known /\ u.known THEN [ known |-> TRUE, t |-> [ p \in P |-> IF t.t[p] = << "none" >> THEN u.t[p] ELSE IF u.t[p] = << "none" >> THEN t.t[p] ELSE << "or", t.t[p], u.t[p] >> ] ] ELSE Unknown

New == Is("new") /\ reg' = << >> /\ P' = 0 .. (Ev.np - 1) /\ L' = 0 .. (Ev.nl - 1) /\ k' = Ev.k

Op == /\ Is("op") /\ Keep
      /\ LET r == Ev.r IN
         CASE Ev.op = "cfg"     -> SetT(r, { c \in { << Ev.p, Ev.s >> } : Len(c[2]) <= k }, Known({ Ev.p }, WordTree(Ev.s)))
           [] Ev.op = "nfa"     -> LET t == TLCEval(Tree(Ev.e)) IN SetT(r, { << p, w >> : p \in SetOf(Ev.st), w \in TLCEval(LangOf(t, L, k)) }, Known(SetOf(Ev.st), t))
           [] Ev.op = "special" -> SetT(r, { << p, << >> >> : p \in IF Ev.acc THEN SetOf(Ev.st) ELSE {} }, Known(IF Ev.acc THEN SetOf(Ev.st) ELSE {}, << "eps" >>))
           [] Ev.op = "graph"   -> Set(r, GLang([ n |-> Ev.n, acc |-> SetOf(Ev.acc), e |-> SetOf(Ev.e) ]))
           [] Ev.op = "or"      -> SetT(r, reg[r].lang \cup reg[Ev.s].lang, Both(reg[r].tall, reg[Ev.s].tall))
           [] Ev.op = "copy"    -> SetT(r, reg[Ev.s].lang, reg[Ev.s].tall)
           [] Ev.op = "edges"   -> LET g == reg[r].g   \* more edges between states of the automaton
                                       ls == IF Ev.neg THEN L \ SetOf(Ev.ls) ELSE SetOf(Ev.ls)
                                   IN  Set(r, GLang([ g EXCEPT !.e = @ \cup { << f, x, Ev.t, 0 >> : f \in SetOf(Ev.f), x \in ls } ]))
           [] Ev.op = "accept"  -> Set(r, GLang([ reg[r].g EXCEPT !.acc = @ \cup { Ev.q } ]))

(* A path through existing edges that reads the stack s from state p to an accepting state. *)
IsPath(g, p, s, path) ==
    /\ Len(path) = Len(s) + 1 /\ path[1] = p /\ path[Len(path)] \in g.acc
    /\ \A i \in 1 .. Len(s) : \E e \in g.e : e[1] = path[i] /\ e[2] = s[i] /\ e[3] = path[i + 1]

NONE == 1000000
Min(S) == IF S = {} THEN NONE ELSE CHOOSE x \in S : \A y \in S : x <= y
Plus(a, b) == IF a = NONE \/ b = NONE THEN NONE ELSE a + b
RECURSIVE BestWord(_, _, _, _)   \* least weight of reading s[i..] from q to an accepting state
BestWord(g, q, s, i) ==
    IF i > Len(s) THEN (IF q \in g.acc THEN 0 ELSE NONE)
    ELSE Min({ Plus(e[4], BestWord(g, e[3], s, i + 1)) : e \in { x \in g.e : x[1] = q /\ x[2] = s[i] } })
PathWeight(g, s, path) ==   \* least weight of the edges along a path
    LET RECURSIVE PW(_)
        PW(i) == IF i > Len(s) THEN 0
                 ELSE Plus(Min({ e[4] : e \in { x \in g.e : x[1] = path[i] /\ x[2] = s[i] /\ x[3] = path[i + 1] } }), PW(i + 1))
    IN  PW(1)
RECURSIVE After(_, _, _, _)   \* states that reading s[i..] from the states Q leads to
After(g, Q, s, i) == IF i > Len(s) THEN Q ELSE After(g, TLCEval({ e[3] : e \in { x \in g.e : x[1] \in Q /\ x[2] = s[i] } }), s, i + 1)
RECURSIVE BestFwd(_, _, _, _)  \* the same as BestWord, from the states with the weights d, for tall stacks
BestFwd(g, d, s, i) ==
    IF i > Len(s) THEN Min({ d[q] : q \in DOMAIN d \cap g.acc })
    ELSE BestFwd(g, TLCEval([ q \in 0 .. (g.n - 1) |-> Min({ Plus(e[4], d[e[1]]) : e \in { x \in g.e : x[3] = q /\ x[2] = s[i] } }) ]), s, i + 1)
RECURSIVE BestAll(_, _)  \* least weight from each state to an accepting one
BestAll(g, d) == LET d2 == TLCEval([ q \in DOMAIN d |-> Min({ d[q] } \cup { Plus(e[4], d[e[3]]) : e \in { x \in g.e : x[1] = q } }) ])
                 IN  IF d2 = d THEN d ELSE BestAll(g, d2)

Obs ==
    /\ Is("obs") /\ Keep
    /\ LET r == Ev.r
           g == TLCEval([ n |-> Ev.n, acc |-> SetOf(Ev.acc), e |-> SetOf(Ev.e) ])
           lang == reg[r].lang
       IN  /\ reg' = TLCEval([ reg EXCEPT ![r].g = g ])
           /\ SetOf(Ev.obs) = lang                          \* accepts()
           /\ Ev.has = (g.acc # {})                         \* has_accepting_state()
           /\ GLang(g) = lang                               \* the edges
           /\ \A i \in 1 .. Len(Ev.paths) :                 \* accept_path()
                LET q == Ev.paths[i] IN
                IF q.path = << >> THEN << q.p, q.s >> \notin lang
                ELSE << q.p, q.s >> \in lang /\ IsPath(g, q.p, q.s, q.path)
           /\ \A i \in 1 .. Len(Ev.spaths) :                \* accept_path<Shortest>()
                LET q == Ev.spaths[i] IN
                IF q.path = << >> THEN << q.p, q.s >> \notin lang
                ELSE /\ IsPath(g, q.p, q.s, q.path)
                     /\ q.w = BestWord(g, q.p, q.s, 1)
                     /\ q.w = PathWeight(g, q.s, q.path)
           /\ reg[r].tall.known =>                          \* stacks of every height
                LET E == TLCEval({ << e[1], e[3], FALSE, FALSE, << e[2] >> >> : e \in g.e })
                IN  \A p \in P : SameLanguage(reg[r].tall.t[p], E, g.acc, L, { p })
           /\ \A i \in 1 .. Len(Ev.long) :                  \* the same for tall stacks
                LET q == Ev.long[i]
                    in == TLCEval(After(g, { q.p }, q.s, 1) \cap g.acc # {})
                IN  /\ q.acc = in
                    /\ IF in THEN IsPath(g, q.p, q.s, q.path) ELSE q.path = << >>
                    /\ Ev.wt => IF in THEN /\ IsPath(g, q.p, q.s, q.sp)
                                          /\ q.w = BestFwd(g, [ x \in 0 .. (g.n - 1) |-> IF x = q.p THEN 0 ELSE NONE ], q.s, 1)
                                          /\ q.w = PathWeight(g, q.s, q.sp)
                                ELSE q.sp = << >>
           /\ LET best == BestAll(g, TLCEval([ q \in 0 .. (g.n - 1) |-> IF q \in g.acc THEN 0 ELSE NONE ]))
                  b == Min({ best[p] : p \in P })
              IN  /\ \A i \in 1 .. Len(Ev.fp) :             \* find_path()
                       LET q == Ev.fp[i] IN
                       IF q.path = << >> THEN b = NONE
                       ELSE q.path[1] \in P /\ IsPath(g, q.path[1], q.s, q.path)
                  /\ \A i \in 1 .. Len(Ev.fsp) :            \* find_path_shortest()
                       LET q == Ev.fsp[i] IN
                       IF q.path = << >> THEN b = NONE
                       ELSE /\ q.path[1] \in P /\ IsPath(g, q.path[1], q.s, q.path)
                            /\ q.w = b /\ PathWeight(g, q.s, q.path) = b

Init == l = 1 /\ reg = << >> /\ P = {} /\ L = {} /\ k = 0
Next == New \/ Op \/ Obs
Spec == Init /\ [][Next]_vars
=============================================================================
