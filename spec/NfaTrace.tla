------------------------------ MODULE NfaTrace ------------------------------
(***************************************************************************)
(* Histories of NFA operations.  The state is a set of registers, each     *)
(* holding a language (or nothing, after it was moved from); an operation  *)
(* of the library is an action on the registers; an observation reports    *)
(* the words the real NFA accepts.                                         *)
(***************************************************************************)
EXTENDS Regular, TraceLib

VARIABLES reg,   \* register |-> language; only live registers are in the domain
          ex,    \* register |-> expression, for words of any length
          L, k   \* alphabet and bound of the observations
vars == << l, reg, ex, L, k >>

Set(r, v, e) == reg' = TLCEval((r :> v) @@ reg) /\ ex' = TLCEval((r :> e) @@ ex)
SetKill(r, v, e, s) == /\ reg' = TLCEval([ x \in (DOMAIN reg \cup { r }) \ { s } |-> IF x = r THEN v ELSE reg[x] ])
                       /\ ex' = TLCEval([ x \in (DOMAIN reg \cup { r }) \ { s } |-> IF x = r THEN e ELSE ex[x] ])

New == /\ Is("new") /\ reg' = << >> /\ ex' = << >> /\ L' = 0 .. (Ev.nl - 1) /\ k' = Ev.k

Op == /\ Is("op") /\ UNCHANGED << L, k >>
      /\ LET r == Ev.r IN
         CASE Ev.op = "set"   -> Set(r, Atom(L, Ev.neg, SetOf(Ev.ls)), << "set", Ev.neg, SetOf(Ev.ls) >>)
           [] Ev.op = "unit"  -> Set(r, { << >> }, << "eps" >>)
           [] Ev.op = "empty" -> Set(r, {}, << "none" >>)
           [] Ev.op = "or"    -> SetKill(r, reg[r] \cup reg[Ev.s], << "or", ex[r], ex[Ev.s] >>, Ev.s)
           [] Ev.op = "cat"   -> SetKill(r, CatL(reg[r], reg[Ev.s], k), << "cat", ex[r], ex[Ev.s] >>, Ev.s)
           [] Ev.op = "opt"   -> Set(r, OptL(reg[r]), << "opt", ex[r] >>)
           [] Ev.op = "star"  -> Set(r, StarL(reg[r], k), << "star", ex[r] >>)
           [] Ev.op = "plus"  -> Set(r, PlusL(reg[r], k), << "plus", ex[r] >>)
           [] Ev.op = "copy"  -> Set(r, reg[Ev.s], ex[Ev.s])             \* copy construction and copy assignment
           [] Ev.op = "move"  -> SetKill(r, reg[Ev.s], ex[Ev.s], Ev.s)   \* move construction and move assignment
           [] Ev.op \in { "self", "compile" } -> UNCHANGED << reg, ex >> \* self-assignment

(* What the real NFA in a register accepts. *)
Obs == /\ Is("obs") /\ UNCHANGED << reg, ex, L, k >>
       /\ SetOf(Ev.acc) = reg[Ev.r]
       /\ Ev.empty = (<< >> \in reg[Ev.r])

(* The graph of a compiled NFA: its language, and queries about its edges. *)
Graph ==
    /\ Is("graph") /\ UNCHANGED << reg, ex, L, k >>
    /\ LET E == SetOf(Ev.edges)
           acc == SetOf(Ev.acc)
           useful(q) == q \in acc \/ \E e \in E : e[1] = q /\ NonEps(e)
           to(S, x) == EpsReach(E, { e[2] : e \in { y \in E : y[1] \in S /\ HasLabel(y, x) } })
       IN  /\ GraphLang(E, acc, L, EpsReach(E, SetOf(Ev.init)), k) = reg[Ev.r]
           /\ SameLanguage(ex[Ev.r], E, acc, L, EpsReach(E, SetOf(Ev.init)))
           /\ \A i \in 1 .. Len(Ev.q) :
                LET q == Ev.q[i] IN
                CASE q.q = "isect" ->  \* the labels with which one gets from a set of states to a state
                       /\ SetOf(q.res) = { x \in SetOf(q.ls) : q.to \in to(SetOf(q.from), x) }
                       /\ \A j \in 1 .. (Len(q.res) - 1) : q.res[j] < q.res[j + 1]
                  [] q.q = "succ" -> SetOf(q.res) = { s \in to(SetOf(q.from), q.x) : useful(s) }
                  [] q.q = "has"  -> q.res = (q.to \in { s \in to(SetOf(q.from), q.x) : useful(s) })
                  [] q.q = "prel" ->  \* the labels on the edges of the paths to a state
                       LET B == BackReach(E, { q.to })
                       IN  /\ SetOf(q.res) = { x \in L : \E e \in E : e[2] \in B /\ HasLabel(e, x) }
                           /\ \A j \in 1 .. (Len(q.res) - 1) : q.res[j] < q.res[j + 1]
                  [] q.q = "noneps" -> q.res = \E e \in E : e[1] = q.from /\ NonEps(e)
                  [] q.q = "edge" ->  \* one edge: its labels, where it leads, and its source
                       /\ q.e \in E
                       /\ SetOf(q.has) = { x \in L : HasLabel(q.e, x) }
                       /\ q.none = (q.has = << >>)
                       /\ q.all = (SetOf(q.has) = L)
                       /\ SetOf(q.follow) = { s \in EpsReach(E, { q.e[2] }) : useful(s) }
                       /\ q.noneps = \E e \in E : e[1] = q.e[1] /\ NonEps(e)
                       /\ q.one = (q.to \in { s \in to({ q.e[1] }, 0) : useful(s) })
                  [] q.q = "eps"  -> q.res = (q.to \in EpsReach(E, { q.from }))

Init == l = 1 /\ reg = << >> /\ ex = << >> /\ L = {} /\ k = 0
Next == New \/ Op \/ Obs \/ Graph
Spec == Init /\ [][Next]_vars
=============================================================================
