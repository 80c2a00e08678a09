----------------------------- MODULE MCRegular -----------------------------
(***************************************************************************)
(* The NFA combinators as a machine that builds NFAs on a stack, together  *)
(* with the expressions they stand for.  Three descriptions of a language  *)
(* (words of an expression, positions of an expression, paths of an NFA)   *)
(* are the same for every NFA that can be built in N operations.           *)
(***************************************************************************)
EXTENDS Regular
CONSTANTS N, K
L == 0 .. 1
VARIABLES st, ops      \* sequence of [e, n, init, acc, edges]
vars == << st, ops >>

Atoms == { << "set", FALSE, { 0 } >>, << "set", TRUE, { 0 } >>, << "set", TRUE, {} >>, << "eps" >>, << "none" >> }
Seq1(S) == IF S = {} THEN << >> ELSE << CHOOSE x \in S : TRUE >>
New(e) == CASE e[1] = "set"  -> [ e |-> e, n |-> 2, init |-> { 1 }, acc |-> { 2 }, edges |-> { << 1, 2, FALSE, e[2], Seq1(e[3]) >> } ]
            [] e[1] = "eps"  -> [ e |-> e, n |-> 1, init |-> { 1 }, acc |-> { 1 }, edges |-> {} ]
            [] e[1] = "none" -> [ e |-> e, n |-> 0, init |-> {}, acc |-> {}, edges |-> {} ]
Shift(S, d) == { x + d : x \in S }
ShiftE(E, d) == { << e[1] + d, e[2] + d, e[3], e[4], e[5] >> : e \in E }
Eps(S, T) == { << s, t, TRUE, FALSE, << >> >> : s \in S, t \in T }
Cat(a, b) == [ e |-> << "cat", a.e, b.e >>, n |-> a.n + b.n, init |-> a.init, acc |-> Shift(b.acc, a.n),
               edges |-> a.edges \cup ShiftE(b.edges, a.n) \cup Eps(a.acc, Shift(b.init, a.n)) ]
Or(a, b) == LET i == a.n + b.n + 1 IN
            [ e |-> << "or", a.e, b.e >>, n |-> i, init |-> { i }, acc |-> a.acc \cup Shift(b.acc, a.n),
              edges |-> a.edges \cup ShiftE(b.edges, a.n) \cup Eps({ i }, a.init \cup Shift(b.init, a.n)) ]
Loop(a) == [ a EXCEPT !.edges = @ \cup Eps(a.acc, a.init) ]
(* An initial state into which an edge leads cannot simply be made accepting. *)
Entered(a) == \E e \in a.edges : e[2] \in a.init
MakeOpt(a, fresh) == IF fresh \/ a.init = {} THEN [ a EXCEPT !.n = @ + 1, !.init = { a.n + 1 }, !.acc = @ \cup { a.n + 1 }, !.edges = @ \cup Eps({ a.n + 1 }, a.init) ]
                     ELSE [ a EXCEPT !.acc = @ \cup a.init ]
Opt(a)  == [ MakeOpt(a, Entered(a)) EXCEPT !.e = << "opt", a.e >> ]
Plus(a) == [ Loop(a) EXCEPT !.e = << "plus", a.e >> ]
Star(a) == [ MakeOpt(Loop(a), Entered(a)) EXCEPT !.e = << "star", a.e >> ]

Init == st = << >> /\ ops = 0
Push == \E e \in Atoms : st' = Append(st, New(e))
Unary == /\ st # << >>
         /\ LET a == st[Len(st)] IN \E b \in { Opt(a), Plus(a), Star(a) } : st' = [ st EXCEPT ![Len(st)] = b ]
Binary == /\ Len(st) >= 2
          /\ LET a == st[Len(st) - 1]  b == st[Len(st)] IN \E c \in { Cat(a, b), Or(a, b) } : st' = Append(SubSeq(st, 1, Len(st) - 2), c)
(* One operation left per pair on the stack, so that everything is combined in the end. *)
Next == /\ ops < N /\ ops' = ops + 1 /\ (Push \/ Unary \/ Binary) /\ Len(st') - 1 <= N - ops'
Spec == Init /\ [][Next]_vars

Top == st[Len(st)]
Start(a) == EpsReach(a.edges, a.init)
Built   == st # << >> => GraphLang(Top.edges, Top.acc, L, Start(Top), K) = LangOf(Top.e, L, K)
Places  == st # << >> => SameLanguage(Top.e, Top.edges, Top.acc, L, Start(Top))
=============================================================================
