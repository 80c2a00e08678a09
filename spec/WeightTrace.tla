---------------------------- MODULE WeightTrace ----------------------------
(***************************************************************************)
(* Recorded results of the weight types and weight functions.              *)
(***************************************************************************)
EXTENDS WeightAlgebra, TraceLib

VARIABLE n      \* results seen
vars == << l, n >>

(* One weight x against several ys: sums both ways round and comparisons both ways round. *)
Row == /\ Is("row")
       /\ LET e == Ev IN
          /\ \A i \in 1 .. Len(e.ys) :
                LET y == e.ys[i]
                    s == WAdd(e.k, e.t, e.maxi, e.x, y)
                IN  /\ e.add[i] = s
                    /\ e.dda[i] = WAdd(e.k, e.t, e.maxi, y, e.x)
                    /\ e.less[i] = WLess(e.k, e.t, e.maxi, e.x, y)
                    /\ e.more[i] = WLess(e.k, e.t, e.maxi, y, e.x)
          /\ n' = n + Len(e.ys)

(* Sums of several weights, folded from zero in the order given. *)
RECURSIVE Fold(_, _, _)
Fold(e, acc, i) == IF i > Len(e.xs) THEN acc ELSE Fold(e, WAdd(e.k, e.t, e.maxi, acc, e.xs[i]), i + 1)
Sum == /\ Is("sum") /\ n' = n + 1
       /\ Ev.res = Fold(Ev, WZero(Ev.k, Ev.n), 1)

Const == /\ Is("const") /\ n' = n + 1
         /\ Ev.zero = WZero(Ev.k, Ev.n)
         /\ Ev.bottom = WBottom(Ev.k, Ev.t, Ev.maxi, Ev.n)
         /\ Ev.max = WMax(Ev.k, Ev.t, Ev.maxi, Ev.n)
         /\ Ev.is_weight /\ Ev.is_signed = Ev.t.signed /\ Ev.is_vector = (Ev.k = "vec")
         /\ \A i \in 1 .. Len(Ev.print) : Ev.print[i].s = WPrint(Ev.k, Ev.print[i].x)

(* A linear weight function, and an ordered one made of several. *)
Fun == /\ Is("fun") /\ n' = n + 1
       /\ Len(Ev.res) = Len(Ev.fs)
       /\ \A i \in 1 .. Len(Ev.fs) : /\ Ev.res[i] = EvalF(Ev.fs[i], Ev.args)
                                     /\ Ev.ord[i] = Ev.res[i]
       /\ Len(Ev.ord) = Len(Ev.fs)

Init == l = 1 /\ n = 0
Next == Row \/ Sum \/ Const \/ Fun
Spec == Init /\ [][Next]_vars
=============================================================================
