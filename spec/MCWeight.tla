------------------------------ MODULE MCWeight ------------------------------
(***************************************************************************)
(* The laws of the weights, for every triple of a small number type: the   *)
(* weights of runs are sums, so this is what lets engines compare, extend  *)
(* and cut off partial sums.                                               *)
(***************************************************************************)
EXTENDS WeightAlgebra, FiniteSets
CONSTANTS NB,        \* numbers range over 2*NB values
          KINDS      \* subset of {"num", "arr", "vec"}

Types == { [ signed |-> TRUE, lo |-> Num(-NB), hi |-> Num(NB - 1) ], [ signed |-> FALSE, lo |-> Num(0), hi |-> Num(2 * NB - 1) ] }
Numbers(t) == { Num(k) : k \in t.lo[2] .. t.hi[2] }
Finite(t, maxi) == Numbers(t) \ ({ Max(t, maxi) } \cup (IF Bottom(t, maxi) = Zero THEN {} ELSE { Bottom(t, maxi) }))
(* A weight is finite in every component, or bottom, or max. *)
Weights(k, t, maxi) ==
    CASE k = "num" -> Numbers(t)
      [] k = "arr" -> (Finite(t, maxi) \X Finite(t, maxi)) \cup { ABottom(t, maxi, 2), AMax(t, maxi, 2) }
      [] k = "vec" -> { << >> } \cup { << x >> : x \in Finite(t, maxi) } \cup (Finite(t, maxi) \X Finite(t, maxi)) \cup { VBottom(t, maxi), VMax(t, maxi) }

VARIABLES k, t, maxi, a, b, c
vars == << k, t, maxi, a, b, c >>
Init == /\ k \in KINDS /\ t \in Types /\ maxi \in BOOLEAN
        /\ a \in Weights(k, t, maxi) /\ b \in Weights(k, t, maxi) /\ c = a
Next == c = a /\ c' \in Weights(k, t, maxi) /\ UNCHANGED << k, t, maxi, a, b >>
Spec == Init /\ [][Next]_vars

L(x, y) == WLess(k, t, maxi, x, y)
A(x, y) == WAdd(k, t, maxi, x, y)
Mx == WMax(k, t, maxi, 2)
Bt == WBottom(k, t, maxi, 2)
Z  == WZero(k, 2)
Eq(x, y) == ~L(x, y) /\ ~L(y, x)
(* Saturation loses information: a saturated sum of numbers of both signs may depend on the order of addition, and  *)
(* saturated components are no longer ordered, so these laws are stated for sums that stay in range.               *)
Comp(x) == IF k = "num" THEN << x >> ELSE x
InRange(x, y) == \A i \in 1 .. Len(Comp(x)) : i <= Len(Comp(y)) =>
                    Lt(Plus(t.lo, Num(-1)), Plus(Comp(x)[i], Comp(y)[i])) /\ Lt(Plus(Comp(x)[i], Comp(y)[i]), Plus(t.hi, Num(-1)))
                    /\ (Plus(Comp(x)[i], Comp(y)[i]) \in Finite(t, maxi))
Special(x) == x \in { Mx, Bt }
Nonneg(x) == \A i \in 1 .. Len(Comp(x)) : ~Lt(Comp(x)[i], Zero)

Unit          == A(a, Z) = a /\ A(Z, a) = a
Commutative   == A(a, b) = A(b, a)
Associative   == \/ InRange(a, b) /\ InRange(b, c) /\ InRange(A(a, b), c) /\ InRange(a, A(b, c))
                 \/ (k # "vec" /\ Nonneg(a) /\ Nonneg(b) /\ Nonneg(c)) \/ Special(a) \/ Special(b) \/ Special(c)
                    => Eq(A(A(a, b), c), A(a, A(b, c)))
Absorbing     == A(Mx, a) = Mx /\ (a # Mx /\ Bt # Z /\ (k = "num" \/ maxi \/ t.signed) => A(Bt, a) = Bt)
StrictOrder   == ~L(a, a) /\ (L(a, b) => ~L(b, a)) /\ (L(a, b) /\ L(b, c) => L(a, c)) /\ (L(a, b) => L(a, c) \/ L(c, b))
Monotone      == ~L(b, a) /\ (k = "num" \/ Special(c) \/ ((Special(a) \/ InRange(a, c)) /\ (Special(b) \/ InRange(b, c)))) => ~L(A(b, c), A(a, c))
Extremal      == ~L(Mx, a) /\ (k # "vec" \/ maxi \/ t.signed => ~L(a, Bt))
MaxOnlyOfMax  == A(a, b) = Mx => a = Mx \/ b = Mx
=============================================================================
