--------------------------- MODULE WeightAlgebra ---------------------------
(***************************************************************************)
(* Weights.  A number is a pair << a, k >> that stands for a * U + k, where*)
(* U is a unit much larger than any k that occurs; pairs are compared      *)
(* lexicographically, and U never has to be known.  (8-bit types are       *)
(* modelled with a = 0, exactly.)  A number type is a record               *)
(*    [ signed |-> BOOLEAN, lo |-> least number, hi |-> greatest number ]. *)
(* A weight is a number ("num"), an array or a vector ("seq") of numbers.  *)
(* max is "no run"; bottom is the optimum, "unbounded".                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Num(k)     == << 0, k >>
Plus(x, y) == << x[1] + y[1], x[2] + y[2] >>
Lt(x, y)   == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Clamp(x, lo, hi) == IF Lt(x, lo) THEN lo ELSE IF Lt(hi, x) THEN hi ELSE x
Zero == Num(0)

Bottom(t, maxi) == IF ~maxi THEN t.lo ELSE IF t.signed THEN t.hi ELSE Plus(t.hi, Num(-1))
Max(t, maxi)    == IF maxi /\ t.signed THEN t.lo ELSE t.hi

Less(t, maxi, x, y) ==
    IF ~maxi THEN Lt(x, y)
    ELSE IF t.signed THEN Lt(y, x)
    ELSE x # Max(t, maxi) /\ (y = Max(t, maxi) \/ Lt(y, x))    \* the largest unsigned number is worse than any other

(* max absorbs everything, bottom everything but max; other sums saturate at the best/worst value that is not max. *)
Add(t, maxi, x, y) ==
    LET mx == Max(t, maxi)
        bt == Bottom(t, maxi)
        lo == IF mx = t.lo THEN Plus(mx, Num(1)) ELSE t.lo
        hi == IF mx = t.hi THEN Plus(mx, Num(-1)) ELSE t.hi
    IN  IF x = mx \/ y = mx THEN mx
        ELSE IF bt # Zero /\ (x = bt \/ y = bt) THEN bt
        ELSE Clamp(Plus(x, y), lo, hi)

(* Arrays: pointwise and lexicographic. *)
RECURSIVE LexLess(_, _, _, _, _)
LexLess(t, maxi, x, y, i) ==
    IF i > Len(x) \/ i > Len(y) THEN FALSE
    ELSE Less(t, maxi, x[i], y[i]) \/ (~Less(t, maxi, y[i], x[i]) /\ LexLess(t, maxi, x, y, i + 1))
ABottom(t, maxi, n) == [ i \in 1 .. n |-> Bottom(t, maxi) ]
AMax(t, maxi, n)    == [ i \in 1 .. n |-> Max(t, maxi) ]
AZero(n)            == [ i \in 1 .. n |-> Zero ]
ALess(t, maxi, x, y) == LexLess(t, maxi, x, y, 1)
AAdd(t, maxi, x, y)  == [ i \in 1 .. Len(x) |-> Add(t, maxi, x[i], y[i]) ]

(* Vectors: missing elements count as zero.  Unsigned vectors to be minimised that differ only in trailing zeros   *)
(* are ordered by length. *)
Longer(x, y) == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
Pad(x, n)    == [ i \in 1 .. n |-> IF i <= Len(x) THEN x[i] ELSE Zero ]
VBottom(t, maxi) == << Bottom(t, maxi) >>
VMax(t, maxi)    == << Max(t, maxi) >>
VZero            == << >>
VLess(t, maxi, x, y) ==
    LET n == Longer(x, y)
        a == Pad(x, n)
        b == Pad(y, n)
    IN  IF ~maxi /\ ~t.signed /\ a = b THEN Len(x) < Len(y) ELSE LexLess(t, maxi, a, b, 1)
VAdd(t, maxi, x, y) ==
    IF x = VMax(t, maxi) \/ y = VMax(t, maxi) THEN VMax(t, maxi)
    ELSE IF (maxi \/ t.signed) /\ (x = VBottom(t, maxi) \/ y = VBottom(t, maxi)) THEN VBottom(t, maxi)
    ELSE [ i \in 1 .. Longer(x, y) |->
             IF i > Len(x) THEN y[i] ELSE IF i > Len(y) THEN x[i] ELSE Add(t, maxi, x[i], y[i]) ]

(* All kinds at once: k is "num", "arr" or "vec". *)
WLess(k, t, maxi, x, y) == CASE k = "num" -> Less(t, maxi, x, y) [] k = "arr" -> ALess(t, maxi, x, y) [] k = "vec" -> VLess(t, maxi, x, y)
WAdd(k, t, maxi, x, y)  == CASE k = "num" -> Add(t, maxi, x, y) [] k = "arr" -> AAdd(t, maxi, x, y) [] k = "vec" -> VAdd(t, maxi, x, y)
WBottom(k, t, maxi, n)  == CASE k = "num" -> Bottom(t, maxi) [] k = "arr" -> ABottom(t, maxi, n) [] k = "vec" -> VBottom(t, maxi)
WMax(k, t, maxi, n)     == CASE k = "num" -> Max(t, maxi) [] k = "arr" -> AMax(t, maxi, n) [] k = "vec" -> VMax(t, maxi)
WZero(k, n)             == CASE k = "num" -> Zero [] k = "arr" -> AZero(n) [] k = "vec" -> VZero

(* Printed form; only small numbers are printed. *)
RECURSIVE Commas(_, _)
Commas(x, i) == IF i > Len(x) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o ToString(x[i][2]) \o Commas(x, i + 1)
WPrint(k, x) == IF k = "num" THEN ToString(x[2]) ELSE "[" \o Commas(x, 1) \o "]"

(* Linear weight functions: << "x", i >> the i-th argument, << "c", n >> a constant, << "lin", << << c1, f1 >>, ... >> >>. *)
Times(c, x) == << c * x[1], c * x[2] >>
RECURSIVE EvalF(_, _), SumF(_, _, _)
EvalF(f, args) == CASE f.f = "x" -> args[f.i]
                    [] f.f = "c" -> f.v
                    [] f.f = "lin" -> SumF(f.p, args, 1)
SumF(p, args, i) == IF i > Len(p) THEN Zero ELSE Plus(Times(p[i].c, EvalF(p[i].g, args)), SumF(p, args, i + 1))
=============================================================================
