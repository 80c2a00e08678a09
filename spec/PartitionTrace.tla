--------------------------- MODULE PartitionTrace ---------------------------
(***************************************************************************)
(* Abstractions as partitions.                                             *)
(*                                                                         *)
(* First phase (AbstractionMapping): concrete elements k are added; each   *)
(* has an abstract value fn[k], and abstract values are numbered in the    *)
(* order in which they first occur (num).                                  *)
(* Second phase (RefinementMapping): the elements are partitioned into     *)
(* numbered classes cl[k]; refining a class splits it.                     *)
(* Refinements: a pair of sets of pairs (X, Y) is separated by splitting   *)
(* the first and/or the second components; refinements of one class can be *)
(* combined.                                                               *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES fn,      \* element |-> abstract value (sequence, element 0 first)
          num,     \* the abstract values in numbering order
          cl,      \* element |-> class, for the elements that are known
          size,    \* number of classes
          refs     \* refinements being combined: class |-> set of disjoint sets
vars == << l, fn, num, cl, size, refs >>

SetOf(s) == { s[i] : i \in DOMAIN s }
Fn(k) == fn[k + 1]
Put(M, k, v) == (k :> v) @@ M
Idx(a) == CHOOSE i \in DOMAIN num : num[i] = a
NumOf(a) == Idx(a) - 1
Known == DOMAIN cl
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
Lists(s, S) == Distinct(s) /\ SetOf(s) = S     \* s lists S, each element once

New == /\ Is("new") /\ fn' = Ev.fn /\ num' = << >> /\ cl' = << >> /\ size' = 0 /\ refs' = << >>

-----------------------------------------------------------------------------
(* First phase. *)
Insert == /\ Is("insert") /\ UNCHANGED << fn, size, refs >>
          /\ LET a == Fn(Ev.k)
                 new == a \notin SetOf(num)
             IN  /\ Ev.fresh = new
                 /\ num' = IF new THEN Append(num, a) ELSE num
                 /\ Ev.id = IF new THEN Len(num) ELSE NumOf(a)
                 /\ cl' = IF Ev.ignore THEN cl ELSE Put(cl, Ev.k, a)
Exists == /\ Is("exists") /\ UNCHANGED << fn, num, cl, size, refs >>
          /\ LET a == Fn(Ev.k) IN
             /\ Ev.found = (IF Ev.ignore THEN a \in SetOf(num) ELSE Ev.k \in Known)
             /\ Ev.id = IF Ev.found THEN NumOf(a) ELSE -1
Values == /\ Is("values") /\ UNCHANGED << fn, num, cl, size, refs >>
          /\ LET S == { k \in Known : Fn(k) = Ev.a } IN Lists(Ev.list, S) /\ Lists(Ev.range, S)
Map    == /\ Is("map") /\ UNCHANGED << fn, num, cl, size, refs >> /\ Ev.a = Fn(Ev.k)
Abstract == /\ Is("abstract") /\ UNCHANGED << fn, num, cl, size, refs >> /\ Ev.as = num
InsAbs == /\ Is("insabs") /\ UNCHANGED << fn, cl, size, refs >>
          /\ LET new == Ev.a \notin SetOf(num)
             IN  /\ Ev.fresh = new
                 /\ num' = IF new THEN Append(num, Ev.a) ELSE num
                 /\ Ev.id = IF new THEN Len(num) ELSE NumOf(Ev.a)

-----------------------------------------------------------------------------
(* Second phase: the classes start as the numbers of the abstract values. *)
Freeze == /\ Is("freeze") /\ UNCHANGED << fn, num, refs >>
          /\ cl' = [ k \in Known |-> NumOf(Fn(k)) ] /\ size' = Len(num)
Members(i) == { k \in Known : cl[k] = i }
Classes == /\ Is("classes") /\ UNCHANGED << fn, num, cl, size, refs >>
           /\ Ev.size = size
           /\ \A k \in 0 .. (Len(Ev.of) - 1) : Ev.of[k + 1] = IF k \in Known THEN cl[k] ELSE -1
           /\ Len(Ev.members) = size + 1          \* one past the end: no elements
           /\ \A i \in DOMAIN Ev.members : Lists(Ev.members[i].list, Members(i - 1)) /\ Lists(Ev.members[i].range, Members(i - 1))

(* Refining class id by disjoint sets: any numbering in which one of the sets keeps the number, the others get   *)
(* the next numbers, and elements in none of the sets keep the number.  Fewer than two sets: nothing happens.    *)
Refine == /\ Is("refine") /\ UNCHANGED << fn, num, refs >>
          /\ LET n == Len(Ev.parts)
                 P(k) == IF \E i \in 1 .. n : k \in SetOf(Ev.parts[i]) THEN CHOOSE i \in 1 .. n : k \in SetOf(Ev.parts[i]) ELSE 0
             IN  IF n <= 1 THEN UNCHANGED << cl, size >>
                 ELSE /\ size' = size + n - 1
                      /\ \E g \in { h \in [ 1 .. n -> { Ev.id } \cup (size .. (size + n - 2)) ] : \A i, j \in 1 .. n : i # j => h[i] # h[j] } :
                           /\ cl' = [ k \in Known |-> IF cl[k] # Ev.id \/ P(k) = 0 THEN cl[k] ELSE g[P(k)] ]
                           \* which numbering was chosen shows in the next line
                           /\ l + 1 <= Len(Trace) /\ Trace[l + 1].ev = "classes"
                           /\ \A k \in Known : Trace[l + 1].of[k + 1] = cl'[k]
MapsTo == /\ Is("mapsto") /\ UNCHANGED << fn, num, cl, size, refs >>
          /\ Ev.res = (Ev.k \in Known /\ cl[Ev.k] = Ev.id)
(* Encoding of a set of elements as a set of classes: those it touches; those it covers, if the set is to be      *)
(* complemented (so that the complement touches every other class).                                              *)
Encode == /\ Is("encode") /\ UNCHANGED << fn, num, cl, size, refs >>
          /\ LET S == SetOf(Ev.ks) IN
             /\ SetOf(Ev.ids) = { i \in { cl[k] : k \in S } : Ev.neg => Members(i) \subseteq S }
             /\ \A i \in 1 .. (Len(Ev.ids) - 1) : Ev.ids[i] < Ev.ids[i + 1]

-----------------------------------------------------------------------------
(* Refinements: disjoint nonempty sets, over the elements that occur. *)
Parts(ps) == { SetOf(ps[i]) : i \in DOMAIN ps }
Proper(ps) == /\ \A i \in DOMAIN ps : Distinct(ps[i])
              /\ \A i, j \in DOMAIN ps : i # j => SetOf(ps[i]) \cap SetOf(ps[j]) = {}
Separated(P, a, b) == \E S \in P, T \in P : S # T /\ a \in S /\ b \in T
MakeRef ==
    /\ Is("makeref") /\ UNCHANGED << fn, num, cl, size, refs >>
    /\ LET X == SetOf(Ev.X)
           Y == SetOf(Ev.Y)
           W == SetOf(Ev.W)
           A == Parts(Ev.A)
           B == Parts(Ev.B)
           SepXY(x, y) == Separated(A, x[1], y[1]) \/ Separated(B, x[2], y[2])
       IN  /\ Proper(Ev.A) /\ Proper(Ev.B)
           /\ UNION A \subseteq { x[1] : x \in X } \cup { y[1] : y \in Y } \cup W
           /\ UNION B \subseteq { x[2] : x \in X } \cup { y[2] : y \in Y }
           /\ Ev.ids = << 3, 5 >>
           /\ IF Ev.best THEN /\ \A x \in X, y \in Y : SepXY(x, y)
                              /\ \A x \in X, w \in W : Separated(A, x[1], w)
              ELSE \/ \E x \in X, y \in Y : SepXY(x, y)
                   \/ \E x \in X, w \in W : Separated(A, x[1], w)

(* Combining: what was separated stays separated, and the two new sets are separated from each other. *)
Cur(i) == IF i \in DOMAIN refs THEN refs[i] ELSE {}
Combine ==
    /\ Is("combine") /\ UNCHANGED << fn, num, cl, size >>
    /\ ~Ev.empty
    /\ LET a == SetOf(Ev.a)
           b == SetOf(Ev.b)
           new(i) == LET R == { r \in SetOf(Ev.refs) : r.id = i } IN IF R = {} THEN {} ELSE Parts((CHOOSE r \in R : TRUE).parts)
           ids == DOMAIN refs \cup { Ev.id }
       IN  /\ Len(Ev.refs) = Cardinality(ids) /\ { Ev.refs[i].id : i \in DOMAIN Ev.refs } = ids
           /\ \A i \in DOMAIN Ev.refs : Proper(Ev.refs[i].parts)
           /\ \A i \in ids \ { Ev.id } : new(i) = refs[i]
           /\ LET P == new(Ev.id)
                  O == Cur(Ev.id)
              IN  /\ UNION P = UNION O \cup a \cup b
                  /\ \A S \in O, T \in O : S # T => \A x \in S, y \in T : Separated(P, x, y)
                  /\ \A x \in a, y \in b : Separated(P, x, y)
           /\ refs' = [ i \in ids |-> new(i) ]

Init == l = 1 /\ fn = << >> /\ num = << >> /\ cl = << >> /\ size = 0 /\ refs = << >>
Next == \/ New \/ Insert \/ Exists \/ Values \/ Map \/ Abstract \/ InsAbs \/ Freeze \/ Classes \/ Refine \/ MapsTo \/ Encode
        \/ MakeRef \/ Combine
Spec == Init /\ [][Next]_vars
=============================================================================
