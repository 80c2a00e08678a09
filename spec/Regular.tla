------------------------------ MODULE Regular ------------------------------
(***************************************************************************)
(* Regular languages, observed on all words of length at most k over the   *)
(* alphabet L.  A language is the set of its words of length at most k;    *)
(* union, concatenation, option, star and plus are exact on such sets.     *)
(*                                                                         *)
(* A regular expression is a tuple:                                        *)
(*   <<"set", negated, labels>>  one label (not) in labels                 *)
(*   <<"eps">>, <<"none">>       the empty word, nothing                   *)
(*   <<"cat", e, f>>, <<"or", e, f>>, <<"opt", e>>, <<"star", e>>,         *)
(*   <<"plus", e>>                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

WordsUpTo(L, k) == TLCEval(UNION { [ 1 .. n -> L ] : n \in 0 .. k })

Atom(L, neg, ls) == { << x >> : x \in IF neg THEN L \ ls ELSE L \cap ls }

(* Concatenation, truncated at length k. *)
CatL(A, B, k) ==
    LET A2 == TLCEval(A)
        B2 == TLCEval(B)
    IN  TLCEval(UNION { { a \o b : b \in { x \in B2 : Len(a) + Len(x) <= k } } : a \in A2 })

RECURSIVE StarFix(_, _, _)
StarFix(A, S, k) == LET T == TLCEval(S \cup CatL(S, A, k)) IN IF T = S THEN S ELSE StarFix(A, T, k)

OptL(A)     == A \cup { << >> }
StarL(A, k) == StarFix(A \ { << >> }, { << >> }, k)
PlusL(A, k) == IF << >> \in A THEN StarL(A, k) ELSE StarL(A, k) \ { << >> }

RECURSIVE LangOf(_, _, _)
LangOf(e, L, k) ==
    CASE e[1] = "set"  -> Atom(L, e[2], e[3])
      [] e[1] = "eps"  -> { << >> }
      [] e[1] = "none" -> {}
      [] e[1] = "cat"  -> CatL(LangOf(e[2], L, k), LangOf(e[3], L, k), k)
      [] e[1] = "or"   -> LangOf(e[2], L, k) \cup LangOf(e[3], L, k)
      [] e[1] = "opt"  -> OptL(LangOf(e[2], L, k))
      [] e[1] = "star" -> StarL(TLCEval(LangOf(e[2], L, k)), k)
      [] e[1] = "plus" -> PlusL(TLCEval(LangOf(e[2], L, k)), k)

(***************************************************************************)
(* Finite automata as graphs.  An edge is <<from, to, eps, neg, labels>>:  *)
(* it can be taken for free if eps, and for a label in labels (if neg: not *)
(* in labels).                                                             *)
(***************************************************************************)
SetOf(s) == { s[i] : i \in 1 .. Len(s) }
HasLabel(e, x) == IF e[4] THEN x \notin SetOf(e[5]) ELSE x \in SetOf(e[5])
NonEps(e) == e[4] \/ e[5] # << >>

RECURSIVE EpsReach(_, _)
EpsReach(E, S) ==
    LET T == TLCEval(S \cup { e[2] : e \in { x \in E : x[3] /\ x[1] \in S } })
    IN  IF T = S THEN S ELSE EpsReach(E, T)

RECURSIVE BackReach(_, _)
BackReach(E, S) == LET T == TLCEval(S \cup { e[1] : e \in { x \in E : x[2] \in S } }) IN IF T = S THEN S ELSE BackReach(E, T)

(* The words of length at most k accepted from the set of states S (already closed), as a set. *)
RECURSIVE GraphLang(_, _, _, _, _)
GraphLang(E, acc, L, S, k) ==
    (IF S \cap acc # {} THEN { << >> } ELSE {}) \cup
    (IF k = 0 \/ S = {} THEN {}
     ELSE UNION { LET T == EpsReach(E, { e[2] : e \in { y \in E : y[1] \in S /\ HasLabel(y, x) } })
                  IN  { << x >> \o w : w \in GraphLang(E, acc, L, T, k - 1) } : x \in L })

(***************************************************************************)
(* All words, of any length: the positions of an expression (an automaton  *)
(* without epsilon edges), explored together with the graph of an NFA.     *)
(* Positions(e, n) numbers the positions of e from n + 1.                  *)
(***************************************************************************)
RECURSIVE Positions(_, _)
Positions(e, n) ==
    CASE e[1] = "set"  -> [ n |-> n + 1, null |-> FALSE, first |-> { n + 1 }, last |-> { n + 1 }, follow |-> {}, lab |-> (n + 1) :> << e[2], e[3] >> ]
      [] e[1] = "eps"  -> [ n |-> n, null |-> TRUE,  first |-> {}, last |-> {}, follow |-> {}, lab |-> << >> ]
      [] e[1] = "none" -> [ n |-> n, null |-> FALSE, first |-> {}, last |-> {}, follow |-> {}, lab |-> << >> ]
      [] e[1] = "or"   -> LET a == Positions(e[2], n)
                              b == Positions(e[3], a.n)
                          IN  TLCEval([ n |-> b.n, null |-> a.null \/ b.null, first |-> a.first \cup b.first, last |-> a.last \cup b.last,
                                        follow |-> a.follow \cup b.follow, lab |-> a.lab @@ b.lab ])
      [] e[1] = "cat"  -> LET a == Positions(e[2], n)
                              b == Positions(e[3], a.n)
                          IN  TLCEval([ n |-> b.n, null |-> a.null /\ b.null,
                                        first |-> a.first \cup (IF a.null THEN b.first ELSE {}), last |-> b.last \cup (IF b.null THEN a.last ELSE {}),
                                        follow |-> a.follow \cup b.follow \cup (a.last \X b.first), lab |-> a.lab @@ b.lab ])
      [] e[1] = "opt"  -> LET a == Positions(e[2], n) IN [ a EXCEPT !.null = TRUE ]
      [] e[1] = "star" -> LET a == Positions(e[2], n) IN TLCEval([ a EXCEPT !.null = TRUE, !.follow = a.follow \cup (a.last \X a.first) ])
      [] e[1] = "plus" -> LET a == Positions(e[2], n) IN TLCEval([ a EXCEPT !.follow = a.follow \cup (a.last \X a.first) ])

PosMatch(A, q, x) == IF A.lab[q][1] THEN x \notin A.lab[q][2] ELSE x \in A.lab[q][2]
PosStep(A, S, x) == { q \in (IF 0 \in S THEN A.first ELSE {}) \cup { f[2] : f \in { y \in A.follow : y[1] \in S } } : PosMatch(A, q, x) }
PosAcc(A, S) == (0 \in S /\ A.null) \/ S \cap A.last # {}
GraphStep(E, S, x) == EpsReach(E, { e[2] : e \in { y \in E : y[1] \in S /\ HasLabel(y, x) } })

(* Do the expression and the graph agree on every word?  (Looks no further once more than 400 pairs of sets were seen.) *)
RECURSIVE Agree(_, _, _, _, _, _)
Agree(A, E, acc, L, seen, new) ==
    /\ \A p \in new : PosAcc(A, p[1]) = (p[2] \cap acc # {})
    /\ LET nx == TLCEval({ << PosStep(A, p[1], x), GraphStep(E, p[2], x) >> : p \in new, x \in L } \ (seen \cup new))
       IN  nx = {} \/ Cardinality(seen) > 400 \/ Agree(A, E, acc, L, TLCEval(seen \cup new), nx)
SameLanguage(e, E, acc, L, S) == Agree(Positions(e, 0), E, acc, L, {}, { << { 0 }, S >> })
=============================================================================
