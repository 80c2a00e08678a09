------------------------------- MODULE Cegar -------------------------------
(***************************************************************************)
(* Abstraction refinement as a machine.  Labels and control states are     *)
(* lumped into classes (cl, cs: element |-> representative).  The machine  *)
(* asks whether the abstract system reaches an abstract final              *)
(* configuration; if so it follows an abstract run, step by step, together *)
(* with the set of concrete configurations that follow it; if that set     *)
(* becomes empty, or holds no final configuration at the end, a class is   *)
(* split so that what was confused here is told apart, and it starts over. *)
(***************************************************************************)
EXTENDS PDS

VARIABLES R,        \* the concrete rules
          Fin,      \* the concrete final configurations: [state, stack]
          cl, cs,   \* label |-> representative, control state |-> representative
          a, C,     \* the abstract configuration reached, and the concrete ones that follow it
          k,        \* steps of the current abstract run
          answer    \* "none" / "yes" / "no"
cvars == << R, Fin, cl, cs, a, C, k, answer >>

AbsStack(s) == [ i \in DOMAIN s |-> cl[s[i]] ]
AbsConf(c) == << cs[c[1]], AbsStack(c[2]) >>
AbsRule(r) == [ from |-> cs[r.from], pre |-> cl[r.pre], op |-> r.op, opl |-> IF r.op \in { "swap", "push" } THEN cl[r.opl] ELSE r.opl, to |-> cs[r.to] ]
AbsR == { AbsRule(r) : r \in R }

(* A P-automaton for a set of one configuration, with states from n on. *)
ConfEdges(c, n) == { << IF i = 1 THEN c[1] ELSE n + i - 1, c[2][i], n + i >> : i \in 1 .. Len(c[2]) }
ConfAcc(c, n) == { IF c[2] = << >> THEN c[1] ELSE n + Len(c[2]) }
PreOf(rules, c, n, L) == PreStar(rules, DeltaOf(0 .. (n + Len(c[2])), L, ConfEdges(c, n)))
Reaches(rules, from, c, n, L) == AcceptsNE(PreOf(rules, c, n, L), ConfAcc(c, n), from)

NClasses == Cardinality({ cl[x] : x \in DOMAIN cl }) + Cardinality({ cs[x] : x \in DOMAIN cs })

(* Splitting a class of f so that u and v are told apart: every way to divide the other members. *)
Splits(f, u, v) ==
    LET M == { x \in DOMAIN f : f[x] = f[u] }
        rep(S) == CHOOSE x \in S : \A y \in S : x <= y
    IN  { [ x \in DOMAIN f |-> IF x \notin M THEN f[x] ELSE IF x \in S THEN rep(S) ELSE rep(M \ S) ] : S \in { T \in SUBSET M : u \in T /\ v \notin T } }
SplitState(u, v) == u # v /\ cs[u] = cs[v] /\ cs' \in Splits(cs, u, v) /\ UNCHANGED cl
SplitLabel(u, v) == u # v /\ cl[u] = cl[v] /\ cl' \in Splits(cl, u, v) /\ UNCHANGED cs

Follow(ar) == UNION { { Fire(r, c) : r \in { x \in R : AbsRule(x) = ar /\ Enabled(x, c) } } : c \in C }

AtEnd == a = AbsConf(Fin)

No(from, n, L) == /\ answer = "none" /\ k = 0 /\ ~Reaches(AbsR, AbsConf(from), AbsConf(Fin), n, L)
                  /\ answer' = "no" /\ UNCHANGED << R, Fin, cl, cs, a, C, k >>
Yes == /\ answer = "none" /\ Fin \in C /\ answer' = "yes" /\ UNCHANGED << R, Fin, cl, cs, a, C, k >>
Walk(n, L) == /\ answer = "none" /\ C # {}
              /\ \E ar \in AbsR : /\ Enabled(ar, a)
                                  /\ Reaches(AbsR, Fire(ar, a), AbsConf(Fin), n, L)
                                  /\ a' = Fire(ar, a)
                                  /\ C' = Follow(ar)
                                  \* a step nothing follows is not taken: it is a reason to refine
                                  /\ C' # {}
              /\ k' = k + 1 /\ UNCHANGED << R, Fin, cl, cs, answer >>
Restart(from) == a' = << cs'[from[1]], [ i \in DOMAIN from[2] |-> cl'[from[2][i]] ] >> /\ C' = { from } /\ k' = 0 /\ UNCHANGED << R, Fin, answer >>
(* No concrete configuration follows the next abstract rule: tell what is on top here apart from what the rule needs. *)
RefineStep(from, n, L) ==
    /\ answer = "none" /\ C # {}
    /\ \E ar \in AbsR : /\ Enabled(ar, a) /\ Reaches(AbsR, Fire(ar, a), AbsConf(Fin), n, L) /\ Follow(ar) = {}
                        /\ \E c \in C, r \in { x \in R : AbsRule(x) = ar } : SplitState(c[1], r.from) \/ SplitLabel(c[2][1], r.pre)
    /\ Restart(from)
(* The abstract run ends in the abstract final configuration, but no concrete one is final. *)
RefineEnd(from) ==
    /\ answer = "none" /\ AtEnd /\ C # {} /\ Fin \notin C
    /\ \E c \in C : \/ SplitState(c[1], Fin[1])
                    \/ \E i \in DOMAIN Fin[2] : SplitLabel(c[2][i], Fin[2][i])
    /\ Restart(from)
=============================================================================
