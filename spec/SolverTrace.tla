---------------------------- MODULE SolverTrace ----------------------------
(***************************************************************************)
(* Trace validation of the reachability engines.  The trace is recorded    *)
(* from the real library: a "load" event declares an instance, the events  *)
(* after it are what the engines answered for that instance.  Every event  *)
(* is an action of the specification; an answer the specification does not *)
(* allow has no enabled action, so the trace is rejected at that line.     *)
(***************************************************************************)
EXTENDS Weighted, TraceLib

VARIABLES sys,    \* the instance under analysis
          sat,    \* pre* of the final automaton (total transition function)
          verd,   \* the verdict of the specification
          opt     \* optimal weights over all runs from I to F (for the objectives the trace talks about)

vars == << l, sys, sat, verd, opt >>

NoSys == [ R |-> {}, P |-> {}, L |-> {} ]

MkAut(a, L, np) == [ n |-> a.n, acc |-> SeqSet(a.acc), d |-> DeltaOf(Range0(a.n), L, SeqSet(a.e)) ]

Load ==
    /\ Is("load")
    /\ LET L == Range0(Ev.nl)
           R == SeqSet(Ev.rules)
           I == MkAut(Ev.I, L, Ev.np)
           F == MkAut(Ev.F, L, Ev.np)
           d == PreStar(R, F.d)
       IN  /\ sys' = [ R |-> R, P |-> Range0(Ev.np), L |-> L, np |-> Ev.np, nl |-> Ev.nl, I |-> I, F |-> F ]
           /\ sat' = d
           /\ verd' = Intersects(Range0(Ev.np), L, I.d, I.acc, d, F.acc)
           /\ opt' = [ o \in SeqSet(Ev.want) |-> Optimum(o = "max", R, Range0(Ev.np), L, I.d, I.acc, F.d, d, F.acc) ]

Same == UNCHANGED << sys, sat, verd, opt >>

(* An engine answered reachable / unreachable. *)
Verdict == Is("verdict") /\ Same /\ Ev.res = verd

InI(c) == AcceptsNE(sys.I.d, sys.I.acc, c)
InF(c) == AcceptsNE(sys.F.d, sys.F.acc, c)

GoodRun(run) == /\ Len(run) >= 1
                /\ \A i \in 1 .. Len(run) : run[i][1] \in sys.P
                /\ InI(run[1])
                /\ InF(run[Len(run)])
                /\ IsRun(sys.R, run)

(* An engine produced a witness trace. *)
WTrace == Is("trace") /\ Same /\ verd /\ GoodRun(Ev.cfg)

(* An engine produced an optimal weight, and (if finite) a witness for it. *)
OptTrace ==
    /\ Is("wtrace") /\ Same /\ verd
    /\ Ev.ok
    /\ LET maxi == Ev.obj = "max"
           o == opt[Ev.obj]
       IN  IF Ev.inf THEN o = INFVAL(maxi)
           ELSE /\ o = Ev.w
                /\ GoodRun(Ev.cfg)
                /\ RunWeight(maxi, sys.R, Ev.cfg, 1) = Ev.w

(* The language of an automaton (initial, or after saturation), observed on all stacks up to height k. *)
PostD == LET nq == sys.I.n
             Q  == PostQ(nq, sys.np, sys.nl)
             d0 == [ q \in Q |-> [ x \in sys.L \cup { EPS } |-> IF q < nq /\ x # EPS THEN sys.I.d[q][x] ELSE {} ] ]
         IN  PostStar(sys.R, d0, nq, sys.nl)

Configs(k) == { << p, w >> : p \in sys.P, w \in Words(sys.L, k) }
Lang ==
    /\ Is("lang") /\ Same
    /\ LET obs == SeqSet(Ev.acc)
           C == Configs(Ev.k)
       IN  CASE Ev.e = "init" -> obs = { c \in C : InI(c) }
             [] Ev.e = "pre"  -> obs = { c \in C : AcceptsNE(sat, sys.F.acc, c) }
             [] Ev.e = "post" -> LET d == PostD IN obs = { c \in C : AcceptsE(d, sys.I.acc, c) }

(* The same for stacks of every height: the graph of the real automaton is explored together with the automaton of the     *)
(* specification, over the pairs of state sets that a stack leads to from a control state (no further once 400 were seen). *)
RECURSIVE GraphEps(_, _)
GraphEps(E, S) == LET T == TLCEval(S \cup { e[3] : e \in { y \in E : y[2] = EPS /\ y[1] \in S } }) IN IF T = S THEN S ELSE GraphEps(E, T)
GraphRead(E, S, x) == GraphEps(E, { e[3] : e \in { y \in E : y[2] = x /\ y[1] \in S } })
Close(d, S, eps) == IF eps THEN EpsClose(d, S) ELSE S
RECURSIVE AgreeAll(_, _, _, _, _, _, _)
AgreeAll(d, eps, acc, E, gacc, seen, new) ==
    /\ \A p \in new : (p[1] \cap acc # {}) = (p[2] \cap gacc # {})
    /\ LET nx == TLCEval({ << Close(d, UNION { d[q][x] : q \in p[1] }, eps), GraphRead(E, p[2], x) >> : p \in new, x \in sys.L } \ (seen \cup new))
       IN  nx = {} \/ Cardinality(seen) > 400 \/ AgreeAll(d, eps, acc, E, gacc, TLCEval(seen \cup new), nx)
AnyHeight ==
    /\ Is("graph") /\ Same
    /\ LET E == SeqSet(Ev.edges)
           A == CASE Ev.e = "init" -> [ d |-> sys.I.d, eps |-> FALSE, acc |-> sys.I.acc ]
                  [] Ev.e = "pre"  -> [ d |-> sat, eps |-> FALSE, acc |-> sys.F.acc ]
                  [] Ev.e = "post" -> [ d |-> TLCEval(PostD), eps |-> TRUE, acc |-> sys.I.acc ]
       IN  AgreeAll(A.d, A.eps, A.acc, E, SeqSet(Ev.acc), {}, { << Close(A.d, { p }, A.eps), GraphEps(E, { p }) >> : p \in sys.P })

(* Query for a single configuration, and a trace for a single configuration. *)
Query == Is("query") /\ Same /\ Ev.res = AcceptsNE(sat, sys.F.acc, << Ev.p, Ev.s >>)

FromRun(run, e, c) ==
    /\ Len(run) >= 1 /\ IsRun(sys.R, run)
    /\ IF e = "pre" THEN run[1] = c /\ InF(run[Len(run)])
       ELSE run[Len(run)] = c /\ InI(run[1])
(* The empty sequence says that there is no trace for this configuration. *)
CanReach(e, c) == IF e = "pre" THEN AcceptsNE(sat, sys.F.acc, c) ELSE AcceptsE(PostD, sys.I.acc, c)
TraceFrom == Is("tracefrom") /\ Same
             /\ IF Ev.cfg = << >> THEN ~CanReach(Ev.e, << Ev.p, Ev.s >>) ELSE FromRun(Ev.cfg, Ev.e, << Ev.p, Ev.s >>)

(* Best weight from one configuration to F (pre), or from I to one configuration (post). *)
CfgAut(c) == \* the automaton accepting exactly c
    LET n == sys.np + Len(c[2])
        st(i) == IF i = 0 THEN c[1] ELSE sys.np + i - 1
        E == { << st(i - 1), c[2][i], st(i) >> : i \in 1 .. Len(c[2]) }
    IN  [ n |-> n, acc |-> { st(Len(c[2])) }, d |-> DeltaOf(Range0(n), sys.L, E) ]
WTraceFrom ==
    /\ Is("wtracefrom") /\ Same
    /\ LET c == << Ev.p, Ev.s >>
           A == CfgAut(c)
           o == IF Ev.e = "pre" THEN Optimum(FALSE, sys.R, sys.P, sys.L, A.d, A.acc, sys.F.d, sat, sys.F.acc)
                ELSE Optimum(FALSE, sys.R, sys.P, sys.L, sys.I.d, sys.I.acc, A.d, PreStar(sys.R, A.d), A.acc)
       IN  IF Ev.cfg = << >> THEN o = BIG ELSE
           /\ o = Ev.w
           /\ FromRun(Ev.cfg, Ev.e, c)
           /\ RunWeight(FALSE, sys.R, Ev.cfg, 1) = Ev.w

(* A trace given as a sequence of rules, with the automaton paths that accept its end points. *)
RECURSIVE RunOf(_, _, _)
RunOf(c, rs, i) == IF i > Len(rs) THEN << c >>
                   ELSE IF ~Enabled(rs[i], c) THEN << >>
                   ELSE << c >> \o RunOf(Fire(rs[i], c), rs, i + 1)
IsRule(r) == \E x \in sys.R : /\ x.from = r.from /\ x.pre = r.pre /\ x.op = r.op /\ x.to = r.to
                              /\ (r.op \in { "push", "swap" } => x.opl = r.opl)
                              /\ (Ev.weighted => x.w = r.w)
RECURSIVE SumW(_, _)
SumW(rs, i) == IF i > Len(rs) THEN 0 ELSE rs[i].w + SumW(rs, i + 1)
IsPath(A, path, c) == /\ Len(path) = Len(c[2]) + 1
                      /\ path[1] = c[1]
                      /\ \A i \in 1 .. Len(c[2]) : path[i + 1] \in A.d[path[i]][c[2][i]]
                      /\ path[Len(path)] \in A.acc
RuleTrace ==
    /\ Is("rtrace") /\ Same /\ verd
    /\ \A i \in 1 .. Len(Ev.rules) : IsRule(Ev.rules[i])
    /\ LET c0 == << Ev.init, Ev.istack >>
           run == RunOf(c0, Ev.rules, 1)
       IN  /\ Len(run) = Len(Ev.rules) + 1
           /\ run[Len(run)][2] = Ev.fstack
           /\ IsPath(sys.I, Ev.ipath, c0)
           /\ IsPath(sys.F, Ev.fpath, run[Len(run)])
    /\ (Ev.weighted /\ Ev.total # -1) => Ev.total = opt["min"] /\ SumW(Ev.rules, 1) = Ev.total
(* Nothing is returned for an unreachable instance. *)
NoTrace == Is("notrace") /\ Same /\ ~verd /\ Ev.n = 0 /\ ~Ev.state

(* Factories that explore control states on demand: what a factory hands to the solver is exactly the part of   *)
(* the described system that can be entered from the initial states, each state explored once.                  *)
RECURSIVE Entered(_)
Entered(S) == LET T == TLCEval(S \cup { r.to : r \in { x \in sys.R : x.from \in S } }) IN IF T = S THEN S ELSE Entered(T)

Seen(r, weighted) == [ from |-> r.from, pre |-> r.pre, op |-> r.op, opl |-> IF r.op \in { "push", "swap" } THEN r.opl ELSE -1,
                       to |-> r.to, w |-> IF weighted THEN r.w ELSE 0 ]
Compiled ==
    /\ Is("compiled") /\ Same
    /\ LET S == Entered(SeqSet(Ev.start))
       IN  /\ SeqSet(Ev.rules) = { Seen(r, Ev.weighted) : r \in { x \in sys.R : x.from \in S } }
           /\ SeqSet(Ev.asked) = S
           /\ Ev.twice = << >>
           /\ Ev.labels = sys.nl

(* A run of the command-line tool on the loaded instance: what it was given and what it printed. *)
EngineName == << "post*", "pre*", "dual*" >>
Usable == /\ Ev.input
          /\ Ev.engine \in 0 .. 3 /\ Ev.tt \in 0 .. 4
          /\ Ev.engine # 0 /\ Ev.tt >= 2 => Ev.wt # "none"
Keys == (IF Ev.silent THEN {} ELSE { "parsing-duration" })
        \cup (IF Ev.engine = 0 THEN {} ELSE { "engine", "rtime", "result", "trace" } \cup (IF Ev.tt >= 2 /\ verd THEN { "weight" } ELSE {}))
Cli == /\ Is("cli") /\ Same
       /\ IF ~Usable THEN ~Ev.fine /\ Ev.said /\ ~Ev.hasres
          ELSE /\ Ev.fine
               /\ IF Ev.engine = 0 /\ Ev.silent THEN Ev.blank \/ (Ev.wf /\ Ev.keys = << >>)
                  ELSE Ev.wf /\ SeqSet(Ev.keys) = Keys /\ Len(Ev.keys) = Cardinality(Keys)
               /\ Ev.engine # 0 =>
                    /\ Ev.eng = EngineName[Ev.engine]
                    /\ Ev.hasres /\ Ev.res = verd
                    /\ LET maxi == Ev.tt = 3
                           o == opt[IF maxi THEN "max" ELSE "min"]
                       IN  IF ~verd \/ Ev.tt = 0 THEN ~Ev.tr
                           ELSE IF Ev.tt = 1 THEN Ev.tr /\ GoodRun(Ev.cfg)
                           ELSE IF o = INFVAL(maxi) THEN Ev.weight = (IF maxi THEN "inf" ELSE "neginf")   \* no single run has that weight
                           ELSE Ev.weight = "num" /\ Ev.w = o /\ Ev.tr /\ GoodRun(Ev.cfg) /\ RunWeight(maxi, sys.R, Ev.cfg, 1) = o

Init == l = 1 /\ sys = NoSys /\ sat = << >> /\ verd = FALSE /\ opt = << >>
Next == Load \/ Verdict \/ WTrace \/ OptTrace \/ Lang \/ AnyHeight \/ Query \/ TraceFrom \/ WTraceFrom \/ RuleTrace \/ NoTrace \/ Compiled \/ Cli
Spec == Init /\ [][Next]_vars

=============================================================================
