----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* The rule store of a pushdown automaton.  Labels and states are numbered *)
(* in the order of first insertion.  A rule body << from, to, op, label,   *)
(* weight >> (label -1 for pop and noop) has a set of pre-labels, or all   *)
(* labels (also those that come later) if it was added with the wildcard.  *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES labels,  \* names in order of insertion
          states,  \* names of states in order of insertion; only with named states
          n,       \* number of states
          rules,   \* rule body |-> set of label ids, or {ALL}
          exact,   \* no state was cleared: the predecessor index is exact
          ls       \* a label set of its own: {ALL} or a set of ids
vars == << l, labels, states, n, rules, exact, ls >>

ALL == -1
SetOf(s) == { s[i] : i \in DOMAIN s }
Has(seq, x) == \E i \in DOMAIN seq : seq[i] = x
IdOf(seq, x) == (CHOOSE i \in DOMAIN seq : seq[i] = x) - 1
MaxOf(a, b) == IF a > b THEN a ELSE b
Sorted(s) == \A i \in 1 .. (Len(s) - 1) : s[i] < s[i + 1]
Body(e) == << e.from, e.to, e.op, IF e.op \in { "pop", "noop" } THEN -1 ELSE e.opl, e.w >>

New == /\ Is("new") /\ labels' = Ev.labels /\ states' = << >> /\ n' = 0 /\ rules' = << >> /\ exact' = TRUE /\ ls' = {}

Label == /\ Is("label") /\ UNCHANGED << states, n, rules, exact, ls >>
         /\ labels' = IF Has(labels, Ev.x) THEN labels ELSE Append(labels, Ev.x)
         /\ Ev.id = IdOf(labels', Ev.x)
State == /\ Is("state") /\ UNCHANGED << labels, rules, exact, ls >>
         /\ IF Ev.named
            THEN /\ states' = IF Has(states, Ev.x) THEN states ELSE Append(states, Ev.x)
                 /\ Ev.id = IdOf(states', Ev.x)
            ELSE states' = states /\ Ev.id = Ev.x
         /\ n' = MaxOf(n, Ev.id + 1)
(* Names and numbers. *)
Lookup == /\ Is("lookup") /\ UNCHANGED << labels, states, n, rules, exact, ls >>
          /\ CASE Ev.q = "label"  -> Ev.found = Has(labels, Ev.x) /\ (Ev.found => Ev.id = IdOf(labels, Ev.x))
               [] Ev.q = "symbol" -> Ev.x = labels[Ev.id + 1]
               [] Ev.q = "state"  -> IF Ev.named THEN Ev.found = Has(states, Ev.x) /\ (Ev.found => Ev.id = IdOf(states, Ev.x))
                                     ELSE Ev.found = (Ev.x < n) /\ (Ev.found => Ev.id = Ev.x)
               [] Ev.q = "name"   -> Ev.x = IF Ev.named THEN states[Ev.id + 1] ELSE Ev.id
               [] Ev.q = "encode" -> Len(Ev.ids) = Len(Ev.xs) /\ \A i \in DOMAIN Ev.ids : Ev.ids[i] = IdOf(labels, Ev.xs[i])
               [] Ev.q = "counts" -> Ev.labels = Len(labels) /\ Ev.states = n /\ (Ev.named => Ev.named_states = Len(states))

(* One more pre-label set for a rule body. *)
Add == /\ Is("add") /\ UNCHANGED << labels, states, exact, ls >>
       /\ LET b == Body(Ev)
              old == IF b \in DOMAIN rules THEN rules[b] ELSE {}
              new == IF Ev.wild \/ old = { ALL } THEN { ALL } ELSE old \cup { IdOf(labels, x) : x \in SetOf(Ev.pre) }
          IN  rules' = (b :> new) @@ rules
       /\ n' = MaxOf(n, MaxOf(Ev.from, Ev.to) + 1)
(* An unknown operand label is an error and adds nothing. *)
AddError == /\ Is("adderror") /\ UNCHANGED << labels, states, n, rules, exact, ls >>
            /\ Ev.error /\ ~Has(labels, Ev.x)

(* Removing a state's rules: all rules from it and all rules to it. *)
ClearState == /\ Is("clearstate") /\ UNCHANGED << labels, states, n, ls >>
              /\ rules' = [ b \in { x \in DOMAIN rules : x[1] # Ev.s /\ x[2] # Ev.s } |-> rules[b] ]
              /\ exact' = FALSE
(* Turning a hash-based store into a vector-based one keeps everything. *)
Convert == /\ Is("convert") /\ UNCHANGED << labels, states, n, rules, exact, ls >>

(* Everything the store holds, as enumerated per state. *)
Dump == /\ Is("dump") /\ UNCHANGED << labels, states, n, rules, exact, ls >>
        /\ Len(Ev.states) = n
        /\ \A s \in 0 .. (n - 1) :
             LET st == Ev.states[s + 1]
                 bodies == { << s, r.to, r.op, IF r.op \in { "pop", "noop" } THEN -1 ELSE r.opl, r.w >> : r \in SetOf(st.rules) }
             IN  /\ bodies = { b \in DOMAIN rules : b[1] = s }
                 /\ Len(st.rules) = Cardinality(bodies)
                 /\ \A r \in SetOf(st.rules) :
                      LET b == << s, r.to, r.op, IF r.op \in { "pop", "noop" } THEN -1 ELSE r.opl, r.w >> IN
                      /\ r.wild = (rules[b] = { ALL })
                      /\ ~r.wild => SetOf(r.labels) = rules[b] /\ Sorted(r.labels)
                      /\ SetOf(r.has) = IF r.wild THEN 0 .. (Len(labels) - 1) ELSE rules[b]
                 /\ LET pre == { b[1] : b \in { x \in DOMAIN rules : x[2] = s } }
                    IN  /\ Sorted(st.pre)
                        /\ IF exact THEN SetOf(st.pre) = pre ELSE pre \subseteq SetOf(st.pre)
        /\ Ev.negative = \E b \in DOMAIN rules : \E i \in DOMAIN b[5] : b[5][i] < 0 /\ \A j \in 1 .. (i - 1) : b[5][j] = 0
(* Concrete rules, wildcards expanded, in names: each once. *)
AllRules == /\ Is("all") /\ UNCHANGED << labels, states, n, rules, exact, ls >>
            /\ LET S == UNION { { << b[1], labels[p + 1], b[2], b[3], IF b[4] = -1 THEN -1 ELSE labels[b[4] + 1], b[5] >> :
                                       p \in IF rules[b] = { ALL } THEN 0 .. (Len(labels) - 1) ELSE rules[b] } : b \in DOMAIN rules }
               IN  SetOf(Ev.rules) = S /\ Len(Ev.rules) = Cardinality(S)

(* A label set by itself; nl is the number of labels. *)
LabelSet == /\ Is("ls") /\ UNCHANGED << labels, states, n, rules, exact >>
            /\ LET other == SetOf(Ev.x) IN
               CASE Ev.op = "merge"  -> ls' = IF Ev.wild \/ ls = { ALL } THEN { ALL } ELSE ls \cup other
                 [] Ev.op = "inter"  -> /\ ls' = IF other = 0 .. (Ev.nl - 1) THEN ls ELSE IF ls = { ALL } THEN other ELSE ls \cap other
                                        /\ Ev.res = (ls' # {})
                 [] Ev.op = "filter" -> /\ ls' = IF ls = { ALL } THEN other ELSE ls \cap other
                                        /\ Ev.res = (ls' # ls)
                 [] Ev.op = "clear"  -> ls' = {}
            /\ Ev.after.wild = (ls' = { ALL }) /\ Ev.after.empty = (ls' = {})
            /\ ~Ev.after.wild => SetOf(Ev.after.labels) = ls' /\ Sorted(Ev.after.labels)
            /\ SetOf(Ev.after.has) = IF ls' = { ALL } THEN 0 .. (Ev.nl - 1) ELSE ls'

Init == l = 1 /\ labels = << >> /\ states = << >> /\ n = 0 /\ rules = << >> /\ exact = TRUE /\ ls = {}
Next == New \/ Label \/ State \/ Lookup \/ Add \/ AddError \/ ClearState \/ Convert \/ Dump \/ AllRules \/ LabelSet
Spec == Init /\ [][Next]_vars
=============================================================================
