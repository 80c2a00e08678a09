--------------------------- MODULE ContainerTrace ---------------------------
(***************************************************************************)
(* Histories of container operations.  A container is a finite map from    *)
(* keys (sequences of numbers, one per level of a nested container) to     *)
(* values; a set maps its elements to 0.  strat says how each level is     *)
(* stored: "v" is a sorted vector, "h" a hash table (any order).           *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES reg,    \* register |-> map
          strat,  \* storage of each level
          pq,     \* priority set: the entries << priority, element >> not yet returned, and the elements already returned
          ws      \* round-based worklist
vars == << l, reg, strat, pq, ws >>

SetOf(s) == { s[i] : i \in DOMAIN s }
Empty == << >>
Put(M, k, v) == (k :> v) @@ M
Restrict(M, S) == [ k \in S |-> M[k] ]
IsPrefix(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Levels == Len(strat)

(* Elements of register r under a prefix, as listed by iteration: all of them, once, sorted at the levels stored in vectors. *)
Before(a, b) ==   \* b may directly follow a in an iteration
    LET d == CHOOSE i \in 1 .. Levels : a[i] # b[i] /\ \A j \in 1 .. (i - 1) : a[j] = b[j]
    IN  a # b /\ (strat[d] = "v" => a[d] < b[d])
Listed(M, p, items) ==
    LET D == { k \in DOMAIN M : IsPrefix(p, k) }
    IN  /\ Len(items) = Cardinality(D)
        /\ { items[i][1] : i \in DOMAIN items } = D
        /\ \A i \in DOMAIN items : items[i][2] = M[items[i][1]]
        /\ \A i \in 1 .. (Len(items) - 1) : Before(items[i][1], items[i + 1][1])
SizeUnder(M, p) == Cardinality({ k[Len(p) + 1] : k \in { x \in DOMAIN M : IsPrefix(p, x) } })

New == /\ Is("new") /\ strat' = Ev.strat /\ reg' = [ r \in 0 .. 2 |-> Empty ]
       /\ pq' = [ e |-> << >>, seen |-> {} ] /\ ws' = << >>

(* Insert if absent; the returned position holds the key and the value now stored. *)
Emplace == /\ Is("emplace") /\ UNCHANGED << strat, pq, ws >>
           /\ LET M == reg[Ev.r]
                  old == Ev.k \in DOMAIN M
                  N == IF old THEN M ELSE Put(M, Ev.k, Ev.v)
              IN  /\ Ev.ins = ~old
                  /\ Ev.at = << Ev.k[Levels], N[Ev.k] >>
                  /\ reg' = [ reg EXCEPT ![Ev.r] = N ]
Assign  == /\ Is("assign") /\ UNCHANGED << strat, pq, ws >>
           /\ LET M == reg[Ev.r]
                  N == Put(M, Ev.k, Ev.v)
              IN  /\ Ev.ins = (Ev.k \notin DOMAIN M)
                  /\ Ev.at = << Ev.k[Levels], Ev.v >>
                  /\ reg' = [ reg EXCEPT ![Ev.r] = N ]
Contains == /\ Is("contains") /\ UNCHANGED << strat, pq, ws, reg >>
            /\ Ev.res = (Ev.k \in DOMAIN reg[Ev.r])
(* Lookup: empty sequence if absent. *)
Get == /\ Is("get") /\ UNCHANGED << strat, pq, ws, reg >>
       /\ LET M == reg[Ev.r] IN Ev.res = IF Ev.k \in DOMAIN M THEN << M[Ev.k] >> ELSE << >>
(* Writing through the result of a lookup. *)
Write == /\ Is("write") /\ UNCHANGED << strat, pq, ws >>
         /\ Ev.ok = (Ev.k \in DOMAIN reg[Ev.r])
         /\ reg' = IF Ev.ok THEN [ reg EXCEPT ![Ev.r] = Put(@, Ev.k, Ev.v) ] ELSE reg
(* find of a head: its elements, if there are any. *)
Find == /\ Is("find") /\ UNCHANGED << strat, pq, ws, reg >>
        /\ LET M == reg[Ev.r]
               D == { k \in DOMAIN M : IsPrefix(Ev.p, k) }
           IN  /\ Ev.ok = (D # {})
               /\ Ev.ok => Listed(M, Ev.p, Ev.items)
Dump == /\ Is("dump") /\ UNCHANGED << strat, pq, ws, reg >>
        /\ Listed(reg[Ev.r], << >>, Ev.items)
        /\ \A i \in DOMAIN Ev.sizes : Ev.sizes[i][2] = SizeUnder(reg[Ev.r], Ev.sizes[i][1])
        /\ Ev.empty = (DOMAIN reg[Ev.r] = {})
Clear == /\ Is("clear") /\ UNCHANGED << strat, pq, ws >> /\ reg' = [ reg EXCEPT ![Ev.r] = Empty ]
(* Copies leave the source alone; a moved-from container is cleared by the driver. Converting a hash table to a *)
(* vector and back keeps the elements.                                                                            *)
Copy == /\ Is("copy") /\ UNCHANGED << strat, pq, ws >> /\ reg' = [ reg EXCEPT ![Ev.r] = reg[Ev.s] ]
Move == /\ Is("move") /\ UNCHANGED << strat, pq, ws >> /\ reg' = [ reg EXCEPT ![Ev.r] = reg[Ev.s], ![Ev.s] = Empty ]

(* Sorted vectors only: elements by position, from a lower bound on, and truncation. *)
Sorted(M) == LET RECURSIVE S(_)
                 S(D) == IF D = {} THEN << >> ELSE LET m == CHOOSE x \in D : \A y \in D : x[1] <= y[1] IN << m >> \o S(D \ { m })
             IN  S(DOMAIN M)
At    == /\ Is("at") /\ UNCHANGED << strat, pq, ws, reg >>
         /\ LET s == Sorted(reg[Ev.r]) IN Ev.res = << s[Ev.i + 1], reg[Ev.r][s[Ev.i + 1]] >>
Lower == /\ Is("lower") /\ UNCHANGED << strat, pq, ws, reg >>
         /\ Ev.res = Cardinality({ k \in DOMAIN reg[Ev.r] : k[1] < Ev.k[1] })
Resize == /\ Is("resize") /\ UNCHANGED << strat, pq, ws >>
          /\ LET M == reg[Ev.r]
                 s == Sorted(M)
             IN  reg' = [ reg EXCEPT ![Ev.r] = Restrict(M, { s[i] : i \in 1 .. Ev.n }) ]

-----------------------------------------------------------------------------
(* Priority set: returns the best entry whose element was not returned before. Ties in any order. *)
Live == { i \in DOMAIN pq.e : pq.e[i][2] \notin pq.seen }
PqAdd == /\ Is("padd") /\ UNCHANGED << strat, reg, ws >>
         /\ pq' = [ pq EXCEPT !.e = IF Ev.e \in pq.seen THEN @ ELSE Append(@, << Ev.w, Ev.e >>) ]
PqEmpty == /\ Is("pempty") /\ UNCHANGED << strat, reg, ws, pq >>
           /\ Ev.res = (Live = {})
LexLE(a, b) == a = b \/ \E i \in 1 .. Len(a) : a[i] < b[i] /\ \A j \in 1 .. (i - 1) : a[j] = b[j]
PqPop == /\ Is("ppop") /\ UNCHANGED << strat, reg, ws >>
         /\ \E i \in Live : /\ pq.e[i] = << Ev.w, Ev.e >>
                            /\ \A j \in Live : IF Ev.max THEN LexLE(pq.e[j][1], pq.e[i][1]) ELSE LexLE(pq.e[i][1], pq.e[j][1])
         /\ pq' = [ e |-> SelectSeq(pq.e, LAMBDA x : x[2] # Ev.e), seen |-> pq.seen \cup { Ev.e } ]

-----------------------------------------------------------------------------
(* Round-based worklist.  ws: todo of the current round and of the next one (bags, as sequences), the rounds    *)
(* started, the limit, and whether it is the second pass (changes count as unbounded) and whether it is over.   *)
RemoveOne(s, x) == LET i == CHOOSE j \in DOMAIN s : s[j] = x IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Dedup(s) == IF ~ws.set THEN s ELSE LET RECURSIVE D(_)
                                        D(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : TRUE IN << m >> \o D(S \ { m })
                                    IN  D(SetOf(s))
WsNew == /\ Is("wnew") /\ UNCHANGED << strat, reg, pq >>
         /\ ws' = [ cur |-> << >>, nxt |-> Ev.start, rounds |-> 0, limit |-> Ev.limit, second |-> FALSE, set |-> Ev.set, over |-> FALSE ]
(* When the current round is finished, the next one starts if the limit allows it. *)
Started(second) ==
    IF ws.cur # << >> THEN ws
    ELSE [ ws EXCEPT !.cur = Dedup(ws.nxt), !.nxt = << >>, !.second = second, !.rounds = IF second = ws.second THEN @ + 1 ELSE 1 ]
CanStart(second) == IF ws.cur # << >> THEN second = ws.second
                    ELSE /\ ws.nxt # << >>
                         /\ IF second = ws.second THEN ws.rounds < ws.limit ELSE ~ws.second /\ ws.rounds >= ws.limit /\ ws.limit > 0
WsStep == /\ Is("wstep") /\ UNCHANGED << strat, reg, pq >>
          /\ ~ws.over /\ CanStart(Ev.bottom)
          /\ LET w == Started(Ev.bottom) IN
             /\ \E i \in DOMAIN w.cur : w.cur[i] = Ev.e
             /\ ws' = [ w EXCEPT !.cur = RemoveOne(w.cur, Ev.e), !.nxt = w.nxt \o Ev.add, !.over = ~Ev.go ]
(* At the end there is nothing left, or both passes used up their rounds, or a step said stop. *)
WsEnd == /\ Is("wend") /\ UNCHANGED << strat, reg, pq, ws >>
         /\ ws.over \/ (ws.cur = << >> /\ (ws.nxt = << >> \/ ws.limit = 0 \/ (ws.second /\ ws.rounds >= ws.limit)))

-----------------------------------------------------------------------------
(* Helpers: disjointness of sorted vectors; sets of flags. *)
Disjoint == /\ Is("disjoint") /\ UNCHANGED << strat, reg, pq, ws >>
            /\ Ev.res = (SetOf(Ev.a) \cap SetOf(Ev.b) = {})
(* A mask is the set of flags 1 .. N it has. *)
Flags == /\ Is("flags") /\ UNCHANGED << strat, reg, pq, ws >>
         /\ LET a == SetOf(Ev.a)
                b == SetOf(Ev.b)
            IN  /\ SetOf(Ev.added) = a \cup b
                /\ SetOf(Ev.removed) = a \ b
                /\ SetOf(Ev.selected) = a \cap b
                /\ Ev.contains = (b \subseteq a)
                /\ Ev.single = (Cardinality(a) = 1)
                /\ SetOf(Ev.fill) = 1 .. Ev.n
                /\ Ev.flag = IF Ev.n = 0 THEN << >> ELSE << Ev.n >>
                /\ SetOf(Ev.cfill) = 1 .. Ev.n /\ Ev.cflag = Ev.flag      \* the compile-time versions
                /\ SetOf(Ev.split) = a /\ Len(Ev.split) = Cardinality(a)
                /\ Ev.needs = (b \subseteq a)
                /\ SetOf(Ev.missing) = a \ b /\ Len(Ev.missing) = Cardinality(a \ b)
                /\ \A i \in 1 .. (Len(Ev.missing) - 1) : Ev.missing[i] < Ev.missing[i + 1]
                /\ Ev.any = (a \ b # {})

Init == l = 1 /\ reg = << >> /\ strat = << >> /\ pq = << >> /\ ws = << >>
Next == \/ New \/ Emplace \/ Assign \/ Contains \/ Get \/ Write \/ Find \/ Dump \/ Clear \/ Copy \/ Move \/ At \/ Lower \/ Resize
        \/ PqAdd \/ PqEmpty \/ PqPop \/ WsNew \/ WsStep \/ WsEnd \/ Disjoint \/ Flags
Spec == Init /\ [][Next]_vars
=============================================================================
