--------------------------- MODULE EncodingTrace ---------------------------
(***************************************************************************)
(* Sets and maps keyed by byte encodings.  A key is known by its rendering *)
(* (a string); the structure is the sequence of distinct keys in the order *)
(* of first insertion, the identifier of a key being its position.         *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES order,  \* keys in order of first insertion
          val,    \* map only: value of each key, by position
          enc     \* encodings seen: key |-> bytes
vars == << l, order, val, enc >>

Known(k) == \E i \in DOMAIN order : order[i] = k
Id(k)    == CHOOSE i \in DOMAIN order : order[i] = k

New == /\ Is("new") /\ order' = << >> /\ val' = << >> /\ enc' = << >>
(* The answer tells whether the key is new, and its identifier. *)
Insert == /\ Is("insert") /\ UNCHANGED enc
          /\ IF Known(Ev.k) THEN /\ ~Ev.new /\ Ev.id = Id(Ev.k) - 1 /\ UNCHANGED << order, val >>
             ELSE /\ Ev.new /\ Ev.id = Len(order)
                  /\ order' = Append(order, Ev.k) /\ val' = Append(val, 0)
Exists == /\ Is("exists") /\ UNCHANGED << order, val, enc >>
          /\ Ev.res = Known(Ev.k)
          /\ Ev.res => Ev.id = Id(Ev.k) - 1
Size   == /\ Is("size") /\ UNCHANGED << order, val, enc >> /\ Ev.res = Len(order)
(* Decoding an identifier gives the key back. *)
At     == /\ Is("at") /\ UNCHANGED << order, val, enc >>
          /\ Ev.id < Len(order) /\ Ev.k = order[Ev.id + 1]
(* map[key] = v; the old value is reported (0 for a new key). *)
Write  == /\ Is("write") /\ UNCHANGED enc
          /\ IF Known(Ev.k) THEN /\ Ev.old = val[Id(Ev.k)] /\ UNCHANGED order /\ val' = [ val EXCEPT ![Id(Ev.k)] = Ev.v ]
             ELSE /\ Ev.old = 0 /\ order' = Append(order, Ev.k) /\ val' = Append(val, Ev.v)
Data   == /\ Is("data") /\ UNCHANGED << order, val, enc >>
          /\ Ev.v = val[Ev.id + 1]
(* The encoding itself: a function of the key, injective and decodable. *)
Encode == /\ Is("encode") /\ UNCHANGED << order, val >>
          /\ Ev.back = Ev.k
          /\ \A k \in DOMAIN enc : (k = Ev.k) <=> (enc[k] = Ev.bytes)
          /\ enc' = (Ev.k :> Ev.bytes) @@ enc
(* A random-access iterator over the keys of a list of identifiers; p is the position it is moved to. *)
Iter == /\ Is("iter") /\ UNCHANGED << order, val, enc >>
        /\ \A i \in 1 .. Len(Ev.steps) :
             LET s == Ev.steps[i] IN
             /\ s.at # Len(Ev.ids) => s.k = order[Ev.ids[s.at + 1] + 1]
             /\ s.dist = s.at /\ s.end = (s.at = Len(Ev.ids)) /\ s.lt = (s.at < s.ref) /\ s.le = (s.at <= s.ref) /\ s.gt = (s.at > s.ref) /\ s.ge = (s.at >= s.ref)
             /\ s.idx = order[Ev.ids[s.ref + 1] + 1]
Init == l = 1 /\ order = << >> /\ val = << >> /\ enc = << >>
Next == New \/ Insert \/ Exists \/ Size \/ At \/ Write \/ Data \/ Encode \/ Iter
Spec == Init /\ [][Next]_vars
=============================================================================
