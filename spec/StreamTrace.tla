----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* The JSON output stream: a stack of objects under construction.  A value *)
(* is <<"v", text>> or <<"o", members>>; members keep their order.  When   *)
(* the stream is closed (or destroyed) all open objects are completed and  *)
(* the text written since the last close is one document: the outermost    *)
(* object, or nothing if nothing was written.                              *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES open   \* frames [ key, mem ], outermost first; empty before the first entry
vars == << l, open >>

Frame(k) == [ key |-> k, mem |-> << >> ]
Started == IF open = << >> THEN << Frame("") >> ELSE open
Put(fs, k, v) == [ fs EXCEPT ![Len(fs)].mem = Append(@, << k, v >>) ]
Complete(fs) == Put(SubSeq(fs, 1, Len(fs) - 1), fs[Len(fs)].key, << "o", fs[Len(fs)].mem >>)
RECURSIVE CompleteAll(_)
CompleteAll(fs) == IF Len(fs) = 1 THEN << "o", fs[1].mem >> ELSE CompleteAll(Complete(fs))

New   == Is("new") /\ open' = << >>
Entry == Is("entry") /\ open' = Put(Started, Ev.k, Ev.v)
Begin == Is("begin") /\ open' = Append(Started, Frame(Ev.k))
End   == Is("end") /\ Len(open) > 1 /\ open' = Complete(open)
Close == /\ Is("close") /\ open' = << >> /\ Ev.ok
         /\ IF open = << >> THEN Ev.blank ELSE ~Ev.blank /\ Ev.doc = CompleteAll(open)

Init == l = 1 /\ open = << >>
Next == New \/ Entry \/ Begin \/ End \/ Close
Spec == Init /\ [][Next]_vars
=============================================================================
