----------------------------- MODULE RegexTrace -----------------------------
(***************************************************************************)
(* Trace validation of the two parsers of regular expressions: the text is *)
(* accepted iff the grammar of RegexText accepts it, and then the words    *)
(* (configurations) accepted by the result are those of the tree.          *)
(***************************************************************************)
EXTENDS RegexText, TraceLib

(* "nfa": a regular expression. *)
ParseNfa ==
    /\ Is("nfa")
    /\ LET x == RegexFile(Ev.text)
           L == 0 .. (Len(Ev.names) - 1)
       IN  /\ Ev.ok = x.ok
           /\ x.ok => SetOf(Ev.acc) = LangOf(Number(x.t, Ev.names), L, Ev.k)

(* "cfg": a set of configurations of a PDA with the given states and labels. *)
ParseCfg ==
    /\ Is("cfg")
    /\ LET x == ConfigFile(Ev.text)
           L == 0 .. (Len(Ev.names) - 1)
           sts(a) == { Glue(IF Ev.idx THEN StripZeros(c) ELSE c) : c \in a.st }
           known == x.ok /\ \A i \in 1 .. Len(x.t) : sts(x.t[i]) \subseteq SetOf(Ev.states)
           lang(a) == LET W == TLCEval(LangOf(Number(a.e, Ev.names), L, Ev.k))
                      IN  { << i - 1, w >> : i \in { j \in 1 .. Len(Ev.states) : Ev.states[j] \in sts(a) }, w \in W }
       IN  /\ Ev.ok = known
           /\ known => SetOf(Ev.acc) = UNION { lang(x.t[i]) : i \in 1 .. Len(x.t) }

Init == l = 1
Next == ParseNfa \/ ParseCfg
Spec == Init /\ [][Next]_l
=============================================================================
