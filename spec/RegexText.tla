----------------------------- MODULE RegexText -----------------------------
(***************************************************************************)
(* The concrete syntax of regular expressions over labels and of           *)
(* configuration sets, as a recursive-descent parser over a sequence of    *)
(* one-character strings.  A parser returns [ok, i, t]: i is the position  *)
(* of the next character, t the syntax tree.                               *)
(*                                                                         *)
(*   file   = [expr]                                                       *)
(*   expr   = seq { "|" seq }                                              *)
(*   seq    = unary { unary }                                              *)
(*   unary  = value [ "*" | "+" | "?" ]           (directly attached)      *)
(*   value  = "." | "(" expr ")" | "[" ["^"] label { "," label } "]"       *)
(*   label  = one or more letters, digits or "_"                           *)
(*                                                                         *)
(* White space and comments (from # to the end of the line) may stand      *)
(* around an expression, between unaries, and around "|" and ",".          *)
(***************************************************************************)
EXTENDS Regular

Letters == { "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
             "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_" }
Digits == { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" }
Space == { " ", "\t", "\n", "\r", "\f" }

At(s, i) == IF i <= Len(s) THEN s[i] ELSE "eof"
Fail == [ ok |-> FALSE, i |-> 0, t |-> << >> ]
Ok(i, t) == [ ok |-> TRUE, i |-> i, t |-> t ]

RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i > Len(s) THEN i ELSE IF s[i] = "\n" THEN i + 1 ELSE LineEnd(s, i + 1)
RECURSIVE Skip(_, _)   \* white space and comments
Skip(s, i) == IF At(s, i) \in Space THEN Skip(s, i + 1) ELSE IF At(s, i) = "#" THEN Skip(s, LineEnd(s, i)) ELSE i

RECURSIVE RunOfChars(_, _, _)   \* end of the longest run of characters in C
RunOfChars(s, i, C) == IF At(s, i) \in C THEN RunOfChars(s, i + 1, C) ELSE i

RECURSIVE Glue(_)
Glue(q) == IF q = << >> THEN "" ELSE q[1] \o Glue(Tail(q))

Label(s, i) == LET j == RunOfChars(s, i, Letters \cup Digits) IN IF j = i THEN Fail ELSE Ok(j, Glue(SubSeq(s, i, j - 1)))

RECURSIVE LabelsFrom(_, _, _)
LabelsFrom(s, i, acc) ==   \* i is just after a label
    LET j == Skip(s, i) IN
    IF At(s, j) # "," THEN Ok(i, acc)
    ELSE LET x == Label(s, Skip(s, j + 1)) IN IF x.ok THEN LabelsFrom(s, x.i, acc \cup { x.t }) ELSE Fail

LabelSet(s, i) ==   \* i is just after "["
    LET neg == At(s, i) = "^"
        x == Label(s, IF neg THEN i + 1 ELSE i)
    IN  IF ~x.ok THEN Fail
        ELSE LET y == LabelsFrom(s, x.i, { x.t }) IN
             IF y.ok /\ At(s, y.i) = "]" THEN Ok(y.i + 1, << "set", neg, y.t >>) ELSE Fail

RECURSIVE Value(_, _), Unary(_, _), SeqExpr(_, _), SeqRest(_, _, _), Expr(_, _), ExprRest(_, _, _)
Value(s, i) ==
    CASE At(s, i) = "." -> Ok(i + 1, << "set", TRUE, {} >>)
      [] At(s, i) = "(" -> LET x == Expr(s, Skip(s, i + 1)) IN
                           IF ~x.ok THEN Fail
                           ELSE LET j == Skip(s, x.i) IN IF At(s, j) = ")" THEN Ok(j + 1, x.t) ELSE Fail
      [] At(s, i) = "[" -> LabelSet(s, i + 1)
      [] OTHER -> Fail
Unary(s, i) ==
    LET x == Value(s, i) IN
    IF ~x.ok THEN Fail
    ELSE CASE At(s, x.i) = "*" -> Ok(x.i + 1, << "star", x.t >>)
           [] At(s, x.i) = "+" -> Ok(x.i + 1, << "plus", x.t >>)
           [] At(s, x.i) = "?" -> Ok(x.i + 1, << "opt", x.t >>)
           [] OTHER -> x
SeqExpr(s, i) == LET x == Unary(s, i) IN IF x.ok THEN SeqRest(s, x.i, x.t) ELSE Fail
SeqRest(s, i, t) ==
    LET j == Skip(s, i) IN
    IF At(s, j) \in { ".", "(", "[" }
    THEN LET x == Unary(s, j) IN IF x.ok THEN SeqRest(s, x.i, << "cat", t, x.t >>) ELSE Fail
    ELSE Ok(i, t)
Expr(s, i) == LET x == SeqExpr(s, i) IN IF x.ok THEN ExprRest(s, x.i, x.t) ELSE Fail
ExprRest(s, i, t) ==
    LET j == Skip(s, i) IN
    IF At(s, j) = "|"
    THEN LET x == SeqExpr(s, Skip(s, j + 1)) IN IF x.ok THEN ExprRest(s, x.i, << "or", t, x.t >>) ELSE Fail
    ELSE Ok(i, t)

(* A possibly empty expression with white space around it. *)
ExprOrEmpty(s, i) ==
    LET j == Skip(s, i) IN
    IF At(s, j) \in { ".", "(", "[" }
    THEN LET x == Expr(s, j) IN IF x.ok THEN Ok(Skip(s, x.i), x.t) ELSE Fail
    ELSE Ok(j, << "eps" >>)

RegexFile(s) == LET x == ExprOrEmpty(s, 1) IN IF x.ok /\ x.i = Len(s) + 1 THEN x ELSE Fail

(* Replace the names of labels by their numbers; a name that is not known is no label of the alphabet. *)
RECURSIVE Number(_, _)
Number(t, names) ==
    CASE t[1] = "set" -> << "set", t[2], { i - 1 : i \in { j \in 1 .. Len(names) : names[j] \in t[3] } } >>
      [] t[1] = "eps" -> t
      [] t[1] \in { "cat", "or" } -> << t[1], Number(t[2], names), Number(t[3], names) >>
      [] OTHER -> << t[1], Number(t[2], names) >>

(***************************************************************************)
(* Configuration sets:  atom { "|" atom },  where                          *)
(*   atom   = "<" states "," [expr] ">"                                    *)
(*   states = state | "[" state { "," state } "]"                          *)
(*   state  = digits | identifier | string literal                         *)
(* The tree of an atom is [st, e]; of the whole, a sequence of atoms.      *)
(* The name of a state is the sequence of its characters.                  *)
(***************************************************************************)
RECURSIVE StrLit(_, _, _)   \* i is inside the literal
StrLit(s, i, acc) ==
    CASE At(s, i) = "\"" -> Ok(i + 1, acc)
      [] At(s, i) = "\\" -> IF At(s, i + 1) \in { "\"", "\\" } THEN StrLit(s, i + 2, Append(acc, s[i + 1])) ELSE Fail
      [] At(s, i) = "eof" \/ At(s, i) \in Space \ { " " } -> Fail
      [] OTHER -> StrLit(s, i + 1, Append(acc, s[i]))
StateName(s, i) ==
    CASE At(s, i) \in Digits -> LET j == RunOfChars(s, i, Digits) IN Ok(j, SubSeq(s, i, j - 1))
      [] At(s, i) \in Letters -> LET j == RunOfChars(s, i, Letters \cup Digits) IN Ok(j, SubSeq(s, i, j - 1))
      [] At(s, i) = "\"" -> StrLit(s, i + 1, << >>)
      [] OTHER -> Fail
RECURSIVE StatesFrom(_, _, _)
StatesFrom(s, i, acc) ==
    LET j == Skip(s, i) IN
    IF At(s, j) # "," THEN Ok(i, acc)
    ELSE LET x == StateName(s, Skip(s, j + 1)) IN IF x.ok THEN StatesFrom(s, x.i, acc \cup { x.t }) ELSE Fail
States(s, i) ==
    IF At(s, i) = "["
    THEN LET x == StateName(s, i + 1) IN
         IF ~x.ok THEN Fail
         ELSE LET y == StatesFrom(s, x.i, { x.t }) IN IF y.ok /\ At(s, y.i) = "]" THEN Ok(y.i + 1, y.t) ELSE Fail
    ELSE LET x == StateName(s, i) IN IF x.ok THEN Ok(x.i, { x.t }) ELSE Fail
CAtom(s, i) ==
    IF At(s, i) # "<" THEN Fail
    ELSE LET x == States(s, Skip(s, i + 1)) IN
         IF ~x.ok THEN Fail
         ELSE LET j == Skip(s, x.i) IN
              IF At(s, j) # "," THEN Fail
              ELSE LET e == ExprOrEmpty(s, j + 1) IN
                   IF e.ok /\ At(s, e.i) = ">" THEN Ok(e.i + 1, [ st |-> x.t, e |-> e.t ]) ELSE Fail
RECURSIVE CRest(_, _, _)
CRest(s, i, acc) ==
    LET j == Skip(s, i) IN
    IF At(s, j) = "|" THEN LET x == CAtom(s, Skip(s, j + 1)) IN IF x.ok THEN CRest(s, x.i, Append(acc, x.t)) ELSE Fail
    ELSE Ok(j, acc)
ConfigFile(s) ==
    LET x == CAtom(s, Skip(s, 1)) IN
    IF ~x.ok THEN Fail
    ELSE LET y == CRest(s, x.i, << x.t >>) IN IF y.ok /\ y.i = Len(s) + 1 THEN y ELSE Fail

(* A state given by its number may have leading zeros. *)
RECURSIVE StripZeros(_)
StripZeros(q) == IF Len(q) > 1 /\ q[1] = "0" THEN StripZeros(Tail(q)) ELSE q
=============================================================================
