-------------------------------- MODULE Lex ---------------------------------
(* The tokenizer as a state machine over the characters of a source file.     *)
(* Sources are sequences of character codes (IOEnv.SRCS, a JSON list).  The    *)
(* state is the file and the position; one step scans white space, comments    *)
(* and line splices and then the longest token that starts there, which it     *)
(* reports with its spelling (first and last position) and its value:          *)
(*   id, num, chr, str, pun, eof, bad,                                         *)
(* and dir, the # that begins a directive, and nl, the newline that ends it.   *)
EXTENDS Word, TLC, Json, IOUtils

Srcs == JsonDeserialize(IOEnv.SRCS)

VARIABLES p, pos,
          line           \* inside a directive: the newline is a token
vars == <<p, pos, line>>

S == Srcs[p]
At(i) == IF i <= Len(S) THEN S[i] ELSE 0

TAB == 9  NL == 10  SP == 32  DQ == 34  SQ == 39  STAR == 42  SLASH == 47  BSL == 92
Digit(c) == c >= 48 /\ c <= 57
Lower(c) == c >= 97 /\ c <= 122
Upper(c) == c >= 65 /\ c <= 90
IdStart(c) == Lower(c) \/ Upper(c) \/ c = 95
IdChar(c) == IdStart(c) \/ Digit(c)
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1

\* white space: blanks, tabs, newlines, splices and both kinds of comment
RECURSIVE CommentEnd(_), LineEnd(_), Skip(_)
CommentEnd(i) == IF i > Len(S) THEN 0
                 ELSE IF S[i] = STAR /\ At(i + 1) = SLASH THEN i + 2 ELSE CommentEnd(i + 1)
\* a splice does not end the line
LineEnd(i) == IF i > Len(S) \/ At(i) = NL THEN i
              ELSE IF S[i] = BSL /\ At(i + 1) = NL THEN LineEnd(i + 2) ELSE LineEnd(i + 1)
Skip(i) ==
  LET c == At(i) IN
  IF c \in {TAB, SP} \/ (c = NL /\ ~line) THEN Skip(i + 1)
  ELSE IF c = BSL /\ At(i + 1) = NL THEN Skip(i + 2)
  ELSE IF c = SLASH /\ At(i + 1) = STAR THEN (IF CommentEnd(i + 2) = 0 THEN i ELSE Skip(CommentEnd(i + 2)))
  ELSE IF c = SLASH /\ At(i + 1) = SLASH THEN Skip(LineEnd(i + 2))
  ELSE i

\* the punctuators, longest first
P3 == { <<60,60,61>>, <<62,62,61>>, <<46,46,46>> }
P2 == { <<45,62>>, <<43,43>>, <<45,45>>, <<60,60>>, <<62,62>>, <<60,61>>, <<62,61>>, <<61,61>>, <<33,61>>,
        <<38,38>>, <<124,124>>, <<42,61>>, <<47,61>>, <<37,61>>, <<43,61>>, <<45,61>>, <<38,61>>, <<94,61>>, <<124,61>> }
P1 == { 91, 93, 40, 41, 123, 125, 46, 38, 42, 43, 45, 126, 33, 47, 37, 60, 62, 94, 124, 63, 58, 59, 61, 44 }
PunLen(i) == IF <<At(i), At(i + 1), At(i + 2)>> \in P3 THEN 3
             ELSE IF <<At(i), At(i + 1)>> \in P2 THEN 2 ELSE IF At(i) \in P1 THEN 1 ELSE 0

RECURSIVE IdEnd(_)
IdEnd(i) == IF IdChar(At(i)) THEN IdEnd(i + 1) ELSE i

\* constants: the value of the digits in [i, j) to a base, modulo 2^32
RECURSIVE Num(_, _, _, _)
Num(i, j, base, acc) == IF i >= j THEN acc ELSE Num(i + 1, j, base, Add(Mul(acc, base), HexVal(S[i])))
Base(i, j) == IF S[i] # 48 THEN 10 ELSE IF j > i + 1 /\ S[i + 1] \in {120, 88} THEN 16 ELSE 8
NumOk(i, j) == LET b == Base(i, j)  f == IF b = 16 THEN i + 2 ELSE i
               IN f < j /\ \A k \in f..(j - 1) : HexVal(S[k]) >= 0 /\ HexVal(S[k]) < b
NumVal(i, j) == Num(IF Base(i, j) = 16 THEN i + 2 ELSE i, j, Base(i, j), 0)

\* escapes of character constants and string literals
EscOk(c) == c \in {110, 114, 116, 48, SQ, DQ, BSL}
EscVal(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 48 -> 0 [] OTHER -> c
\* [e |-> position after the closing quote or 0, b |-> bytes]
RECURSIVE Quoted(_, _, _)
Quoted(i, q, b) ==
  LET c == At(i) IN
  IF c = 0 \/ c = NL THEN [e |-> 0, b |-> b]
  ELSE IF c = q THEN [e |-> i + 1, b |-> b]
  ELSE IF c = BSL THEN (IF EscOk(At(i + 1)) THEN Quoted(i + 2, q, Append(b, EscVal(At(i + 1)))) ELSE [e |-> 0, b |-> b])
  ELSE Quoted(i + 1, q, Append(b, c))

\* the token that starts at i: [k, e, v] with e the position after it
Token(i) ==
  LET c == At(i) IN
  IF i > Len(S) THEN [k |-> "eof", e |-> i, v |-> <<>>]
  ELSE IF c = NL THEN [k |-> "nl", e |-> i + 1, v |-> <<>>]
  ELSE IF c = 35 /\ ~line THEN [k |-> "dir", e |-> i + 1, v |-> <<>>]
  ELSE IF IdStart(c) THEN [k |-> "id", e |-> IdEnd(i), v |-> <<>>]
  ELSE IF Digit(c) THEN LET j == IdEnd(i) IN
    IF NumOk(i, j) THEN [k |-> "num", e |-> j, v |-> <<NumVal(i, j)>>] ELSE [k |-> "bad", e |-> j, v |-> <<>>]
  ELSE IF c = DQ THEN LET q == Quoted(i + 1, DQ, <<>>) IN
    IF q.e > 0 THEN [k |-> "str", e |-> q.e, v |-> q.b] ELSE [k |-> "bad", e |-> Len(S) + 1, v |-> <<>>]
  ELSE IF c = SQ THEN LET q == Quoted(i + 1, SQ, <<>>) IN
    IF q.e > 0 /\ Len(q.b) = 1 THEN [k |-> "chr", e |-> q.e, v |-> q.b] ELSE [k |-> "bad", e |-> Len(S) + 1, v |-> <<>>]
  ELSE IF PunLen(i) > 0 THEN [k |-> "pun", e |-> i + PunLen(i), v |-> <<>>]
  ELSE [k |-> "bad", e |-> Len(S) + 1, v |-> <<>>]

Init == p \in 1..Len(Srcs) /\ pos = 1 /\ line = FALSE
Scan == LET i == Skip(pos)  t == Token(i) IN
        /\ pos >= 1
        /\ PrintT(ToJson([p |-> p, k |-> t.k, a |-> i, e |-> t.e, v |-> t.v]))
        /\ pos' = IF t.k \in {"eof", "bad"} THEN 0 ELSE t.e
        /\ line' = IF t.k = "dir" THEN TRUE ELSE IF t.k = "nl" THEN FALSE ELSE line
        /\ UNCHANGED p
Next == Scan
Spec == Init /\ [][Next]_vars

\* every step makes progress and stays inside the file
TypeOK == line \in BOOLEAN /\ pos \in 0..(Len(S) + 1)
Progress == [][pos' = 0 \/ pos' > pos]_vars
=============================================================================
