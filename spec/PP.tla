--------------------------------- MODULE PP ---------------------------------
(* The preprocessor as a state machine over the lines of a source file.  Its  *)
(* state is the position, the macro table and the stack of open conditionals; *)
(* every line is one transition; `out' collects the fully expanded token      *)
(* sequences of the text lines of compiled groups.  A program of IOEnv.PROGS   *)
(* is [lines |-> <<line>>, num |-> [token |-> value]], a line is               *)
(*   [k |-> "text" | "define" | "undef" | "if" | "ifdef" | "ifndef" | "elif"   *)
(*          | "else" | "endif", n |-> name, fn, va |-> BOOLEAN,                *)
(*    ps |-> <<parameter>>, ts |-> <<token>>]                                  *)
EXTENDS Word, TLC, Json, IOUtils

Progs == JsonDeserialize(IOEnv.PROGS)

VARIABLES p, pos, macros, conds, out, err
vars == <<p, pos, macros, conds, out, err>>

Lines == Progs[p].lines
Num == Progs[p].num
NoMacros == [x \in {} |-> <<>>]

-----------------------------------------------------------------------------
(* Macro replacement (C99 6.10.3): a token is a record [t, h] of its spelling *)
(* and its hide set.                                                          *)
Plain(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i], h |-> {}]]
Paint(ts, h) == [i \in 1..Len(ts) |-> [t |-> ts[i].t, h |-> ts[i].h \cup h]]
Rest(s, i) == SubSeq(s, i, Len(s))

\* the arguments of the call whose "(" is ts[i]: [args, j] with ts[j] = ")"
RECURSIVE Args(_, _, _, _, _)
Args(ts, i, depth, cur, acc) ==
  IF i > Len(ts) THEN [ok |-> FALSE, args |-> <<>>, j |-> i]
  ELSE LET x == ts[i].t IN
    IF x = ")" /\ depth = 0 THEN [ok |-> TRUE, args |-> Append(acc, cur), j |-> i]
    ELSE IF x = "," /\ depth = 0 THEN Args(ts, i + 1, 0, <<>>, Append(acc, cur))
    ELSE Args(ts, i + 1, depth + (IF x = "(" THEN 1 ELSE IF x = ")" THEN -1 ELSE 0), Append(cur, ts[i]), acc)

Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
In(s, x) == \E i \in 1..Len(s) : s[i] = x

\* the variable arguments with their commas
RECURSIVE Joined(_, _)
Joined(as, i) == IF i > Len(as) THEN <<>>
                 ELSE as[i] \o (IF i < Len(as) THEN <<[t |-> ",", h |-> {}]>> ELSE <<>>) \o Joined(as, i + 1)

RECURSIVE Expand(_, _), Subst(_, _, _)
Expand(ts, ms) ==
  IF ts = <<>> THEN <<>>
  ELSE LET x == ts[1] IN
    IF x.t \notin DOMAIN ms \/ x.t \in x.h THEN <<x>> \o Expand(Tail(ts), ms)
    ELSE LET m == ms[x.t] IN
      IF ~m.fn THEN Expand(Paint(Plain(m.ts), x.h \cup {x.t}) \o Tail(ts), ms)
      ELSE IF Len(ts) < 2 \/ ts[2].t # "(" THEN <<x>> \o Expand(Tail(ts), ms)
      ELSE LET a == Args(ts, 3, 0, <<>>, <<>>) IN
        IF ~a.ok THEN <<[t |-> "?unterminated", h |-> {}]>>
        ELSE LET full == [i \in 1..Len(a.args) |-> Expand(a.args[i], ms)]
                 np == Len(m.ps)
                 bind == [ps |-> m.ps, as |-> full,
                          va |-> IF m.va /\ Len(full) > np THEN Joined(SubSeq(full, np + 1, Len(full)), 1) ELSE <<>>]
             IN Expand(Paint(Subst(Plain(m.ts), bind, m.va), x.h \cup {x.t}) \o Rest(ts, a.j + 1), ms)
Subst(ts, b, va) ==
  IF ts = <<>> THEN <<>>
  ELSE (IF In(b.ps, ts[1].t) THEN b.as[Index(b.ps, ts[1].t)]
        ELSE IF va /\ ts[1].t = "__VA_ARGS__" THEN b.va
        ELSE <<ts[1]>>) \o Subst(Tail(ts), b, va)

Spell(ts) == [i \in 1..Len(ts) |-> ts[i].t]

-----------------------------------------------------------------------------
(* #if expressions: defined() first, then macro replacement, then remaining    *)
(* identifiers become 0, then evaluation by precedence.                        *)
RECURSIVE Defined(_, _)
Defined(ts, ms) ==
  IF ts = <<>> THEN <<>>
  ELSE IF ts[1] = "defined"
       THEN IF ts[2] = "(" THEN <<IF ts[3] \in DOMAIN ms THEN "1" ELSE "0">> \o Defined(Rest(ts, 5), ms)
            ELSE <<IF ts[2] \in DOMAIN ms THEN "1" ELSE "0">> \o Defined(Rest(ts, 3), ms)
       ELSE <<ts[1]>> \o Defined(Tail(ts), ms)

BinTok == {"*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"}
\* value of a primary or unary expression starting at i: <<value, next>>
RECURSIVE Unary(_, _), Climb(_, _, _, _)
Unary(ts, i) ==
  CASE ts[i] = "(" -> LET r == Climb(ts, i + 1, 1, <<>>) IN <<r[1], r[2] + 1>>
    [] ts[i] \in {"-", "+", "~", "!"} -> LET r == Unary(ts, i + 1) IN <<UnOp(ts[i], r[1]), r[2]>>
    [] OTHER -> <<IF ts[i] \in DOMAIN Num THEN Num[ts[i]] ELSE 0, i + 1>>
\* precedence climbing; left is <<>> or <<value, next>>
Climb(ts, i, min, left) ==
  LET l == IF left = <<>> THEN Unary(ts, i) ELSE left IN
  IF l[2] > Len(ts) \/ ts[l[2]] \notin BinTok \/ Prec(ts[l[2]]) < min THEN l
  ELSE LET op == ts[l[2]]
           r == Climb(ts, l[2] + 1, Prec(op) + 1, <<>>)
           v == CASE op = "&&" -> B2I(l[1] # 0 /\ r[1] # 0)
                  [] op = "||" -> B2I(l[1] # 0 \/ r[1] # 0)
                  [] OTHER -> LET b == BinOp(op, l[1], r[1]) IN IF b = <<>> THEN Assert(FALSE, ts) ELSE b[1]
       IN Climb(ts, i, min, <<v, r[2]>>)
Holds(ts, ms) == Climb(Spell(Expand(Plain(Defined(ts, ms)), ms)), 1, 1, <<>>)[1] # 0

-----------------------------------------------------------------------------
(* conds: one record per open conditional, innermost last: `on' - the current *)
(* group is compiled; `taken' - some group was selected; `live' - the         *)
(* conditional itself stands in a compiled group; `els' - #else was seen.     *)
Live == conds = <<>> \/ conds[Len(conds)].on
Line == Lines[pos]
Top == conds[Len(conds)]
Open(c) == conds' = Append(conds, [live |-> Live, on |-> Live /\ c, taken |-> c, els |-> FALSE])
SetTop(r) == conds' = [conds EXCEPT ![Len(conds)] = r]

Text == /\ Line.k = "text"
        /\ out' = IF Live THEN Append(out, Spell(Expand(Plain(Line.ts), macros))) ELSE out
        /\ UNCHANGED <<macros, conds, err>>
Define == /\ Line.k = "define"
          /\ macros' = IF Live THEN (Line.n :> [fn |-> Line.fn, va |-> Line.va, ps |-> Line.ps, ts |-> Line.ts]) @@ macros
                       ELSE macros
          /\ UNCHANGED <<out, conds, err>>
Undef == /\ Line.k = "undef"
         /\ macros' = IF Live THEN [x \in DOMAIN macros \ {Line.n} |-> macros[x]] ELSE macros
         /\ UNCHANGED <<out, conds, err>>
Error == /\ Line.k = "error"
         /\ err' = (err \/ Live)
         /\ UNCHANGED <<out, macros, conds>>
If == /\ Line.k \in {"if", "ifdef", "ifndef"}
      /\ Open(IF ~Live THEN FALSE
              ELSE CASE Line.k = "ifdef" -> Line.n \in DOMAIN macros
                     [] Line.k = "ifndef" -> Line.n \notin DOMAIN macros
                     [] OTHER -> Holds(Line.ts, macros))
      /\ UNCHANGED <<out, macros, err>>
Elif == /\ Line.k = "elif" /\ conds # <<>> /\ ~Top.els
        /\ LET c == Top.live /\ ~Top.taken /\ Holds(Line.ts, macros)
           IN SetTop([Top EXCEPT !.on = c, !.taken = @ \/ c])
        /\ UNCHANGED <<out, macros, err>>
Else == /\ Line.k = "else" /\ conds # <<>> /\ ~Top.els
        /\ SetTop([Top EXCEPT !.on = Top.live /\ ~Top.taken, !.taken = TRUE, !.els = TRUE])
        /\ UNCHANGED <<out, macros, err>>
Endif == /\ Line.k = "endif" /\ conds # <<>>
         /\ conds' = SubSeq(conds, 1, Len(conds) - 1)
         /\ UNCHANGED <<out, macros, err>>

Init == /\ p \in 1..Len(Progs) /\ pos = 1 /\ macros = NoMacros /\ conds = <<>> /\ out = <<>> /\ err = FALSE
Step == /\ pos <= Len(Lines) /\ pos' = pos + 1 /\ p' = p
        /\ (Text \/ Define \/ Undef \/ Error \/ If \/ Elif \/ Else \/ Endif)
Done == /\ pos = Len(Lines) + 1 /\ pos' = pos + 1
        /\ PrintT(ToJson([p |-> p, out |-> out, err |-> err, open |-> Len(conds)]))
        /\ UNCHANGED <<p, macros, conds, out, err>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* what the specification itself must satisfy *)
TypeOk == /\ \A c \in {conds[i] : i \in 1..Len(conds)} : (c.on => c.live /\ c.taken)
          /\ \A i \in 1..Len(conds) - 1 : conds[i + 1].on => conds[i].on
\* at most one group of a conditional is compiled: once one was, no later one is
OneGroup == [][\A i \in 1..Len(conds) : (Len(conds') >= i /\ Len(conds') <= Len(conds) /\ i = Len(conds) /\ Line.k \in {"elif", "else"}
                 /\ conds[i].taken) => ~conds'[i].on]_vars
=============================================================================
