------------------------------ MODULE Grammar -------------------------------
(* The grammar of the language, and the visibility of names, as a pushdown     *)
(* automaton over the tokens of a source (IOEnv.TOKS: a JSON list of token     *)
(* lists, a token is [k |-> kind, s |-> spelling]).  State: position, stack of  *)
(* grammar symbols, scopes of declared names, type names, structure tags and    *)
(* members.  One step expands the topmost symbol or consumes one token.  The    *)
(* language accepted is at least the supported one (C types and constraints     *)
(* are not checked), so a source it refuses is ill-formed beyond doubt.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Toks == JsonDeserialize(IOEnv.TOKS)

VARIABLES p, pos, stk, sc, ty, mem, nest
vars == <<p, pos, stk, sc, ty, mem, nest>>

Keywords == {"if", "while", "for", "do", "else", "return", "typedef", "enum", "struct", "sizeof", "switch",
             "case", "break", "default", "continue"}
BaseTypes == {"void", "char", "int", "short", "_Bool", "bool", "FILE", "chunk_t"}
LibC == {"printf", "sprintf", "snprintf", "puts", "putchar", "getchar", "malloc", "calloc", "free", "exit", "abort", "fopen",
         "fclose", "fgetc", "fgets", "fputc", "strlen", "strcmp", "strncmp", "strcpy", "strncpy", "memcpy", "memset",
         "chmod", "isdigit", "isalpha", "isalnum", "isxdigit", "isblank", "__syscall", "stdin", "stdout", "stderr", "INT_BUF_LEN", "NULL"}

T(i) == Toks[p][i]
K(i) == IF i > Len(Toks[p]) THEN "eof"
        ELSE IF T(i).k = "id" THEN (IF T(i).s \in Keywords THEN T(i).s ELSE "ID")
        ELSE IF T(i).k = "pun" THEN T(i).s ELSE T(i).k
IsType(i) == K(i) = "struct" \/ (K(i) = "ID" /\ T(i).s \in ty)
Declared(n) == \E i \in 1..Len(sc) : n \in sc[i]

Bin == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"}
Asg == {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
Pre == {"-", "+", "!", "~", "*", "&", "++", "--"}
Fail == <<"FAIL">>

NonTerm == {"unit", "ext", "tdef", "fnrest", "fbody", "dtor", "pdtor", "ptypes", "ptmore", "params", "pmore", "optname", "opttag",
            "arr", "arrn", "init", "init1", "moren", "enums", "enumv", "enummore", "members", "mmore", "type", "stars", "stmts", "stmt",
            "else?", "forinit", "optexpr", "expr", "exprmore", "asgn", "asgmore", "cond", "binmore", "condmore", "un", "prim", "strs", "post",
            "args", "argmore"}

FnPtr == <<"(", "*", "@name", ")", "(", "ptypes", ")">>

\* the symbols that replace s when the next tokens are k1, k2 ...
Rule(s, i) ==
  LET k == K(i) IN
  CASE s = "unit" -> IF k = "eof" THEN <<>> ELSE <<"ext", "unit">>
    [] s = "ext" -> IF k = "typedef" THEN <<"typedef", "tdef">> ELSE IF k = ";" THEN <<";">>
                    ELSE IF k = "struct" /\ K(i + 2) = "{" THEN <<"struct", "ID", "{", "members", "}", ";">>
                    ELSE IF IsType(i) THEN (IF K(i + 1) = "(" THEN <<"type">> \o FnPtr \o <<"init", ";">>
                                            ELSE <<"type", "stars", "@name", "fnrest">>)
                    ELSE Fail
    [] s = "tdef" -> IF k = "enum" THEN <<"enum", "opttag", "{", "enums", "}", "@type", ";">>
                     ELSE IF k = "struct" /\ (K(i + 1) = "{" \/ K(i + 2) = "{") THEN <<"struct", "opttag", "{", "members", "}", "@type", ";">>
                     ELSE <<"type", "stars", "@type", "arr", ";">>
    [] s = "fnrest" -> IF k = "(" THEN <<"(", "@push", "params", ")", "fbody">> ELSE <<"arr", "init", "moren", ";">>
    [] s = "fbody" -> IF k = "{" THEN <<"{", "stmts", "}", "@pop">> ELSE <<"@pop", ";">>
    [] s = "dtor" -> IF k = "(" THEN FnPtr ELSE <<"stars", "@name", "arr">>
    [] s = "pdtor" -> IF k = "(" THEN FnPtr ELSE <<"stars", "optname", "arr">>
    [] s = "ptypes" -> IF k = ")" THEN <<>> ELSE <<"type", "pdtor", "ptmore">>
    [] s = "ptmore" -> IF k = "," THEN <<",", "type", "pdtor", "ptmore">> ELSE <<>>
    [] s = "params" -> IF k = ")" THEN <<>> ELSE IF k = "..." THEN <<"...">> ELSE <<"type", "pdtor", "pmore">>
    [] s = "pmore" -> IF k # "," THEN <<>> ELSE IF K(i + 1) = "..." THEN <<",", "...">> ELSE <<",", "type", "pdtor", "pmore">>
    [] s = "optname" -> IF k = "ID" THEN <<"@name">> ELSE <<>>
    [] s = "opttag" -> IF k = "ID" THEN <<"ID">> ELSE <<>>
    [] s = "arr" -> IF k = "[" THEN <<"[", "arrn", "]", "arr">> ELSE <<>>
    [] s = "arrn" -> IF k = "]" THEN <<>> ELSE <<"cond">>
    [] s = "init" -> IF k = "=" THEN <<"=", "init1">> ELSE <<>>
    [] s = "init1" -> IF k = "{" THEN <<"{", "args", "}">> ELSE <<"asgn">>
    [] s = "moren" -> IF k = "," THEN <<",", "dtor", "init", "moren">> ELSE <<>>
    [] s = "enums" -> <<"@name", "enumv", "enummore">>
    [] s = "enumv" -> IF k = "=" THEN <<"=", "cond">> ELSE <<>>
    [] s = "enummore" -> IF k # "," THEN <<>> ELSE IF K(i + 1) = "}" THEN <<",">> ELSE <<",", "@name", "enumv", "enummore">>
    [] s = "members" -> IF k = "}" THEN <<>> ELSE <<"type", "stars", "@member", "arr", "mmore", ";", "members">>
    [] s = "mmore" -> IF k = "," THEN <<",", "stars", "@member", "arr", "mmore">> ELSE <<>>
    [] s = "type" -> IF k = "struct" THEN <<"struct", "ID">> ELSE IF IsType(i) THEN <<"ID">> ELSE Fail
    [] s = "stars" -> IF k = "*" THEN <<"*", "stars">> ELSE <<>>
    [] s = "stmts" -> IF k = "}" THEN <<>> ELSE IF k = "eof" THEN Fail ELSE <<"stmt", "stmts">>
    [] s = "stmt" ->
       (CASE k = "{" -> <<"{", "@push", "stmts", "}", "@pop">>
          [] k = "if" -> <<"if", "(", "expr", ")", "stmt", "else?">>
          [] k = "while" -> <<"while", "(", "expr", ")", "@loop", "stmt", "@end">>
          [] k = "do" -> <<"do", "@loop", "stmt", "@end", "while", "(", "expr", ")", ";">>
          [] k = "for" -> <<"for", "(", "@push", "forinit", ";", "optexpr", ";", "optexpr", ")", "@loop", "stmt", "@end", "@pop">>
          [] k = "switch" -> <<"switch", "(", "expr", ")", "@switch", "stmt", "@end">>
          [] k = "case" -> <<"@inswitch", "case", "cond", ":">>
          [] k = "default" -> <<"@inswitch", "default", ":">>
          [] k = "break" -> <<"@inany", "break", ";">>
          [] k = "continue" -> <<"@inloop", "continue", ";">>
          [] k = "return" -> <<"return", "optexpr", ";">>
          [] k = ";" -> <<";">>
          [] k \in {"else", "typedef", "enum", "eof"} -> Fail
          [] OTHER -> IF IsType(i) THEN <<"type", "dtor", "init", "moren", ";">> ELSE <<"expr", ";">>)
    [] s = "else?" -> IF k = "else" THEN <<"else", "stmt">> ELSE <<>>
    [] s = "forinit" -> IF IsType(i) THEN <<"type", "dtor", "init", "moren">> ELSE <<"optexpr">>
    [] s = "optexpr" -> IF k \in {";", ")"} THEN <<>> ELSE <<"expr">>
    [] s = "expr" -> <<"asgn", "exprmore">>
    [] s = "exprmore" -> IF k = "," THEN <<",", "asgn", "exprmore">> ELSE <<>>
    [] s = "asgn" -> <<"cond", "asgmore">>
    [] s = "asgmore" -> IF k \in Asg THEN <<k, "asgn">> ELSE <<>>
    [] s = "cond" -> <<"un", "binmore", "condmore">>
    [] s = "binmore" -> IF k \in Bin THEN <<k, "un", "binmore">> ELSE <<>>
    [] s = "condmore" -> IF k = "?" THEN <<"?", "expr", ":", "cond">> ELSE <<>>
    [] s = "un" -> IF k \in Pre THEN <<k, "un">>
                   ELSE IF k = "sizeof" THEN (IF K(i + 1) = "(" /\ IsType(i + 2) THEN <<"sizeof", "(", "type", "stars", ")">> ELSE <<"sizeof", "un">>)
                   ELSE IF k = "(" /\ IsType(i + 1) THEN <<"(", "type", "stars", ")", "un">>
                   ELSE <<"prim", "post">>
    [] s = "prim" -> (CASE k = "ID" -> <<"@use">> [] k \in {"num", "chr"} -> <<k>> [] k = "str" -> <<"str", "strs">>
                        [] k = "(" -> <<"(", "expr", ")">> [] OTHER -> Fail)
    [] s = "strs" -> IF k = "str" THEN <<"str", "strs">> ELSE <<>>
    [] s = "post" -> (CASE k = "[" -> <<"[", "expr", "]", "post">> [] k = "(" -> <<"(", "args", ")", "post">>
                        [] k \in {".", "->"} -> <<k, "@field", "post">> [] k \in {"++", "--"} -> <<k, "post">> [] OTHER -> <<>>)
    [] s = "args" -> IF k \in {")", "}"} THEN <<>> ELSE <<"asgn", "argmore">>
    [] s = "argmore" -> IF k = "," THEN <<",", "asgn", "argmore">> ELSE <<>>

-----------------------------------------------------------------------------
Top == stk[1]
Rest == Tail(stk)
Verdict(ok) == PrintT(ToJson([p |-> p, ok |-> ok, at |-> pos, sym |-> IF ok THEN "" ELSE Top])) /\ stk' = <<>> /\ UNCHANGED <<p, pos, sc, ty, mem, nest>>

Init == /\ p \in 1..Len(Toks) /\ pos = 1 /\ stk = <<"unit", "eof">>
        /\ sc = <<LibC>> /\ ty = BaseTypes /\ mem = {} /\ nest = <<>>

Expand == /\ Top \in NonTerm /\ Rule(Top, pos) # Fail
          /\ stk' = Rule(Top, pos) \o Rest
          /\ UNCHANGED <<p, pos, sc, ty, mem, nest>>
Reject == /\ IF Top \in NonTerm THEN Rule(Top, pos) = Fail
             ELSE CASE Top \in {"@name", "@type", "@member"} -> K(pos) # "ID"
                    [] Top = "@use" -> ~Declared(T(pos).s)
                    [] Top = "@field" -> K(pos) # "ID" \/ (K(pos) = "ID" /\ T(pos).s \notin mem)
                    [] Top = "@inloop" -> ~\E i \in 1..Len(nest) : nest[i] = "loop"
                    [] Top = "@inany" -> nest = <<>>
                    [] Top = "@inswitch" -> ~\E i \in 1..Len(nest) : nest[i] = "switch"
                    [] Top \in {"@push", "@pop", "@loop", "@switch", "@end"} -> FALSE
                    [] OTHER -> Top # K(pos)
          /\ Verdict(FALSE)
Accept == Top = "eof" /\ K(pos) = "eof" /\ Verdict(TRUE)
Match == /\ Top \notin NonTerm /\ Top # "eof" /\ Top = K(pos)
         /\ pos' = pos + 1 /\ stk' = Rest /\ UNCHANGED <<p, sc, ty, mem, nest>>
Name == /\ Top = "@name" /\ K(pos) = "ID"
        /\ sc' = [sc EXCEPT ![1] = @ \cup {T(pos).s}]
        /\ pos' = pos + 1 /\ stk' = Rest /\ UNCHANGED <<p, ty, mem, nest>>
Type == /\ Top = "@type" /\ K(pos) = "ID" /\ ty' = ty \cup {T(pos).s}
        /\ pos' = pos + 1 /\ stk' = Rest /\ UNCHANGED <<p, sc, mem, nest>>
Member == /\ Top = "@member" /\ K(pos) = "ID" /\ mem' = mem \cup {T(pos).s}
          /\ pos' = pos + 1 /\ stk' = Rest /\ UNCHANGED <<p, sc, ty, nest>>
Use == /\ Top = "@use" /\ Declared(T(pos).s)
       /\ pos' = pos + 1 /\ stk' = Rest /\ UNCHANGED <<p, sc, ty, mem, nest>>
Field == /\ Top = "@field" /\ K(pos) = "ID" /\ (IF K(pos) = "ID" THEN T(pos).s \in mem ELSE FALSE)
         /\ pos' = pos + 1 /\ stk' = Rest /\ UNCHANGED <<p, sc, ty, mem, nest>>
Push == Top = "@push" /\ sc' = <<{}>> \o sc /\ stk' = Rest /\ UNCHANGED <<p, pos, ty, mem, nest>>
Pop == Top = "@pop" /\ sc' = Tail(sc) /\ stk' = Rest /\ UNCHANGED <<p, pos, ty, mem, nest>>
Enter == /\ Top \in {"@loop", "@switch"} /\ nest' = <<IF Top = "@loop" THEN "loop" ELSE "switch">> \o nest
         /\ stk' = Rest /\ UNCHANGED <<p, pos, sc, ty, mem>>
Leave == Top = "@end" /\ nest' = Tail(nest) /\ stk' = Rest /\ UNCHANGED <<p, pos, sc, ty, mem>>
Inside == /\ CASE Top = "@inloop" -> \E i \in 1..Len(nest) : nest[i] = "loop"
               [] Top = "@inany" -> nest # <<>>
               [] Top = "@inswitch" -> \E i \in 1..Len(nest) : nest[i] = "switch"
               [] OTHER -> FALSE
          /\ stk' = Rest /\ UNCHANGED <<p, pos, sc, ty, mem, nest>>
Next == stk # <<>> /\ (Expand \/ Reject \/ Accept \/ Match \/ Name \/ Type \/ Member \/ Use \/ Field \/ Push \/ Pop \/ Enter \/ Leave \/ Inside)
Spec == Init /\ [][Next]_vars

\* exactly one step is possible until the verdict, and scopes stay balanced
TypeOK == Len(sc) >= 1 /\ pos <= Len(Toks[p]) + 1
Decides == stk # <<>> => ENABLED Next
=============================================================================
