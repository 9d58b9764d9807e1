------------------------------- MODULE IRFlow -------------------------------
(* The static discipline of the first-phase IR, over every path of every     *)
(* dumped function (generated programs, the embedded library, the compiler). *)
(*                                                                           *)
(* A state is a function, a temporary that some instruction uses, and a      *)
(* place from which that use is reached without passing a definition of the  *)
(* temporary.  States grow backwards, from the use towards the entry of the  *)
(* function: a state at the entry is a path on which the temporary is used   *)
(* before it is defined.                                                     *)
(*                                                                           *)
(* IOEnv.IRS holds fns, records as in IRSem.tla with tmp, the numbers of the *)
(* temporaries, and dump, the dump they belong to; and arity, for every dump *)
(* the sequence of <<name, number of parameters, variadic>>.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.IRS)
Fns == In.fns

VARIABLES f, x, pc, use
vars == <<f, x, pc, use>>

Code(g) == Fns[g].code
Uses(i) == CASE i.o \in {"assign", "push", "read", "icall", "neg", "not", "lnot"} -> {i.a}
             [] i.o = "ret" -> IF i.v = 1 THEN {i.a} ELSE {}
             [] i.o = "br" -> {i.d}
             [] i.o = "write" -> {i.d, i.a}
             [] i.o = "writefn" -> {i.d}
             [] i.o \in {"add", "sub", "mul", "div", "mod", "eq", "neq", "gt", "lt", "geq", "leq", "and", "or", "xor", "lshift", "rshift"} -> {i.a, i.b}
             [] OTHER -> {}
Defs(i) == IF i.o \in {"br", "write", "writefn"} THEN {} ELSE IF i.o = "addr" THEN {i.d, i.a} ELSE {i.d}

Temp == [g \in 1..Len(Fns) |-> {Fns[g].tmp[k] : k \in 1..Len(Fns[g].tmp)}]
LabelsOf(g) == {Code(g)[i].l : i \in {j \in 1..Len(Code(g)) : Code(g)[j].o = "label"}}
At == [g \in 1..Len(Fns) |-> [l \in LabelsOf(g) |-> {i \in 1..Len(Code(g)) : Code(g)[i].o = "label" /\ Code(g)[i].l = l}]]
\* who jumps to a label
Jumps == [g \in 1..Len(Fns) |-> [l \in LabelsOf(g) |->
            {i \in 1..Len(Code(g)) : \/ Code(g)[i].o = "j" /\ Code(g)[i].l = l
                                     \/ Code(g)[i].o = "br" /\ (Code(g)[i].l = l \/ Code(g)[i].m = l)}]]
Pred(g, i) ==
  (IF i > 1 /\ Code(g)[i - 1].o \notin {"j", "br", "ret"} THEN {i - 1} ELSE {})
  \cup (IF Code(g)[i].o = "label" THEN Jumps[g][Code(g)[i].l] ELSE {})

\* instructions whose operands are wrong whatever happens before them
ArityOf == [k \in 1..Len(In.arity) |-> [n \in {In.arity[k][i][1] : i \in 1..Len(In.arity[k])} |->
              In.arity[k][CHOOSE i \in 1..Len(In.arity[k]) : In.arity[k][i][1] = n]]]
RECURSIVE Pushes(_, _)
Pushes(g, i) == IF i = 0 THEN 0 ELSE IF Code(g)[i].o = "push" THEN 1 + Pushes(g, i - 1) ELSE 0
Bad(g, i) ==
  LET c == Code(g)[i] IN
  CASE c.o = "?" -> "unknown instruction"
    [] c.o = "br" /\ (c.l \notin DOMAIN At[g] \/ c.m \notin DOMAIN At[g]) -> "no such label"
    [] c.o = "j" /\ c.l \notin DOMAIN At[g] -> "no such label"
    [] c.o = "label" /\ Cardinality(At[g][c.l]) # 1 -> "label defined more than once"
    [] c.o = "call" /\ c.l # "__syscall" /\            \* supplied by the code generator
         c.l \notin DOMAIN ArityOf[Fns[g].dump] -> "unknown function"
    \* a call names the number of declared parameters; a variadic function may be given more
    [] c.o = "call" /\ c.l # "__syscall" /\
         LET a == ArityOf[Fns[g].dump][c.l] k == Pushes(g, i - 1) IN
         c.v # a[2] \/ ~(k = a[2] \/ (a[3] /\ k > a[2])) -> "number of arguments"
    [] c.o = "push" /\ i < Len(Code(g)) /\ Code(g)[i + 1].o \notin {"push", "call", "icall"} -> "pushed values"
    [] c.o = "retval" /\ (i = 1 \/ Code(g)[i - 1].o \notin {"call", "icall"}) -> "value of no call"
    [] c.o \in {"read", "write"} /\ c.v \notin {1, 4} -> "size"
    [] c.o \notin {"j", "label", "call", "ret", "br"} /\ 0 \in (Uses(c) \cup Defs(c)) /\ c.o \notin {"push", "icall", "write", "writefn"} -> "undeclared operand"
    [] c.o \in {"push", "icall", "br", "write", "writefn"} /\ 0 \in Uses(c) -> "undeclared operand"
    [] OTHER -> ""

Init ==
  /\ f \in 1..Len(Fns)
  /\ \/ \E i \in 1..Len(Code(f)) :
          \* the use itself must not be reached by a fresh definition in the same instruction
          \E t \in Uses(Code(f)[i]) \cap Temp[f] : x = t /\ pc = i /\ use = i
     \/ x = 0 /\ pc = 0 /\ use = 0

Next ==
  /\ x # 0
  /\ \E q \in Pred(f, pc) : x \notin Defs(Code(f)[q]) /\ pc' = q
  /\ UNCHANGED <<f, x, use>>
Spec == Init /\ [][Next]_vars

Report ==
  /\ (x # 0 /\ pc = 1) => PrintT(ToJson([f |-> f, e |-> "used before it is defined", pc |-> use]))
  /\ x = 0 => /\ \A i \in 1..Len(Code(f)) : Bad(f, i) # "" => PrintT(ToJson([f |-> f, e |-> Bad(f, i), pc |-> i]))
              /\ ~Fns[f].bal => PrintT(ToJson([f |-> f, e |-> "blocks do not nest", pc |-> 1]))
View == <<f, x, pc>>       \* one use stands for all that share the path
=============================================================================
