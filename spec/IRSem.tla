------------------------------- MODULE IRSem -------------------------------
(* The abstract machine of the first-phase intermediate representation, as   *)
(* --dump-ir prints it (README, "Intermediate Representation").              *)
(*                                                                           *)
(* A state is a stack of activations (function, next instruction, values of  *)
(* the variables that are only ever named, objects of those that have an     *)
(* address), a memory of objects, the values pushed for the next call, the   *)
(* value the last call returned and the observable output.  The machine      *)
(* knows nothing but the dump, the file-scope declarations of the source and *)
(* the bytes of .data in the executable.  Anything the dump leaves without   *)
(* meaning (a label defined twice or never, an undeclared or undefined       *)
(* operand, a value taken from a call that returned none, an access outside  *)
(* every object) stops it with status "undef" and the reason.                *)
(*                                                                           *)
(* Programs come from IOEnv.IRS: a sequence of records                       *)
(*   fns  : Seq of [n, ps, vars, code, sig, wsig, decls, wdecls]             *)
(*          vars: Seq of [k, s]  k = "v" only named, "o" scalar object,      *)
(*                               "a" array or structure of s bytes           *)
(*          code: Seq of [o, d, a, b, v, l, m]                               *)
(*          variables are numbered, file-scope ones negatively, 0 is none    *)
(*   glob : Seq of [k, s, i]      i = <<>> or <<initial value>>              *)
(*   data : bytes of .data        main : index of main   fuel : bound        *)
EXTENDS Word, TLC, Json, IOUtils, SequencesExt, FiniteSets

CONSTANT Emit

Progs == JsonDeserialize(IOEnv.IRS)

VARIABLES pid, stk, mem, args, rv, out, st, fuel
vars == <<pid, stk, mem, args, rv, out, st, fuel>>

P == Progs[pid]
FBase == 2000000000          \* function designators
Span == 65536                \* object k starts at address k * Span

\* where a label of a function is defined
Labels(f) == {f.code[i].l : i \in {j \in 1..Len(f.code) : f.code[j].o = "label"}}
At == [p \in 1..Len(Progs) |-> [g \in 1..Len(Progs[p].fns) |->
         LET f == Progs[p].fns[g] IN
         [l \in Labels(f) |-> {i \in 1..Len(f.code) : f.code[i].o = "label" /\ f.code[i].l = l}]]]
FnIx == [p \in 1..Len(Progs) |-> [n \in {Progs[p].fns[i].n : i \in 1..Len(Progs[p].fns)} |->
           CHOOSE i \in 1..Len(Progs[p].fns) : Progs[p].fns[i].n = n]]

\* what a dump must be before it means anything
Shape(p) ==
  \A g \in 1..Len(Progs[p].fns) : LET f == Progs[p].fns[g] IN
    /\ f.sig = f.wsig               \* the function is declared as in the source
    /\ f.decls = f.wdecls           \* so are its variables, in order
    /\ f.bal                        \* blocks nest within the function
    /\ \A l \in DOMAIN At[p][g] : Cardinality(At[p][g][l]) = 1
    /\ \A i \in 1..Len(f.code) :
         /\ f.code[i].o = "br" => f.code[i].l \in DOMAIN At[p][g] /\ f.code[i].m \in DOMAIN At[p][g]
         /\ f.code[i].o = "j" => f.code[i].l \in DOMAIN At[p][g]

-----------------------------------------------------------------------------
F == Head(stk)
Fn == P.fns[F.f]
I == Fn.code[F.pc]
Undefd(n) == [i \in 1..n |-> -1]
WordBytes(v) == <<Byte(v, 0), Byte(v, 1), Byte(v, 2), Byte(v, 3)>>

LdB(a, s) ==                          \* <<value>> of s bytes at address a, or <<>>
  LET k == a \div Span o == a % Span IN
  IF k \notin 1..Len(mem) THEN <<>>
  ELSE IF o + s > Len(mem[k]) THEN <<>>
  ELSE IF \E i \in 1..s : mem[k][o + i] < 0 THEN <<>>
  ELSE IF s = 1 THEN <<mem[k][o + 1]>>
  ELSE <<FromBytes(mem[k][o + 1], mem[k][o + 2], mem[k][o + 3], mem[k][o + 4])>>
CanSt(a, s) == LET k == a \div Span IN k \in 1..Len(mem) /\ (a % Span) + s <= Len(mem[k])
St(a, s, v) == LET k == a \div Span o == a % Span IN
  IF s = 1 THEN [mem EXCEPT ![k][o + 1] = Lo(v) % 256]
  ELSE [mem EXCEPT ![k][o + 1] = Byte(v, 0), ![k][o + 2] = Byte(v, 1),
                   ![k][o + 3] = Byte(v, 2), ![k][o + 4] = Byte(v, 3)]

\* address of a variable
Obj(x) == IF x < 0 THEN (1 - x) * Span ELSE F.env[x][1] * Span
VarK(x) == IF x < 0 THEN P.glob[-x].k ELSE Fn.vars[x].k
\* value of an operand: <<v>> or <<>>
Val(x) == IF x = 0 THEN <<>>
          ELSE CASE VarK(x) = "v" -> F.env[x]
                 [] VarK(x) = "a" -> <<Obj(x)>>
                 [] VarK(x) = "o" -> LdB(Obj(x), 4)

Stop(why) == st' = [s |-> "undef", why |-> why, f |-> Fn.n, pc |-> F.pc] /\ UNCHANGED <<pid, stk, mem, args, rv, out>>
Next1 == [stk EXCEPT ![1].pc = @ + 1]
Quiet == UNCHANGED <<pid, st>>
\* give variable d the value v and go on
Put(d, v) ==
  IF d = 0 THEN Stop("undeclared")
  ELSE IF VarK(d) = "v" THEN stk' = [stk EXCEPT ![1].pc = @ + 1, ![1].env[d] = <<v>>] /\ Quiet /\ UNCHANGED <<mem, args, out>>
  ELSE IF VarK(d) = "o" THEN stk' = Next1 /\ mem' = St(Obj(d), 4, v) /\ Quiet /\ UNCHANGED <<args, out>>
  ELSE Stop("array assigned")

Goto(l) == LET t == At[pid][F.f] IN
  IF l \notin DOMAIN t THEN Stop("no such label")
  ELSE IF Cardinality(t[l]) # 1 THEN Stop("label defined twice")
  ELSE stk' = [stk EXCEPT ![1].pc = CHOOSE i \in t[l] : TRUE] /\ Quiet /\ UNCHANGED <<mem, args, rv, out>>

\* a new activation of function g: the pushed values become its parameters;
\* every object it declares comes into being, undefined
RECURSIVE Lay(_, _, _, _, _)
Lay(f, as, i, env, m) ==
  IF i > Len(f.vars) THEN <<env, m>>
  ELSE LET v == f.vars[i]
           k == CHOOSE k \in 0..Len(f.ps) : (k = 0 /\ \A j \in 1..Len(f.ps) : f.ps[j] # i) \/ (k > 0 /\ f.ps[k] = i) IN
       CASE v.k = "v" -> Lay(f, as, i + 1, Append(env, IF k = 0 THEN <<>> ELSE <<as[k]>>), m)
         [] v.k = "o" -> Lay(f, as, i + 1, Append(env, <<Len(m) + 1>>), Append(m, IF k = 0 THEN Undefd(4) ELSE WordBytes(as[k])))
         [] v.k = "a" -> Lay(f, as, i + 1, Append(env, <<Len(m) + 1>>), Append(m, Undefd(v.s)))
Enter(g, rest) ==
  LET f == P.fns[g] b == Lay(f, args, 1, <<>>, mem) IN
  /\ stk' = <<[f |-> g, pc |-> 1, env |-> b[1], low |-> Len(mem)]>> \o rest
  /\ mem' = b[2] /\ args' = <<>> /\ rv' = <<>> /\ UNCHANGED out /\ Quiet
CallFn(n, k) ==
  IF Len(args) # k THEN Stop("pushed values")
  ELSE IF n = "o" THEN
    IF k # 1 THEN Stop("pushed values")
    ELSE out' = Append(out, args[1]) /\ rv' = <<args[1]>> /\ args' = <<>> /\ stk' = Next1 /\ UNCHANGED mem /\ Quiet
  ELSE IF n \notin DOMAIN FnIx[pid] THEN Stop("unknown function")
  ELSE IF Len(P.fns[FnIx[pid][n]].ps) # k THEN Stop("number of arguments")
  ELSE Enter(FnIx[pid][n], Next1)

Back(v) ==      \* leave the function with value v = <<>> or <<x>>
  IF args # <<>> THEN Stop("pushed values left")
  ELSE IF Len(stk) = 1 THEN
    IF v = <<>> THEN Stop("main returns nothing")
    ELSE st' = [s |-> "done", r |-> v[1]] /\ UNCHANGED <<pid, stk, mem, args, rv, out>>
  ELSE stk' = Tail(stk) /\ mem' = SubSeq(mem, 1, F.low) /\ rv' = v /\ UNCHANGED <<args, out>> /\ Quiet

BinName == [add |-> "+", sub |-> "-", mul |-> "*", div |-> "/", mod |-> "%", eq |-> "==", neq |-> "!=",
            gt |-> ">", lt |-> "<", geq |-> ">=", leq |-> "<=", and |-> "&", or |-> "|", xor |-> "^",
            lshift |-> "<<", rshift |-> ">>"]

Run == st.s = "run" /\ fuel > 0 /\ fuel' = fuel - 1
Here(o) == Run /\ F.pc <= Len(Fn.code) /\ I.o = o
Keep == UNCHANGED rv

Label == Here("label") /\ stk' = Next1 /\ Quiet /\ UNCHANGED <<mem, args, rv, out>>
Allocate ==        \* each time round a loop the variable is a fresh one
  /\ Here("allocat")
  /\ IF I.d = 0 THEN Stop("undeclared")
     ELSE IF VarK(I.d) = "v" THEN stk' = [stk EXCEPT ![1].pc = @ + 1, ![1].env[I.d] = <<>>] /\ Quiet /\ UNCHANGED <<mem, args, rv, out>>
     ELSE LET k == Obj(I.d) \div Span IN
          stk' = Next1 /\ mem' = [mem EXCEPT ![k] = Undefd(Len(@))] /\ Quiet /\ UNCHANGED <<args, rv, out>>
Const == Here("const") /\ Put(I.d, I.v) /\ Keep
DataAt == /\ Here("data") /\ Keep
          /\ IF I.v \in 0..(Len(P.data) - 1) THEN Put(I.d, Span + I.v) ELSE Stop("outside .data")
AddrOf == /\ Here("addr") /\ Keep
          /\ IF I.a = 0 THEN Stop("undeclared") ELSE IF VarK(I.a) = "v" THEN Stop("no object") ELSE Put(I.d, Obj(I.a))
Assign == /\ Here("assign") /\ Keep
          /\ LET v == Val(I.a) IN IF v = <<>> THEN Stop("undefined operand") ELSE Put(I.d, v[1])
Jump == Here("j") /\ Goto(I.l)
Branch == /\ Here("br")
          /\ LET v == Val(I.d) IN IF v = <<>> THEN Stop("undefined condition") ELSE Goto(IF v[1] # 0 THEN I.l ELSE I.m)
Push == /\ Here("push")
        /\ LET v == Val(I.a) IN
           IF v = <<>> THEN Stop("undefined argument")
           ELSE args' = Append(args, v[1]) /\ stk' = Next1 /\ Quiet /\ UNCHANGED <<mem, rv, out>>
Call == Here("call") /\ CallFn(I.l, I.v)
ICall == /\ Here("icall")
         /\ LET v == Val(I.a) IN
            IF v = <<>> THEN Stop("undefined function")
            ELSE IF v[1] - FBase \notin 1..Len(P.fns) THEN Stop("not a function")
            ELSE CallFn(P.fns[v[1] - FBase].n, Len(args))
RetVal == Here("retval") /\ (IF rv = <<>> THEN Stop("no value returned") ELSE Put(I.d, rv[1])) /\ rv' = <<>>
Return == /\ Here("ret")
          /\ IF I.v = 0 THEN Back(<<>>)
             ELSE LET v == Val(I.a) IN IF v = <<>> THEN Stop("undefined result") ELSE Back(v)
FallOff == Run /\ F.pc = Len(Fn.code) + 1 /\ Back(<<>>)
Read == /\ Here("read") /\ Keep
        /\ LET a == Val(I.a) IN
           IF a = <<>> THEN Stop("undefined address")
           ELSE IF I.v \notin {1, 4} THEN Stop("size")
           ELSE LET v == LdB(a[1], I.v) IN IF v = <<>> THEN Stop("read outside an object") ELSE Put(I.d, v[1])
Write == /\ Here("write")
         /\ LET a == Val(I.d) v == Val(I.a) IN
            IF a = <<>> \/ v = <<>> THEN Stop("undefined operand")
            ELSE IF I.v \notin {1, 4} THEN Stop("size")
            ELSE IF ~CanSt(a[1], I.v) THEN Stop("write outside an object")
            ELSE mem' = St(a[1], I.v, v[1]) /\ stk' = Next1 /\ Quiet /\ UNCHANGED <<args, rv, out>>
WriteFn == /\ Here("writefn")
           /\ LET a == Val(I.d) IN
              IF a = <<>> THEN Stop("undefined address")
              ELSE IF ~CanSt(a[1], 4) \/ I.l \notin DOMAIN FnIx[pid] THEN Stop("function")
              ELSE mem' = St(a[1], 4, FBase + FnIx[pid][I.l]) /\ stk' = Next1 /\ Quiet /\ UNCHANGED <<args, rv, out>>
Unary == /\ Run /\ F.pc <= Len(Fn.code) /\ I.o \in {"neg", "not", "lnot"} /\ Keep
         /\ LET v == Val(I.a) IN
            IF v = <<>> THEN Stop("undefined operand")
            ELSE Put(I.d, UnOp(CASE I.o = "neg" -> "-" [] I.o = "not" -> "~" [] OTHER -> "!", v[1]))
Binary == /\ Run /\ F.pc <= Len(Fn.code) /\ I.o \in DOMAIN BinName /\ Keep
          /\ LET a == Val(I.a) b == Val(I.b) IN
             IF a = <<>> \/ b = <<>> THEN Stop("undefined operand")
             ELSE LET r == BinOp(BinName[I.o], a[1], b[1]) IN
                  IF r = <<>> THEN Stop("undefined operation") ELSE Put(I.d, r[1])
Unknown == /\ Here("?") /\ Stop("unknown instruction") 

Init ==
  /\ pid \in 1..Len(Progs)
  /\ out = <<>> /\ args = <<>> /\ rv = <<>> /\ fuel = P.fuel
  /\ LET f == P.fns[P.main]
         \* object 1 is .data, then the file-scope objects
         m == <<P.data>> \o [i \in 1..Len(P.glob) |->
                IF P.glob[i].i # <<>> /\ P.glob[i].s = 4 THEN WordBytes(P.glob[i].i[1])
                ELSE [j \in 1..P.glob[i].s |-> 0]]
         b == Lay(f, [i \in 1..Len(f.ps) |-> 0], 1, <<>>, m) IN
     /\ stk = <<[f |-> P.main, pc |-> 1, env |-> b[1], low |-> Len(m)]>>
     /\ mem = b[2]
  /\ st = IF Shape(pid) THEN [s |-> "run"] ELSE [s |-> "undef", why |-> "shape", f |-> "", pc |-> 0]

Next == Label \/ Allocate \/ Const \/ DataAt \/ AddrOf \/ Assign \/ Jump \/ Branch \/ Push \/ Call \/ ICall
        \/ RetVal \/ Return \/ FallOff \/ Read \/ Write \/ WriteFn \/ Unary \/ Binary \/ Unknown
Spec == Init /\ [][Next]_vars

Finished == st.s # "run" \/ fuel = 0
Outcome == [p |-> pid, st |-> IF st.s = "run" THEN [s |-> "fuel"] ELSE st, o |-> out,
            bad |-> IF st.s = "undef" /\ st.why = "shape" THEN
                      {g \in 1..Len(P.fns) : LET f == P.fns[g] IN
                         \/ f.sig # f.wsig \/ f.decls # f.wdecls \/ ~f.bal
                         \/ \E l \in DOMAIN At[pid][g] : Cardinality(At[pid][g][l]) # 1
                         \/ \E i \in 1..Len(f.code) :
                              \/ f.code[i].o \in {"br", "j"} /\ f.code[i].l \notin DOMAIN At[pid][g]
                              \/ f.code[i].o = "br" /\ f.code[i].m \notin DOMAIN At[pid][g]}
                    ELSE {}]
Report == (Emit /\ Finished) => PrintT(ToJson(Outcome))
NoStuck == ~Finished => ENABLED Next
=============================================================================
