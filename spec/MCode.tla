------------------------------- MODULE MCode --------------------------------
(* What every control-flow path of emitted code must respect.  A program is a   *)
(* sequence of decoded instructions [m, c, s, o, i, t] and a sequence of functions                 *)
(* [e |-> entry, z |-> end, np |-> parameters, va, void, kind |-> "fun"|"start"|"sys"]. *)
(* An execution of a function takes every branch both ways; besides its place   *)
(* it carries what is known of one watched thing w:                             *)
(*   a register: does it hold a defined value?  (a call leaves none defined but *)
(*     the result, the stack pointer and the globals base)                      *)
(*     loading offset 0 of the frame, where nothing is kept, stands for a       *)
(*     variable not assigned on this path ("unset"): such a value may be merged *)
(*     with others, i.e. stored to a slot, but not computed with                *)
(*   a frame slot: was it ever stored to?                                       *)
(*   "stack": stack pointer relative to entry, where the return address is,     *)
(*     the globals base                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Programs == JsonDeserialize(IOEnv.MCODE)   \* [arch, code, fns, base, slots]
VARIABLES p, f, pc, w, sl, def, sp, lr, ral, k, fl
vars == <<p, f, pc, w, sl, def, sp, lr, ral, k, fl>>
From == Programs[p].from      \* the first instruction given (earlier ones belong to functions not explored)
X == Programs[p].code[pc - From + 1]
F == Programs[p].fns[f]
Fns == Programs[p].fns
Arm == Programs[p].arch = "arm"
Len0 == From - 1 + Len(Programs[p].code)
Args == IF Arm THEN <<"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7">> ELSE <<"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7">>
Regs(a) == IF a = "arm" THEN {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10"}
           ELSE {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "t0", "t1", "t2", "t3", "t4", "t5"}
Temp == IF Arm THEN "r8" ELSE "t0"
SP == "sp"
GP == IF Arm THEN "r12" ELSE "gp"
LR == IF Arm THEN "lr" ELSE "ra"
Caller == -1      \* the return address of the function's caller
Lost == -2        \* no return address
None == 1000000   \* no such place, no such constant
G == Programs[p].globals
Yes(b) == IF b THEN "yes" ELSE "no"
Range(s) == {s[i] : i \in 1..Len(s)}
-----------------------------------------------------------------------------
(* instructions: [m, c, s, o (registers in order of writing), i (immediate), t (target)] *)
Compare == {"cmp", "teq"}
Stores == {"str", "strb", "sw", "sb"}
Loads == {"ldr", "ldrb", "lw", "lbu"}
CondBranch == {"beq", "bne", "bltu"}
Control == {"b", "bl", "blx", "jal", "jalr", "svc", "ecall", "push", "pop"} \cup CondBranch
\* o[1] is the destination of everything else
Reads(x) == IF x.m \in Compare \cup Stores \cup CondBranch \cup {"push"} THEN Range(x.o)
            ELSE IF x.m \in {"b", "bl", "jal", "pop", "svc", "ecall"} THEN {}
            ELSE IF x.m = "movt" THEN {x.o[1]}
            ELSE IF x.m \in {"blx"} THEN Range(x.o)
            ELSE Range(Tail(x.o))
Writes(x) == IF x.m \in Compare \cup Stores \cup CondBranch \cup {"push", "b", "bl", "blx", "svc", "ecall"} THEN {}
             ELSE IF x.m = "pop" THEN Range(x.o)
             ELSE IF x.m \in {"jal", "jalr"} THEN {x.o[1]} \ {"zero"}
             ELSE {x.o[1]}
Copy(x) == (x.m = "mov" /\ Len(x.o) = 2 /\ x.o[1] = x.o[2]) \/ (x.m = "addi" /\ x.i = 0 /\ x.o[1] = x.o[2])
Nothing(x) == x.m \in {"ldr", "lw"} /\ x.o[2] = SP /\ x.i = 0 /\ x.o[1] # LR
Base(x) == IF x.m \in Loads \cup Stores THEN x.o[2] ELSE ""
\* the address computed from the stack pointer or the globals base
Offset(x, b) == IF x.m \in {"add", "addi"} /\ Len(x.o) = 2 /\ x.o[2] = b THEN x.i
                ELSE IF x.m = "add" /\ Len(x.o) = 3 /\ x.o[2] = b /\ x.o[3] = Temp THEN k
                ELSE None

\* conditions hold according to what the last comparison may have found
Holds(c, q) == CASE c = "eq" -> q.z [] c = "ne" -> ~q.z [] c = "lt" -> q.lt [] c = "ge" -> ~q.lt [] c = "gt" -> ~q.z /\ ~q.lt
                 [] c = "le" -> q.z \/ q.lt [] c = "lo" -> q.lo [] c = "hs" -> ~q.lo
Outcomes == {q \in [z : BOOLEAN, lt : BOOLEAN, lo : BOOLEAN] : q.z => ~q.lt /\ ~q.lo}
Unset == [z |-> FALSE, lt |-> FALSE, lo |-> TRUE, set |-> FALSE]
Set(q) == q @@ [set |-> TRUE]
Const(x) ==      \* the constant in the scratch register after x
  IF Temp \notin Writes(x) THEN k
  ELSE IF x.m = "movw" THEN x.i
  ELSE IF x.m = "movt" /\ k # None /\ x.i < 16000 THEN (k % 65536) + 65536 * x.i
  ELSE IF x.m = "lui" /\ x.i < 200000 THEN 4096 * x.i
  ELSE IF x.m = "addi" /\ x.o = <<"t0", "t0">> /\ k # None THEN k + x.i
  ELSE None
-----------------------------------------------------------------------------
Entries == {g \in 1..Len(Fns) : Fns[g].kind # "start"}
At(t) == {g \in Entries : Fns[g].e = t}
InF(t) == t >= F.e /\ t < F.z
AddrIndex(a) == IF a >= Programs[p].base /\ a < Programs[p].base + 4 * Len0 /\ (a - Programs[p].base) % 4 = 0 THEN (a - Programs[p].base) \div 4 + 1 ELSE 0

Init == /\ p \in 1..Len(Programs)
        /\ f \in {g \in 1..Len(Fns) : Fns[g].look}
        /\ pc = F.e
        /\ \/ w \in {"stack"} \cup Regs(Programs[p].arch) /\ sl = 0
           \/ w = "slot" /\ sl \in Range(F.slots)
        /\ def = Yes(w \in (IF F.va \/ F.kind = "sys" THEN Range(Args) ELSE {Args[i] : i \in 1..F.np}))
        /\ sp = 0 /\ lr = (IF F.kind = "start" THEN Lost ELSE Caller) /\ ral = None /\ k = None /\ fl = Unset
Stack == w = "stack"
IsReg == w \in Regs(Programs[p].arch)
IsSlot == w = "slot"

\* after a call of a function with np parameters
AfterCall(np, void) ==
  /\ pc' = pc + 1
  /\ def' = (IF IsSlot \/ Stack THEN def ELSE Yes(w = Args[1] /\ ~void))
  /\ lr' = (IF Stack THEN Lost ELSE lr) /\ k' = None /\ fl' = Unset
  /\ UNCHANGED <<p, f, w, sl, sp, ral>>
Bad(e) == [bad |-> e]
\* what is wrong with executing x now ("" if nothing)
Wrong(x) ==
  IF pc >= F.z \/ pc < F.e THEN "execution leaves the function"
  ELSE IF x.m = "?" THEN "not an instruction of the target"
  ELSE IF IsReg THEN
    (IF w \in Reads(x) /\ def = "no" /\ ~Copy(x) THEN "reads a register without a defined value"
     ELSE IF w \in Reads(x) /\ def = "unset" /\ ~(x.m \in {"str", "sw"} /\ Base(x) = SP) THEN "computes with a variable without a value"
     ELSE IF x.m \in {"bl", "jal"} /\ At(x.t) # {} /\ def # "yes"
             /\ \E g \in At(x.t) : w \in {Args[i] : i \in 1..(IF Fns[g].kind = "sys" THEN 1 ELSE Fns[g].np)} THEN "an argument register holds no defined value"
     ELSE IF x.m \in {"svc", "ecall"} /\ w = (IF Arm THEN "r7" ELSE "a7") /\ def # "yes" THEN "no system call number"
     ELSE "")
  ELSE IF IsSlot THEN
    (IF Base(x) = SP /\ x.m \in Loads /\ x.i = sl /\ sl # 0 /\ def # "yes" /\ SP \notin Writes(x) THEN "reads a frame slot never stored to" ELSE "")
  ELSE
    LET a == sp + x.i  os == Offset(x, SP)  og == Offset(x, GP) IN
    IF x.c # "al" /\ ~fl.set THEN "depends on flags no comparison set"
    ELSE IF GP \in Writes(x) /\ F.kind # "start" THEN "alters the globals base"
    ELSE IF SP \in Writes(x) /\ ~(x.m \in {"add", "sub"} /\ x.o = <<SP, SP, Temp>> /\ k # None) /\ ~(F.kind = "start" /\ x.m = "addi" /\ x.o = <<SP, GP>>) THEN "alters the stack pointer"
    ELSE IF Base(x) = SP /\ x.o[1] = LR /\ x.m \in Stores THEN (IF a >= 0 \/ (lr # Caller) THEN "saves no return address" ELSE "")
    ELSE IF Base(x) = SP /\ x.o[1] = LR THEN (IF a # ral THEN "restores the return address from elsewhere" ELSE "")
    ELSE IF Base(x) = SP /\ (a < sp \/ a + 4 > 0 \/ (a = ral /\ ~Nothing(x))) THEN "accesses the stack outside the frame"
    ELSE IF Base(x) = GP /\ (x.i < 0 \/ x.i + 4 > G) THEN "accesses globals outside their area"
    ELSE IF os # None /\ SP \notin Writes(x) /\ F.kind # "start" /\ (os < 0 \/ sp + os >= 0) THEN "computes an address outside the frame"
    ELSE IF og # None /\ F.kind # "start" /\ (og < 0 \/ og >= G) THEN "computes an address outside the globals"
    ELSE IF x.m \in Stores /\ x.o[1] = Temp /\ AddrIndex(k) # 0 /\ At(AddrIndex(k)) = {} THEN "stores a code address that is no function"
    ELSE IF x.m \in {"bl", "jal"} /\ LR \in (IF x.m = "bl" THEN {LR} ELSE Range(x.o)) /\ At(x.t) = {} /\ ~(F.kind = "start" /\ InF(x.t)) THEN "calls what is no function"
    ELSE IF (x.m \in {"b"} \cup CondBranch \/ (x.m = "jal" /\ x.o[1] = "zero")) /\ ~InF(x.t) /\ ~(F.kind = "start" /\ At(x.t) # {}) THEN "branches out of the function"
    ELSE IF x.m = "jalr" /\ x.o = <<"zero", "t0">> /\ ~InF(AddrIndex(k)) THEN "branches out of the function"
    ELSE IF (x.m = "blx" /\ x.o = <<"lr">>) \/ (x.m = "jalr" /\ x.o = <<"zero", "ra">>) \/ (x.m = "mov" /\ x.o = <<"pc", "lr">>) THEN
      (IF F.kind = "start" \/ lr # Caller THEN "returns elsewhere" ELSE IF sp # 0 THEN "returns with another stack pointer" ELSE "")
    ELSE IF "pc" \in Writes(x) THEN "branches in an unknown way"
    ELSE IF F.kind = "start" /\ x.m \in {"b", "jal"} /\ At(x.t) # {} /\ (lr < 0 \/ ~InF(lr)) THEN "enters main without a return address"
    ELSE ""

Goto(t) == pc' = t /\ k' = None /\ fl' = Unset /\ UNCHANGED <<p, f, w, sl, def, sp, lr, ral>>
Skip == pc' = pc + 1 /\ UNCHANGED <<p, f, w, sl, def, sp, lr, ral, k, fl>>
Returns(x) == (x.m = "blx" /\ x.o = <<"lr">>) \/ (x.m = "jalr" /\ x.o = <<"zero", "ra">>) \/ (x.m = "mov" /\ x.o = <<"pc", "lr">>)
Do(x) ==
  IF Returns(x) \/ (F.kind = "start" /\ x.m \in {"svc", "ecall"}) THEN pc' = 0 /\ UNCHANGED <<p, f, w, sl, def, sp, lr, ral, k, fl>>
  ELSE IF x.m \in {"b"} \/ (x.m = "jal" /\ x.o[1] = "zero") THEN
    (IF F.kind = "start" /\ At(x.t) # {} THEN       \* main runs and returns
       /\ pc' = lr /\ def' = Yes(w = Args[1]) /\ k' = None /\ fl' = Unset /\ UNCHANGED <<p, f, w, sl, sp, lr, ral>>
     ELSE Goto(x.t))
  ELSE IF x.m \in CondBranch THEN Goto(x.t) \/ Skip
  ELSE IF x.m = "jalr" /\ x.o[1] = "zero" THEN Goto(AddrIndex(k))
  ELSE IF x.m \in {"bl", "jal"} THEN
    (IF At(x.t) = {} THEN pc' = x.t /\ lr' = pc + 1 /\ k' = None /\ fl' = Unset /\ UNCHANGED <<p, f, w, sl, def, sp, ral>>
     ELSE LET g == CHOOSE g \in At(x.t) : TRUE IN AfterCall(Fns[g].np, Fns[g].void))
  ELSE IF x.m \in {"blx", "jalr"} THEN AfterCall(0, FALSE)
  ELSE
    LET ws == Writes(x) IN
    /\ pc' = pc + 1 /\ UNCHANGED <<p, f, w, sl>>
    /\ def' = (IF IsReg THEN (IF w \in ws /\ ~Copy(x) THEN (IF Nothing(x) THEN "unset" ELSE "yes")
                                 ELSE IF x.m \in {"svc", "ecall"} /\ w = Args[1] THEN "yes" ELSE def)
               ELSE IF IsSlot THEN (IF x.m \in {"str", "sw"} /\ Base(x) = SP /\ x.i = sl THEN "yes" ELSE def) ELSE def)
    /\ sp' = (IF ~Stack THEN sp ELSE IF x.m = "push" THEN sp - 4 * Len(x.o) ELSE IF x.m = "pop" THEN sp + 4 * Len(x.o)
              ELSE IF SP \in ws /\ x.m = "sub" THEN sp - k ELSE IF SP \in ws /\ x.m = "add" THEN sp + k ELSE sp)
    /\ lr' = (IF Stack /\ LR \in ws THEN Caller ELSE lr)       \* from its slot, see Wrong
    /\ ral' = (IF Stack /\ Base(x) = SP /\ x.m \in Stores /\ x.o[1] = LR THEN sp + x.i ELSE ral)
    /\ k' = Const(x)
    /\ IF x.m \in Compare \/ x.s THEN \E q \in Outcomes : fl' = Set(q) ELSE UNCHANGED fl
Running == pc > 0 /\ pc <= Len0
Next ==
  /\ Running
  /\ LET x == X  e == Wrong(x) IN
     IF e # "" THEN /\ PrintT(ToJson([p |-> p, f |-> f, pc |-> pc, w |-> w, sl |-> sl, e |-> e]))
                    /\ pc' = 0 /\ UNCHANGED <<p, f, w, sl, def, sp, lr, ral, k, fl>>
     ELSE IF x.c # "al" /\ ~Holds(x.c, fl) THEN Skip
     ELSE Do(x)
Spec == Init /\ [][Next]_vars
=============================================================================
