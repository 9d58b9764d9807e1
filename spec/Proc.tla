-------------------------------- MODULE Proc --------------------------------
(* The life of a process: start with argc and argv, nested calls, allocations *)
(* and the three ways to end (main returns, exit from any depth, abort), and  *)
(* the arguments and results of system calls.                                 *)
(* A state is how far the program's script has been executed, how deep the    *)
(* calls are nested, how the process is to end, and the results of the system *)
(* calls made so far.                                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Depth, Values
VARIABLES pc, depth, fate, res, l, pid, hist
vars == <<pc, depth, fate, res, l, pid, hist>>

GV == {0, 1, 255, 256, -1, 300}
\* fate: <<>> while running, afterwards <<status, aborted>>
Running == fate = <<>>
Mod256(v) == v % 256
Enter == Running /\ depth' = depth + 1 /\ UNCHANGED <<fate, res>>
Leave == Running /\ depth > 0 /\ depth' = depth - 1 /\ UNCHANGED <<fate, res>>
Note == Running /\ UNCHANGED <<depth, fate, res>>
Exit(v) == Running /\ fate' = <<Mod256(v), FALSE>> /\ UNCHANGED <<depth, res>>
Abort == Running /\ fate' = <<-1, TRUE>> /\ UNCHANGED <<depth, res>>
Return(v) == Running /\ depth = 0 /\ fate' = <<Mod256(v), FALSE>> /\ UNCHANGED <<depth, res>>
\* what the system sees in the end
Ends(status, msg) == /\ ~Running /\ UNCHANGED <<depth, fate, res>>
                     /\ IF fate[2] THEN status # 0 /\ msg = 1 ELSE status = fate[1] /\ msg = 0
\* a system call: the kernel is given the program's values and its result is kept
Value(a) == IF "ref" \in DOMAIN a THEN res[a.ref] ELSE a.lit
Syscall(want, args, ret) ==
  /\ Running /\ \A i \in 1..Len(want) : args[i] = Value(want[i])
  /\ res' = Append(res, ret) /\ UNCHANGED <<depth, fate>>

Sane == depth >= 0
-----------------------------------------------------------------------------
(* scripts *)
GInit == pc = 1 /\ depth = 0 /\ fate = <<>> /\ res = <<>> /\ l = 0 /\ pid = 0 /\ hist = <<>>
Say(op, n) == hist' = Append(hist, [op |-> op, n |-> n])
GNext ==
  /\ Running /\ l' = l + 1 /\ UNCHANGED <<pid, pc>>
  /\ \/ l < Depth /\ \E o \in {"call", "ptr"} : Enter /\ Say(o, 0)
     \/ l < Depth /\ Leave /\ Say("leave", 0)
     \/ l < Depth /\ Note /\ Say("alloc", 0)
     \/ \E v \in Values : Exit(v) /\ Say("exit", v)
     \/ Abort /\ Say("abort", 0)
     \/ \E v \in Values : Return(v) /\ Say("ret", v)
GSpec == GInit /\ [][GNext]_vars
GReport == ~Running => PrintT(ToJson([h |-> hist]))
-----------------------------------------------------------------------------
(* recorded runs: script and events *)
Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[pid]
E == T.ev[l]
S == T.script[pc]
TInit == pid \in 1..Len(Traces) /\ pc = 1 /\ depth = 0 /\ fate = <<>> /\ res = <<>> /\ l = 1 /\ hist = <<>>
More == l <= Len(T.ev) /\ hist = <<>>
Script(x) == More /\ pc <= Len(T.script) /\ S.op = x /\ E.op = x /\ l' = l + 1 /\ pc' = pc + 1 /\ UNCHANGED <<pid, hist>>
Explained ==
  \/ Script("start") /\ Note /\ l = 1 /\ E.args = S.args
  \/ \E o \in {"call", "ptr"} : Script(o) /\ E.d = depth + 1 /\ Enter
  \/ Script("leave") /\ E.d = depth /\ Leave
  \/ Script("alloc") /\ Note
  \/ Script("exit") /\ Exit(S.n)
  \/ Script("abort") /\ Abort
  \/ Script("ret") /\ Return(S.n)
  \/ Script("sys") /\ E.name = S.name /\ Syscall(S.args, E.args, E.ret)
  \/ More /\ E.op = "end" /\ l' = l + 1 /\ UNCHANGED <<pid, hist, pc>> /\ Ends(E.status, E.msg)
Reject == /\ More /\ ~ENABLED Explained
          /\ PrintT(ToJson([t |-> pid, l |-> l]))
          /\ hist' = <<"rejected">> /\ UNCHANGED <<pc, depth, fate, res, l, pid>>
TNext == Explained \/ Reject
TSpec == TInit /\ [][TNext]_vars
=============================================================================
