-------------------------------- MODULE Heap --------------------------------
(* The contract of malloc, calloc and free for every call history.            *)
(* A state is the set of live blocks with the fill seed of their contents and *)
(* the set of addresses that were freed and not handed out again.             *)
(*                                                                            *)
(* HeapGen.cfg explores histories on its own and prints each; HeapTrace.cfg   *)
(* checks recorded histories of the real library: a recorded call is          *)
(* accepted only if an action of this specification explains it.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Depth,          \* length of generated histories
         Sizes,          \* requests of generated histories
         Slots           \* blocks a generated history can hold

VARIABLES blocks,        \* slot -> [a, n] or <<>>
          freed,         \* addresses freed and not handed out since
          dead,          \* the program was aborted
          l, pid, hist

vars == <<blocks, freed, dead, l, pid, hist>>
Live == {s \in DOMAIN blocks : blocks[s] # <<>>}
Apart(a, n, b, m) == a + n <= b \/ b + m <= a
\* a block handed out must not touch any live block
Fresh(a, n) == a > 0 /\ \A s \in Live : Apart(a, n, blocks[s].a, blocks[s].n)

\* the block is put into slot s, whose previous contents the program forgot
Alloc(s, n, a) ==
  /\ IF n <= 0 THEN a = 0 /\ UNCHANGED <<blocks, freed>>
     ELSE /\ Fresh(a, n)
          /\ blocks' = [blocks EXCEPT ![s] = [a |-> a, n |-> n]]
          /\ freed' = {x \in freed : x # a}
  /\ UNCHANGED dead
Malloc(s, n, a) == Alloc(s, n, a)
Calloc(s, k, n, a, nonzero) == nonzero = 0 /\ Alloc(s, k * n, a)
Release(s) ==
  /\ s \in Live
  /\ freed' = freed \cup {blocks[s].a}
  /\ blocks' = [blocks EXCEPT ![s] = <<>>] /\ UNCHANGED dead
FreeNull == UNCHANGED <<blocks, freed, dead>>
\* freeing what is already free is detected and aborts the program
DoubleFree(a) == a \in freed /\ dead' = TRUE /\ UNCHANGED <<blocks, freed>>
\* every live block still holds what was written to it
Intact(s, bad) == s \in Live /\ bad = 0 /\ UNCHANGED <<blocks, freed, dead>>

Disjoint == \A s, t \in Live : s # t => Apart(blocks[s].a, blocks[s].n, blocks[t].a, blocks[t].n)
NotBoth == \A s \in Live : blocks[s].a \notin freed

-----------------------------------------------------------------------------
(* histories *)
Emit == IOEnv.EMIT = "1"
Page == 4096
Pages(n) == (n + 12 + Page - 1) \div Page
\* any placement that satisfies the contract will do to explore histories
Place(n) == CHOOSE a \in {1 + k * Page : k \in 0..(4 * Depth)} :
              /\ Fresh(a, Pages(n) * Page)
              /\ \A b \in {1 + k * Page : k \in 0..(4 * Depth)} : b < a => ~Fresh(b, Pages(n) * Page)
GInit == blocks = [s \in 1..Slots |-> <<>>] /\ freed = {} /\ dead = FALSE /\ l = 0 /\ pid = 0 /\ hist = <<>>
Empty == {s \in 1..Slots : blocks[s] = <<>>}
Lowest == CHOOSE s \in Empty : \A t \in Empty : s <= t
Say(op, s, n) == hist' = Append(hist, [op |-> op, s |-> s, n |-> n])
GNext ==
  /\ ~dead /\ l < Depth /\ l' = l + 1 /\ pid' = pid
  /\ \/ /\ Empty # {} /\ \E n \in Sizes, op \in {"m", "c"} : Malloc(Lowest, n, IF n <= 0 THEN 0 ELSE Place(n)) /\ Say(op, Lowest, n)
     \/ \E s \in Live : Release(s) /\ Say("f", s, 0)
     \/ l + 1 = Depth /\ \E a \in freed : DoubleFree(a) /\ Say("d", a, 0)
GSpec == GInit /\ [][GNext]_vars
GReport == (Emit /\ l = Depth) => PrintT(ToJson([h |-> hist]))

-----------------------------------------------------------------------------
(* recorded histories: IOEnv.TRACES, a sequence of sequences of events *)
Traces == JsonDeserialize(IOEnv.TRACES)
E == Traces[pid][l]
TInit == /\ pid \in 1..Len(Traces) /\ blocks = [s \in 1..16 |-> <<>>] /\ freed = {} /\ dead = FALSE
         /\ l = 1 /\ hist = <<>>
More == l <= Len(Traces[pid]) /\ hist = <<>>
Ev(x) == More /\ E.op = x /\ l' = l + 1 /\ UNCHANGED <<pid, hist>>
TMalloc == Ev("m") /\ ~dead /\ Malloc(E.s, E.n, E.a)
TCalloc == Ev("c") /\ ~dead /\ Calloc(E.s, E.k, E.n, E.a, E.nz)
TRelease == Ev("f") /\ ~dead /\ Release(E.s)
TFreeNull == Ev("z") /\ ~dead /\ FreeNull
TDouble == Ev("d") /\ ~dead /\ DoubleFree(E.a)
TIntact == Ev("i") /\ ~dead /\ Intact(E.s, E.bad)
\* the program ends normally, or was aborted with a failure status
TExit == Ev("exit") /\ (IF dead THEN E.rc # 0 /\ E.msg = 1 ELSE E.rc = 0) /\ UNCHANGED <<blocks, freed, dead>>
Explained == TMalloc \/ TCalloc \/ TRelease \/ TFreeNull \/ TDouble \/ TIntact \/ TExit
Reject == /\ More /\ ~ENABLED Explained
          /\ PrintT(ToJson([t |-> pid, l |-> l]))
          /\ hist' = <<"rejected">> /\ UNCHANGED <<blocks, freed, dead, l, pid>>
TNext == Explained \/ Reject
TSpec == TInit /\ [][TNext]_vars
=============================================================================
