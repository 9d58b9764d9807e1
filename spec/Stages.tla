------------------------------- MODULE Stages -------------------------------
(* The compiler as a function.  What Compile leaves in the output file depends  *)
(* on the program and the code-generation options only: not on the stage of the *)
(* compiler that runs, on what the output file held, on the directory, the      *)
(* environment, the order of the arguments or the request of an IR dump.        *)
(*   memo   what each program (with its options) is known to compile to         *)
(*   disk   what each output path holds                                         *)
(* Generation (GSpec): histories of one session, each program passing through   *)
(* every stage.  Validation (TSpec): recorded sessions of the real compilers.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Progs, Extra          \* programs of a session; compilations beyond the required ones
StageNo == 0..2
Slots == {1, 2}
Dirs == {"here", "there", "rel", "link"}
Envs == {"plain", "empty", "big", "dirty"}
Orders == {"first", "last", "split", "noout"}
Junk == {"none", "short", "long", "same"}
VARIABLES memo, disk, todo, extra, hist, pid, l
vars == <<memo, disk, todo, extra, hist, pid, l>>

Rejected == "rejected"
Known(k) == k \in DOMAIN memo
\* one compilation of k into slot s yields d
Compile(k, s, d) ==
  /\ Known(k) => memo[k] = d
  /\ memo' = IF Known(k) THEN memo ELSE memo @@ (k :> d)
  /\ disk' = IF d = Rejected THEN [disk EXCEPT ![s] = ""] ELSE [disk EXCEPT ![s] = d]
\* what a compilation prints is a function of the program, too
Says(q, d) ==
  /\ Known(q) => memo[q] = d
  /\ memo' = IF Known(q) THEN memo ELSE memo @@ (q :> d)
  /\ UNCHANGED disk
Put(s, d) == disk' = [disk EXCEPT ![s] = d] /\ UNCHANGED memo

\* every output file holds what some program compiles to, or what was put there
Sound == \A s \in Slots : disk[s] \in {memo[k] : k \in DOMAIN memo} \cup {"", "junk"}
-----------------------------------------------------------------------------
\* in a generated session a program compiles to its own name
GInit == memo = <<>> /\ disk = [s \in Slots |-> ""] /\ todo = Progs \X StageNo /\ extra = Extra /\ hist = <<>> /\ pid = 0 /\ l = 0
Name(p) == <<"a", "b", "c", "d", "e", "f">>[p]
Step(p, g) ==
  \* circumstances drawn at random: none of them may matter
  \E c \in {[s |-> RandomElement(Slots), dir |-> RandomElement(Dirs), env |-> RandomElement(Envs), o |-> RandomElement(Orders),
             dump |-> RandomElement(BOOLEAN), junk |-> RandomElement(Junk)]} :
    /\ Compile(p, c.s, Name(p))
    /\ hist' = Append(hist, c @@ [p |-> p, g |-> g])
Required == \E t \in todo : Step(t[1], t[2]) /\ todo' = todo \ {t} /\ UNCHANGED extra
Again == extra > 0 /\ todo # {} /\ extra' = extra - 1 /\ UNCHANGED todo /\ \E p \in Progs, g \in StageNo : Step(p, g)
Finish == todo = {} /\ l = 0 /\ l' = 1 /\ PrintT(ToJson([h |-> hist])) /\ UNCHANGED <<memo, disk, todo, extra, hist>>
GNext == ((Required \/ Again) /\ UNCHANGED <<pid, l>>) \/ (Finish /\ UNCHANGED pid)
GSpec == GInit /\ [][GNext]_vars
-----------------------------------------------------------------------------
Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[pid]
E == T[l]
\* everything known before a session starts is what its earlier events said
TInit == pid \in 1..Len(Traces) /\ l = 1 /\ memo = <<>> /\ disk = [s \in Slots |-> ""] /\ todo = {} /\ extra = 0 /\ hist = <<>>
More == l <= Len(T) /\ hist = <<>>
Explained ==
  /\ More /\ l' = l + 1
  /\ \/ E.op = "junk" /\ Put(E.s, E.d)
     \/ E.op = "compile" /\ Compile(E.k, E.s, E.d)
     \/ E.op = "says" /\ Says("says " \o E.k, E.d)
     \/ E.op = "disk" /\ (disk[E.s] = "" \/ disk[E.s] = E.d) /\ UNCHANGED <<memo, disk>>
  /\ UNCHANGED <<pid, todo, extra, hist>>
Reject == /\ More /\ ~ENABLED Explained
          /\ PrintT(ToJson([t |-> pid, l |-> l]))
          /\ hist' = <<"rejected">> /\ UNCHANGED <<memo, disk, todo, extra, pid, l>>
TNext == Explained \/ Reject
TSpec == TInit /\ [][TNext]_vars
=============================================================================
