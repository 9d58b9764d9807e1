------------------------------- MODULE FileIO -------------------------------
(* fopen, fputc, fgetc, fgets and fclose for every history: a state is the    *)
(* bytes of every file and, for every open stream, its file, direction and    *)
(* position.                                                                  *)
(* FileIOGen.cfg explores histories and prints them; FileIO.cfg validates     *)
(* recorded histories of the real library, event by event.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Depth

VARIABLES files,         \* name -> <<>> (absent) or <<bytes>>
          strm,          \* slot -> <<>> (closed) or <<[f, m, p]>>
          l, pid, hist
vars == <<files, strm, l, pid, hist>>
keep == UNCHANGED <<pid, hist>>

Open(s) == strm[s] # <<>>
St(s) == strm[s][1]
Bytes(f) == files[f][1]
Left(s) == LET b == Bytes(St(s).f) IN SubSeq(b, St(s).p + 1, Len(b))
Min(a, b) == IF a < b THEN a ELSE b

OpenR(s, f) == /\ ~Open(s) /\ files[f] # <<>>
               /\ strm' = [strm EXCEPT ![s] = <<[f |-> f, m |-> "r", p |-> 0]>>] /\ UNCHANGED files
OpenW(s, f) == /\ ~Open(s)
               /\ strm' = [strm EXCEPT ![s] = <<[f |-> f, m |-> "w", p |-> 0]>>]
               /\ files' = [files EXCEPT ![f] = <<<<>>>>]
Close(s) == Open(s) /\ strm' = [strm EXCEPT ![s] = <<>>] /\ UNCHANGED files
\* writing puts the byte at the position and moves on; the result is the byte
Put(s, c, r) == /\ Open(s) /\ St(s).m = "w" /\ r = c
                /\ files' = [files EXCEPT ![St(s).f] = <<Append(Bytes(St(s).f), c)>>]
                /\ strm' = [strm EXCEPT ![s][1].p = @ + 1]
\* reading yields the bytes in order, then the end of the file
Get(s, r) == /\ Open(s) /\ St(s).m = "r" /\ UNCHANGED files
             /\ IF Left(s) = <<>> THEN r = -1 /\ UNCHANGED strm
                ELSE r = Head(Left(s)) /\ strm' = [strm EXCEPT ![s][1].p = @ + 1]
\* the bytes fgets takes from b when it may store n - 1: up to a newline
LineLen(b, n) == LET nl == {i \in 1..Min(Len(b), n - 1) : b[i] = 10}
                 IN IF nl = {} THEN Min(Len(b), n - 1) ELSE CHOOSE i \in nl : \A j \in nl : i <= j
\* buf: the n bytes of the buffer afterwards (238 before), other: changed bytes outside
Gets(s, n, r, buf, other) ==
  /\ Open(s) /\ St(s).m = "r" /\ UNCHANGED files /\ other = 0
  /\ LET k == LineLen(Left(s), n) IN
     IF n > 1 /\ Left(s) = <<>>
     THEN r = 0 /\ UNCHANGED strm /\ \A i \in 1..Len(buf) : buf[i] = 238
     ELSE /\ r = 1 /\ Len(buf) = n
          /\ SubSeq(buf, 1, k + 1) = Append(SubSeq(Left(s), 1, k), 0)
          /\ strm' = [strm EXCEPT ![s][1].p = @ + k]
Same == UNCHANGED <<files, strm>>
\* a file's contents as the system sees them once the program has ended
Final(f, b) == files[f] # <<>> /\ b = Bytes(f) /\ Same

PosOk == \A s \in DOMAIN strm : Open(s) => files[St(s).f] # <<>> /\ St(s).p <= Len(Bytes(St(s).f))
-----------------------------------------------------------------------------
(* histories *)
Names == {"a", "b"}
Seed == [x \in Names |-> IF x = "a" THEN <<<<97, 10, 0, 255, 98>>>> ELSE <<>>]
GInit == files = Seed /\ strm = [s \in 1..2 |-> <<>>] /\ l = 0 /\ pid = 0 /\ hist = <<>>
Writing(f) == \E s \in 1..2 : Open(s) /\ St(s).f = f /\ St(s).m = "w"
Say(op, s, f, n) == hist' = Append(hist, [op |-> op, s |-> s, f |-> f, n |-> n])
Free == {s \in 1..2 : ~Open(s)}
GNext ==
  /\ l < Depth /\ l' = l + 1 /\ pid' = pid
  /\ \/ \E s \in 1..2, f \in Names :
          /\ ~Writing(f) /\ ~Open(s) /\ (s = 1 \/ Open(1))
          /\ \/ OpenR(s, f) /\ Say("r", s, f, 0)
             \/ files[f] = <<>> /\ OpenW(s, f) /\ Say("w", s, f, 0)
     \/ \E s \in 1..2 : Close(s) /\ Say("c", s, "", 0)
     \/ \E s \in 1..2, c \in {0, 10, 255} : Put(s, c, c) /\ Say("p", s, "", c)
     \/ \E s \in 1..2 : Open(s) /\ St(s).m = "r" /\ Get(s, IF Left(s) = <<>> THEN -1 ELSE Head(Left(s))) /\ Say("g", s, "", 0)
     \/ \E s \in 1..2, n \in {1, 2, 4} :
          /\ Open(s) /\ St(s).m = "r"
          /\ LET k == LineLen(Left(s), n) e == n > 1 /\ Left(s) = <<>> IN
             Gets(s, n, IF e THEN 0 ELSE 1,
                  [i \in 1..n |-> IF e \/ i > k + 1 THEN 238 ELSE IF i = k + 1 THEN 0 ELSE Left(s)[i]], 0)
          /\ Say("s", s, "", n)
GSpec == GInit /\ [][GNext]_vars
GReport == (l = Depth) => PrintT(ToJson([h |-> hist]))
-----------------------------------------------------------------------------
(* recorded histories; stream 9 is the standard input *)
Traces == JsonDeserialize(IOEnv.TRACES)
E == Traces[pid].ev[l]
AllNames == DOMAIN Traces[pid].files
TInit == /\ pid \in 1..Len(Traces) /\ l = 1 /\ hist = <<>>
         /\ files = [x \in AllNames |-> Traces[pid].files[x]]
         /\ strm = [s \in 1..9 |-> IF s = 9 THEN <<[f |-> "stdin", m |-> "r", p |-> 0]>> ELSE <<>>]
More == l <= Len(Traces[pid].ev) /\ hist = <<>>
Ev(x) == More /\ E.op = x /\ l' = l + 1 /\ keep
Explained ==
  \/ Ev("r") /\ E.r = 1 /\ OpenR(E.s, E.f)
  \/ Ev("w") /\ E.r = 1 /\ OpenW(E.s, E.f)
  \/ Ev("c") /\ E.r = 0 /\ Close(E.s)
  \/ Ev("p") /\ Put(E.s, E.n, E.r)
  \/ Ev("g") /\ Get(E.s, E.r)
  \/ Ev("s") /\ Gets(E.s, E.n, E.r, E.buf, E.other)
  \/ Ev("final") /\ Final(E.f, E.b)
  \/ Ev("exit") /\ E.r = 0 /\ Same
Reject == /\ More /\ ~ENABLED Explained
          /\ PrintT(ToJson([t |-> pid, l |-> l]))
          /\ hist' = <<"rejected">> /\ UNCHANGED <<files, strm, l, pid>>
TNext == Explained \/ Reject
TSpec == TInit /\ [][TNext]_vars
=============================================================================
