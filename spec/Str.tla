-------------------------------- MODULE Str ---------------------------------
(* The string and memory functions on one array of bytes.  Every call is an   *)
(* action from the array before to the array after the call with the result   *)
(* C prescribes; nothing outside the destination range changes.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES mem,           \* bytes 0..255, position p of the program is mem[p + 1]
          l, pid, ok
vars == <<mem, l, pid, ok>>

Traces == JsonDeserialize(IOEnv.TRACES)
E == Traces[pid].ev[l]
At(p) == mem[p + 1]
Size == Len(mem)

\* length of the string at p; -1 when it does not end inside the array
RECURSIVE StrLen(_, _)
StrLen(p, k) == IF p + k >= Size THEN -1 ELSE IF At(p + k) = 0 THEN k ELSE StrLen(p, k + 1)
\* strnlen
RECURSIVE NLen(_, _, _)
NLen(p, k, n) == IF k = n \/ At(p + k) = 0 THEN k ELSE NLen(p, k + 1, n)
\* sign of the comparison of at most n characters as unsigned values
RECURSIVE Cmp(_, _, _)
Cmp(a, b, n) == IF n = 0 THEN 0
                ELSE IF At(a) # At(b) THEN IF At(a) < At(b) THEN -1 ELSE 1
                ELSE IF At(a) = 0 THEN 0 ELSE Cmp(a + 1, b + 1, n - 1)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Written(d, n, f(_)) == [i \in 1..Size |-> IF i - 1 >= d /\ i - 1 < d + n THEN f(i - 1 - d) ELSE mem[i]]
Apart(a, n, b, m) == a + n <= b \/ b + m <= a

Poke(p, bs) == mem' = [i \in 1..Size |-> IF i - 1 >= p /\ i - 1 < p + Len(bs) THEN bs[i - p] ELSE mem[i]]
Strlen(p, r) == StrLen(p, 0) >= 0 /\ r = StrLen(p, 0) /\ UNCHANGED mem
Strcmp(a, b, r) == Sign(r) = Cmp(a, b, Size) /\ UNCHANGED mem
Strncmp(a, b, n, r) == Sign(r) = Cmp(a, b, n) /\ UNCHANGED mem
Strcpy(d, s, r) ==
  LET n == StrLen(s, 0) + 1 IN
  /\ n > 0 /\ d + n <= Size /\ Apart(d, n, s, n) /\ r = d
  /\ mem' = Written(d, n, LAMBDA i : At(s + i))
Strncpy(d, s, n, r) ==
  LET k == NLen(s, 0, n) IN
  /\ d + n <= Size /\ r = d
  /\ mem' = Written(d, n, LAMBDA i : IF i < k THEN At(s + i) ELSE 0)
Memcpy(d, s, n, r) ==
  /\ d + n <= Size /\ Apart(d, n, s, n) /\ r = d
  /\ mem' = Written(d, n, LAMBDA i : At(s + i))
\* the program shows the array
Show(bs) == bs = mem /\ UNCHANGED mem

Init == pid \in 1..Len(Traces) /\ mem = Traces[pid].mem /\ l = 1 /\ ok = TRUE
More == ok /\ l <= Len(Traces[pid].ev)
Ev(x) == More /\ E.op = x /\ l' = l + 1 /\ UNCHANGED <<pid, ok>>
Explained ==
  \/ Ev("poke") /\ Poke(E.p, E.bs)
  \/ Ev("strlen") /\ Strlen(E.p, E.r)
  \/ Ev("strcmp") /\ Strcmp(E.a, E.b, E.r)
  \/ Ev("strncmp") /\ Strncmp(E.a, E.b, E.n, E.r)
  \/ Ev("strcpy") /\ Strcpy(E.d, E.s, E.r)
  \/ Ev("strncpy") /\ Strncpy(E.d, E.s, E.n, E.r)
  \/ Ev("memcpy") /\ Memcpy(E.d, E.s, E.n, E.r)
  \/ Ev("show") /\ Show(E.bs)
  \/ Ev("exit") /\ E.rc = 0 /\ UNCHANGED mem
Reject == /\ More /\ ~ENABLED Explained /\ PrintT(ToJson([t |-> pid, l |-> l]))
          /\ ok' = FALSE /\ UNCHANGED <<mem, l, pid>>
Next == Explained \/ Reject
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in 1..Size : mem[i] \in 0..255
=============================================================================
