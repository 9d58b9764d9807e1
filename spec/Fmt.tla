-------------------------------- MODULE Fmt ---------------------------------
(* Formatted output: the text a format and its arguments prescribe, and what  *)
(* printf, sprintf and snprintf do with it.  Characters are numbers.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Rep(c, n) == IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> c]
D(n) == IF n < 10 THEN 48 + n ELSE 87 + n          \* digit n

\* magnitude of v in decimal; v may be the least integer
RECURSIVE Dec(_)
Dec(v) == IF v < 0 THEN LET d == (10 - (v % 10)) % 10 q == -((v + d) \div 10)
                        IN (IF q = 0 THEN <<>> ELSE Dec(q)) \o <<D(d)>>
          ELSE (IF v < 10 THEN <<>> ELSE Dec(v \div 10)) \o <<D(v % 10)>>
\* digits of the 32 bits of v, taken as unsigned
RECURSIVE Power(_, _)
Power(b, i) == IF i = 0 THEN 1 ELSE b * Power(b, i - 1)
HexAll(v) == [i \in 1..8 |-> D((v \div Power(16, 8 - i)) % 16)]
OctAll(v) == [i \in 1..11 |-> IF i = 1 THEN D((v \div Power(8, 10)) % 4) ELSE D((v \div Power(8, 11 - i)) % 8)]
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ Head(s) = 48 THEN Strip(Tail(s)) ELSE s

\* pre: sign or prefix; the field is w wide, filled with zeros after pre or blanks before it
Field(pre, ds, w, zero) ==
  LET n == w - Len(pre) - Len(ds) IN
  IF zero THEN pre \o Rep(48, n) \o ds ELSE Rep(32, n) \o pre \o ds

Conv(c, v, alt, zero, w) ==
  CASE c = 100 -> Field(IF v < 0 THEN <<45>> ELSE <<>>, Dec(v), w, zero)
    [] c = 120 -> Field(IF alt /\ v # 0 THEN <<48, 120>> ELSE <<>>, Strip(HexAll(v)), w, zero)
    [] c = 111 -> LET ds == Strip(OctAll(v))
                      f == IF zero THEN Rep(48, w - Len(ds)) \o ds ELSE ds
                      g == IF alt /\ Head(f) # 48 THEN <<48>> \o f ELSE f
                  IN Field(<<>>, g, w, FALSE)
    [] c = 99 -> <<v % 256>>

IsDigit(c) == c >= 48 /\ c <= 57
\* a directive starts at i (after %): <<next position, alt, zero, width>>
RECURSIVE Width(_, _, _)
Width(f, i, w) == IF i <= Len(f) /\ IsDigit(f[i]) THEN Width(f, i + 1, 10 * w + f[i] - 48) ELSE <<i, w>>
Directive(f, i) ==
  LET alt == f[i] = 35
      j == IF alt THEN i + 1 ELSE i
      zero == f[j] = 48
      k == IF zero THEN j + 1 ELSE j
      w == Width(f, k, 0)
  IN <<w[1], alt, zero, w[2]>>

RECURSIVE Text(_, _, _, _)
Text(f, i, as, a) ==
  IF i > Len(f) THEN <<>>
  ELSE IF f[i] # 37 THEN <<f[i]>> \o Text(f, i + 1, as, a)
  ELSE LET d == Directive(f, i + 1) c == f[d[1]] IN
       IF c = 37 THEN <<37>> \o Text(f, d[1] + 1, as, a)
       ELSE IF c = 115 THEN as[a].s \o Text(f, d[1] + 1, as, a + 1)
       ELSE Conv(c, as[a].v, d[2], d[3], d[4]) \o Text(f, d[1] + 1, as, a + 1)
Of(e) == Text(e.f, 1, e.as, 1)
Min(a, b) == IF a < b THEN a ELSE b

\* what was written to the buffer, how many other bytes of it changed, the result
Sprintf(e) == LET t == Of(e) IN e.r = Len(t) /\ e.out = t \o <<0>> /\ e.other = 0
Snprintf(e) ==
  LET t == Of(e) k == Min(e.n - 1, Len(t)) IN
  IF e.n = 0 THEN e.r = 0 /\ e.out = <<>> /\ e.other = 0
  ELSE e.r = k /\ e.out = SubSeq(t, 1, k) \o <<0>> /\ e.other = 0
Printf(e) == LET t == Of(e) IN e.r = Len(t) /\ e.out = t

VARIABLES pid, l, ok
Traces == JsonDeserialize(IOEnv.TRACES)
E == Traces[pid][l]
Init == pid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
More == ok /\ l <= Len(Traces[pid])
Accept == CASE E.op = "sprintf" -> Sprintf(E)
            [] E.op = "snprintf" -> Snprintf(E)
            [] E.op = "printf" -> Printf(E)
            [] OTHER -> FALSE
Explained == More /\ Accept /\ l' = l + 1 /\ UNCHANGED <<pid, ok>>
Reject == /\ More /\ ~Accept
          /\ PrintT(ToJson([t |-> pid, l |-> l, want |-> IF "f" \in DOMAIN E THEN Of(E) ELSE <<>>]))
          /\ l' = l + 1 /\ UNCHANGED <<pid, ok>>
Next == Explained \/ Reject
Spec == Init /\ [][Next]_<<pid, l, ok>>
=============================================================================
