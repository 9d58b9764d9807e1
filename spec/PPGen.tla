------------------------------- MODULE PPGen -------------------------------
(* All well-nested sequences of directives up to a given length, to be put in  *)
(* between text lines.  `open' holds, per open conditional, whether #else was  *)
(* seen.                                                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES h, open
Simple == {"define", "undef"}
Starts == {"if0", "if1", "ifdef", "ifndef"}
Elifs == {"elif0", "elif1", "elifA"}
Put(x) == h' = Append(h, x)
Room == Len(h) + Len(open)
Next ==
  \/ /\ Room < Depth
     /\ \E x \in Simple : (IF h = <<>> THEN TRUE ELSE h[Len(h)] \notin Simple) /\ Put(x)
     /\ UNCHANGED open
  \/ /\ Room + 2 <= Depth
     /\ \E x \in Starts : Put(x)
     /\ open' = Append(open, FALSE)
  \/ /\ Room < Depth
     /\ open # <<>> /\ ~open[Len(open)]
     /\ \/ (\E x \in Elifs : Put(x)) /\ UNCHANGED open
        \/ Put("else") /\ open' = [open EXCEPT ![Len(open)] = TRUE]
  \/ /\ open # <<>> /\ Put("endif")
     /\ open' = SubSeq(open, 1, Len(open) - 1)
Init == h = <<>> /\ open = <<>>
\* a complete history that ends with a conditional
Emit == (open = <<>> /\ h # <<>> /\ h[Len(h)] = "endif") => PrintT(ToJson(h))
Spec == Init /\ [][Next]_<<h, open>>
=============================================================================
