------------------------------ MODULE Include -------------------------------
(* Inclusion.  A file is a sequence of lines, a line is text or a directive     *)
(* [inc |-> path] whose path is relative to the directory of the file it stands *)
(* in.  Reading a file yields its text with every directive replaced by what    *)
(* the named file yields.  The reader is a stack of (file, next line).          *)
(* Generation (GSpec): all trees of up to Files files: which file includes each,*)
(* in which directory relative to it, at which place.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Files
Hops == {"same", "sub", "up", "deep", "side"}       \* directory of a file relative to the one that includes it
Places == {"start", "middle", "end"}
VARIABLES pid, stack, out
vars == <<pid, stack, out>>

GInit == pid = 0 /\ stack = <<>> /\ out = <<>>
GNext == /\ Len(out) < Files - 1 /\ UNCHANGED <<pid, stack>>
         /\ \E p \in 0..Len(out), h \in Hops, w \in Places : out' = Append(out, [par |-> p, hop |-> h, place |-> w])
GReport == Len(out) = Files - 1 => PrintT(ToJson([tree |-> out]))
GSpec == GInit /\ [][GNext]_vars
-----------------------------------------------------------------------------
Sources == JsonDeserialize(IOEnv.SOURCES)     \* each [files |-> <<[path, lines]>>]; file 1 is the one compiled
S == Sources[pid].files
\* paths are sequences of components; ".." leaves a directory
RECURSIVE Norm(_, _, _)
Norm(p, i, acc) == IF i > Len(p) THEN acc
                   ELSE IF p[i] = "." THEN Norm(p, i + 1, acc)
                   ELSE IF p[i] = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".." THEN Norm(p, i + 1, SubSeq(acc, 1, Len(acc) - 1))
                   ELSE Norm(p, i + 1, Append(acc, p[i]))
Dir(p) == SubSeq(p, 1, Len(p) - 1)
Named(p) == {k \in 1..Len(S) : S[k].path = p}
Target(f, rel) == Named(Norm(Dir(S[f].path) \o rel, 1, <<>>))

TInit == pid \in 1..Len(Sources) /\ stack = <<[f |-> 1, l |-> 1]>> /\ out = <<>>
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Line == S[Top.f].lines[Top.l]
After == Append(Below, [Top EXCEPT !.l = @ + 1])
HasLine == stack # <<>> /\ Top.l <= Len(S[Top.f].lines)
IsInc(x) == "inc" \in DOMAIN x
Text == HasLine /\ ~IsInc(Line) /\ out' = Append(out, Line.id) /\ stack' = After /\ UNCHANGED pid
Enter == /\ HasLine /\ IsInc(Line)
         /\ LET g == Target(Top.f, Line.inc) IN IF g = {} THEN stack' = <<>> /\ out' = <<-1>>    \* no such file: the source is in error
                                                 ELSE stack' = Append(After, [f |-> CHOOSE x \in g : TRUE, l |-> 1]) /\ UNCHANGED out
         /\ UNCHANGED pid
Leave == stack # <<>> /\ ~HasLine /\ stack' = Below /\ UNCHANGED <<pid, out>>
TNext == Text \/ Enter \/ Leave
TSpec == TInit /\ [][TNext]_vars
Report == stack = <<>> => PrintT(ToJson([p |-> pid, text |-> out]))
OneFile == \A p \in {S[k].path : k \in 1..Len(S)} : \E k \in Named(p) : Named(p) = {k}
Bounded == Len(stack) <= Len(S)          \* trees: no file is being read twice at a time
=============================================================================
