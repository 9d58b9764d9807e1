-------------------------------- MODULE CSem --------------------------------
(* The C abstract machine for the subset of C that shecc compiles.            *)
(*                                                                            *)
(* A state is a control stack (what remains to be done), a value stack, the   *)
(* environment of visible declarations, a byte memory that grows with every   *)
(* declaration and shrinks at block exit, and the observable output.  Each    *)
(* syntactic form has its own action.  Where C leaves the order of evaluation *)
(* open, the machine is nondeterministic.  Where C leaves behaviour undefined *)
(* the machine stops with status "undef": such a program says nothing.        *)
(*                                                                            *)
(* Programs come from a JSON file (IOEnv.PROGS): a sequence of records        *)
(*   types : Seq of [k,to,n,pt,f]   k in int,char,bool,void,ptr,arr,struct,fn *)
(*   nodes : Seq of AST nodes, named by index                                 *)
(*   decls : Seq of file-scope declarations in textual order                  *)
(*   strs  : Seq of string literals (bytes without terminator)                *)
EXTENDS Word, TLC, Json, IOUtils, SequencesExt, FiniteSets

CONSTANT Emit            \* TRUE: print one line of JSON per outcome
CONSTANT MaxOut          \* bound on the observable output of one program

Progs == JsonDeserialize(IOEnv.PROGS)

VARIABLES pid,           \* which program runs
          ctl,           \* control stack, next item first
          vs,            \* value stack, top first; a value is <<v, type>> or <<>>
          env,           \* visible block-scope declarations, innermost last
          mem,           \* bytes: 0..255, -1 uninitialised, -2 guard between objects
          out,           \* observable output so far
          st,            \* "run", "done", "undef"
          fuel

vars == <<pid, ctl, vs, env, mem, out, st, fuel>>

P == Progs[pid]
N(n) == P.nodes[n]
T(t) == P.types[t]

INT == 1   CHAR == 2   CHARP == 3   VOID == 4   FNT == 5     \* fixed type ids
FBase == 1000000         \* function designators are addresses above this

-----------------------------------------------------------------------------
(* types *)
RECURSIVE SizeOf(_), SumFields(_, _)
SizeOf(t) == LET y == T(t) IN
  CASE y.k \in {"int", "ptr", "fn"} -> 4
    [] y.k \in {"char", "bool"} -> 1
    [] y.k = "arr" -> y.n * SizeOf(y.to)
    [] y.k = "struct" -> SumFields(y.f, Len(y.f))
    [] OTHER -> 0
SumFields(f, k) == IF k = 0 THEN 0 ELSE SumFields(f, k - 1) + SizeOf(f[k].t)
FieldIx(t, x) == CHOOSE i \in 1..Len(T(t).f) : T(t).f[i].n = x
FieldOff(t, x) == SumFields(T(t).f, FieldIx(t, x) - 1)
FieldT(t, x) == T(t).f[FieldIx(t, x)].t
IsPtr(t) == T(t).k \in {"ptr", "fn"}

\* conversion of a value to the type of the object that receives it
Conv(v, t) == CASE T(t).k = "char" -> v % 256      \* plain char is unsigned
                [] T(t).k = "bool" -> B2I(v # 0)
                [] OTHER -> v

-----------------------------------------------------------------------------
(* memory *)
InMem(a, s) == a >= 1 /\ a + s - 1 <= Len(mem)
Load(a, t) ==
  LET y == T(t) s == SizeOf(t) IN
  IF y.k = "arr" THEN <<a, y.ept>>                      \* decay to a pointer
  ELSE IF ~InMem(a, s) \/ \E i \in 0..(s - 1) : mem[a + i] < 0 THEN <<>>
  ELSE IF y.k = "char" THEN <<mem[a], t>>
  ELSE IF s = 1 THEN <<mem[a], t>>
  ELSE <<FromBytes(mem[a], mem[a + 1], mem[a + 2], mem[a + 3]), t>>
CanStore(a, t) == InMem(a, SizeOf(t)) /\ \A i \in 0..(SizeOf(t) - 1) : mem[a + i] # -2
Put(m, a, t, v) ==
  LET c == Conv(v, t) IN
  IF SizeOf(t) = 1 THEN [m EXCEPT ![a] = c % 256]
  ELSE [m EXCEPT ![a] = Byte(c, 0), ![a + 1] = Byte(c, 1),
                 ![a + 2] = Byte(c, 2), ![a + 3] = Byte(c, 3)]
Fill(n, b) == [i \in 1..n |-> b]

-----------------------------------------------------------------------------
(* file scope *)
\* string literals and zeroed file-scope objects are laid out first
RECURSIVE StrMem(_, _)
StrMem(strs, m) == IF strs = <<>> THEN m
                   ELSE StrMem(Tail(strs), m \o Head(strs) \o <<0, -2>>)

InitFrom(p) ==
  LET q == Progs[p]
      RECURSIVE Lay(_, _, _)
      Lay(i, e, m) ==
        IF i > Len(q.decls) THEN <<e, m>>
        ELSE LET d == q.decls[i] IN
             CASE d.k = "obj" ->
                    Lay(i + 1, Append(e, [n |-> d.n, k |-> "obj", a |-> Len(m) + 1, t |-> d.t]),
                        m \o Fill(d.size, 0) \o <<-2>>)
               [] d.k = "const" ->
                    Lay(i + 1, Append(e, [n |-> d.n, k |-> "const", a |-> d.v, t |-> INT]), m)
               [] d.k = "fn" ->
                    Lay(i + 1, Append(e, [n |-> d.n, k |-> "fn", a |-> d.i, t |-> FNT]), m)
  IN Lay(1, <<>>, StrMem(q.strs, <<-2>>))

\* per program: file-scope declarations and initial memory
File == [p \in 1..Len(Progs) |-> InitFrom(p)]
Genv == File[pid][1]
\* initialisers of file-scope objects are evaluated before main starts
RECURSIVE InitItems(_, _)
InitItems(p, i) ==
  IF i > Len(Progs[p].decls) THEN <<>>
  ELSE LET d == Progs[p].decls[i] IN
       (IF d.k = "obj" /\ d.init # <<>>
        THEN <<<<"e", d.init[1]>>, <<"init", File[p][1][i].a, d.t>>>> ELSE <<>>)
       \o InitItems(p, i + 1)


-----------------------------------------------------------------------------
(* names: the innermost visible declaration *)
RECURSIVE LookIn(_, _, _)
LookIn(e, x, i) == IF i = 0 THEN 0 ELSE IF e[i].n = x THEN i ELSE LookIn(e, x, i - 1)
Bind(x) == LET i == LookIn(env, x, Len(env))
           IN IF i > 0 THEN env[i] ELSE Genv[LookIn(Genv, x, Len(Genv))]

-----------------------------------------------------------------------------
(* pure expressions: evaluated in one go *)
Rank(op) == Prec(op)
\* operator at which a parenthesis-free chain of operands lo..hi splits first:
\* the last one among those that bind least
RECURSIVE SplitAt(_, _, _, _)
SplitAt(ops, lo, hi, best) ==
  IF lo >= hi THEN best
  ELSE SplitAt(ops, lo + 1, hi, IF Rank(ops[lo]) <= Rank(ops[best]) THEN lo ELSE best)
Root(n, lo, hi) == SplitAt(N(n).ops, lo, hi, lo)

\* An expression is rigid when no evaluation of another operand can change its
\* value: it reads only constants and block-scope scalars whose address is never
\* taken and which no ++/-- mentions.  The order in which it is evaluated cannot
\* be observed, so one order stands for all.
Exposed == [p \in 1..Len(Progs) |->
              {Progs[p].nodes[Progs[p].nodes[i].a].n :
                 i \in {j \in 1..Len(Progs[p].nodes) :
                          /\ Progs[p].nodes[j].k \in {"addr", "inc"}
                          /\ Progs[p].nodes[Progs[p].nodes[j].a].k = "var"}}]
RECURSIVE Rigid(_)
Rigid(n) ==
  LET d == N(n) IN
  CASE d.k \in {"lit", "sizeof", "str"} -> TRUE
    [] d.k = "var" -> LET b == Bind(d.n) IN
         \/ b.k # "obj"
         \/ /\ LookIn(env, d.n, Len(env)) > 0
            /\ d.n \notin Exposed[pid] /\ T(b.t).k \notin {"arr", "struct"}
    [] d.k = "flat" -> \A i \in 1..Len(d.es) : Rigid(d.es[i])
    [] d.k \in {"un", "par"} -> Rigid(d.a)
    [] d.k = "cond" -> Rigid(d.c) /\ Rigid(d.a) /\ Rigid(d.b)
    [] OTHER -> FALSE

\* binary operator on values, pointer arithmetic included
Apply(op, a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET pa == IsPtr(a[2]) pb == IsPtr(b[2]) IN
    IF op = "+" /\ pa THEN <<Add(a[1], Mul(b[1], SizeOf(T(a[2]).to))), a[2]>>
    ELSE IF op = "+" /\ pb THEN <<Add(b[1], Mul(a[1], SizeOf(T(b[2]).to))), b[2]>>
    ELSE IF op = "-" /\ pa /\ pb THEN <<Quot(Sub(a[1], b[1]), SizeOf(T(a[2]).to)), INT>>
    ELSE IF op = "-" /\ pa THEN <<Sub(a[1], Mul(b[1], SizeOf(T(a[2]).to))), a[2]>>
    ELSE LET r == BinOp(op, a[1], b[1]) IN IF r = <<>> THEN <<>> ELSE <<r[1], INT>>

RECURSIVE Val(_), LV(_), FVal(_, _, _)
FVal(n, lo, hi) ==
  IF lo = hi THEN Val(N(n).es[lo])
  ELSE LET r == Root(n, lo, hi) op == N(n).ops[r]
           a == FVal(n, lo, r)
       IN CASE op = "&&" -> IF a = <<>> THEN <<>> ELSE IF a[1] = 0 THEN <<0, INT>>
                            ELSE LET b == FVal(n, r + 1, hi)
                                 IN IF b = <<>> THEN <<>> ELSE <<B2I(b[1] # 0), INT>>
            [] op = "||" -> IF a = <<>> THEN <<>> ELSE IF a[1] # 0 THEN <<1, INT>>
                            ELSE LET b == FVal(n, r + 1, hi)
                                 IN IF b = <<>> THEN <<>> ELSE <<B2I(b[1] # 0), INT>>
            [] OTHER -> Apply(op, a, FVal(n, r + 1, hi))

LV(n) ==
  LET d == N(n) IN
  CASE d.k = "var" -> LET b == Bind(d.n) IN IF b.k = "obj" THEN <<b.a, b.t>> ELSE <<>>
    [] d.k = "deref" -> LET v == Val(d.a) IN IF v = <<>> THEN <<>> ELSE <<v[1], T(v[2]).to>>
    [] d.k = "idx" -> LET v == Apply("+", Val(d.a), Val(d.b))
                      IN IF v = <<>> THEN <<>> ELSE <<v[1], T(v[2]).to>>
    [] d.k = "mem" -> LET l == LV(d.a)
                      IN IF l = <<>> THEN <<>> ELSE <<l[1] + FieldOff(l[2], d.f), FieldT(l[2], d.f)>>
    [] d.k = "arrow" -> LET v == Val(d.a)
                        IN IF v = <<>> THEN <<>>
                           ELSE LET s == T(v[2]).to
                                IN <<v[1] + FieldOff(s, d.f), FieldT(s, d.f)>>

Val(n) ==
  LET d == N(n) IN
  CASE d.k = "lit" -> <<d.v, INT>>
    [] d.k = "str" -> <<P.straddr[d.s], CHARP>>
    [] d.k = "sizeof" -> <<SizeOf(d.t), INT>>
    [] d.k = "var" -> LET b == Bind(d.n) IN
         CASE b.k = "const" -> <<b.a, INT>>
           [] b.k = "fn" -> <<FBase + b.a, FNT>>
           [] OTHER -> Load(b.a, b.t)
    [] d.k = "flat" -> FVal(n, 1, Len(d.es))
    [] d.k = "un" -> LET v == Val(d.a) IN IF v = <<>> THEN <<>> ELSE <<UnOp(d.op, v[1]), INT>>
    [] d.k = "cond" -> LET c == Val(d.c)
                       IN IF c = <<>> THEN <<>> ELSE IF c[1] # 0 THEN Val(d.a) ELSE Val(d.b)
    [] d.k = "addr" -> LET l == LV(d.a) IN IF l = <<>> THEN <<>> ELSE <<l[1], T(l[2]).pt>>
    [] d.k = "par" -> Val(d.a)
    [] d.k \in {"deref", "idx", "mem", "arrow"} ->
         LET l == LV(n) IN IF l = <<>> THEN <<>> ELSE Load(l[1], l[2])

-----------------------------------------------------------------------------
(* start *)
Init ==
  /\ pid \in 1..Len(Progs)
  /\ env = <<>> /\ mem = File[pid][2]
  /\ ctl = InitItems(pid, 1) \o <<<<"start">>>> /\ vs = <<>> /\ out = <<>> /\ st = "run" /\ fuel = P.fuel

-----------------------------------------------------------------------------
(* helpers for actions *)
Top == Head(ctl)
Pop == Tail(ctl)
Is(x) == st = "run" /\ ctl # <<>> /\ Head(ctl)[1] = x
Tick == fuel > 0 /\ fuel' = fuel - 1 /\ pid' = pid
Go(c) == ctl' = c /\ st' = st
Stop(why) == st' = why /\ UNCHANGED <<ctl, vs, env, mem, out>>
Undef == Stop("undef")

V1 == vs[1]
V2 == vs[2]
PopV(k) == SubSeq(vs, k + 1, Len(vs))
Push(v) == vs' = <<v>> \o vs

-----------------------------------------------------------------------------
(* expressions with side effects: one operand at a time *)
EvalPure == /\ Is("e") /\ N(Top[2]).p /\ Tick
            /\ LET v == Val(Top[2]) IN
                 IF v = <<>> THEN Undef
                 ELSE Go(Pop) /\ Push(v) /\ UNCHANGED <<env, mem, out>>

Impure(k) == Is("e") /\ ~N(Top[2]).p /\ N(Top[2]).k = k /\ Tick
Plan(items) == Go(items \o Pop) /\ UNCHANGED <<vs, env, mem, out>>

EvalChain == LET n == Top[2] IN Impure("flat") /\ Plan(<<<<"f", n, 1, Len(N(n).es)>>>>)
\* a segment of a parenthesis-free chain
EvalSegment ==
  /\ Is("f") /\ Tick
  /\ LET n == Top[2] lo == Top[3] hi == Top[4] IN
     IF lo = hi THEN Plan(<<<<"e", N(n).es[lo]>>>>)
     ELSE LET r == Root(n, lo, hi) op == N(n).ops[r]
              L == <<"f", n, lo, r>> R == <<"f", n, r + 1, hi>> IN
          IF op = "&&" THEN Plan(<<L, <<"and", n, r + 1, hi>>>>)
          ELSE IF op = "||" THEN Plan(<<L, <<"or", n, r + 1, hi>>>>)
          ELSE \/ Plan(<<L, R, <<"op", op>>>>)          \* the order of operands
               \/ /\ \E i \in lo..r : ~Rigid(N(n).es[i])  \* is not specified
                  /\ \E i \in (r + 1)..hi : ~Rigid(N(n).es[i])
                  /\ Plan(<<R, L, <<"opr", op>>>>)
AndTest == /\ Is("and") /\ Tick
           /\ IF V1[1] = 0 THEN /\ Go(Pop) /\ vs' = <<<<0, INT>>>> \o PopV(1)
                                /\ UNCHANGED <<env, mem, out>>
              ELSE /\ Go(<<<<"f", Top[2], Top[3], Top[4]>>, <<"truth">>>> \o Pop)
                   /\ vs' = PopV(1) /\ UNCHANGED <<env, mem, out>>
OrTest == /\ Is("or") /\ Tick
          /\ IF V1[1] # 0 THEN /\ Go(Pop) /\ vs' = <<<<1, INT>>>> \o PopV(1)
                               /\ UNCHANGED <<env, mem, out>>
             ELSE /\ Go(<<<<"f", Top[2], Top[3], Top[4]>>, <<"truth">>>> \o Pop)
                  /\ vs' = PopV(1) /\ UNCHANGED <<env, mem, out>>
Truth == /\ Is("truth") /\ Tick /\ Go(Pop)
         /\ vs' = <<<<B2I(V1[1] # 0), INT>>>> \o PopV(1) /\ UNCHANGED <<env, mem, out>>
Operate == /\ (Is("op") \/ Is("opr")) /\ Tick
           /\ LET v == IF Top[1] = "op" THEN Apply(Top[2], V2, V1) ELSE Apply(Top[2], V1, V2) IN
                IF v = <<>> THEN Undef
                ELSE Go(Pop) /\ vs' = <<v>> \o PopV(2) /\ UNCHANGED <<env, mem, out>>

EvalParen == Impure("par") /\ Plan(<<<<"e", N(Top[2]).a>>>>)
EvalUnary == Impure("un") /\ Plan(<<<<"e", N(Top[2]).a>>, <<"un", N(Top[2]).op>>>>)
Unary == /\ Is("un") /\ Tick /\ Go(Pop)
         /\ vs' = <<<<UnOp(Top[2], V1[1]), INT>>>> \o PopV(1) /\ UNCHANGED <<env, mem, out>>

EvalCond == Impure("cond") /\ Plan(<<<<"e", N(Top[2]).c>>, <<"pick", Top[2]>>>>)
CondPick == /\ Is("pick") /\ Tick /\ vs' = PopV(1)
            /\ Go(<<<<"e", IF V1[1] # 0 THEN N(Top[2]).a ELSE N(Top[2]).b>>>> \o Pop)
            /\ UNCHANGED <<env, mem, out>>

\* objects designated by expressions with side effects
EvalAccess == /\ Is("e") /\ ~N(Top[2]).p /\ N(Top[2]).k \in {"deref", "idx", "mem", "arrow"}
              /\ Tick /\ Plan(<<<<"l", Top[2]>>, <<"load">>>>)
EvalAddr == Impure("addr") /\ Plan(<<<<"l", N(Top[2]).a>>, <<"ptrto">>>>)
Locate ==
  /\ Is("l") /\ Tick
  /\ LET d == N(Top[2]) IN
     IF d.p THEN LET l == LV(Top[2]) IN
                 IF l = <<>> THEN Undef ELSE Go(Pop) /\ Push(l) /\ UNCHANGED <<env, mem, out>>
     ELSE CASE d.k = "idx" -> \/ Plan(<<<<"e", d.a>>, <<"e", d.b>>, <<"op", "+">>, <<"point">>>>)
                              \/ Plan(<<<<"e", d.b>>, <<"e", d.a>>, <<"opr", "+">>, <<"point">>>>)
            [] d.k = "deref" -> Plan(<<<<"e", d.a>>, <<"point">>>>)
            [] d.k = "mem" -> Plan(<<<<"l", d.a>>, <<"field", d.f>>>>)
            [] d.k = "arrow" -> Plan(<<<<"e", d.a>>, <<"point">>, <<"field", d.f>>>>)
Point == /\ Is("point") /\ Tick /\ Go(Pop) /\ vs' = <<<<V1[1], T(V1[2]).to>>>> \o PopV(1)
         /\ UNCHANGED <<env, mem, out>>
PtrTo == /\ Is("ptrto") /\ Tick /\ Go(Pop) /\ vs' = <<<<V1[1], T(V1[2]).pt>>>> \o PopV(1)
         /\ UNCHANGED <<env, mem, out>>
Field == /\ Is("field") /\ Tick /\ Go(Pop)
         /\ vs' = <<<<V1[1] + FieldOff(V1[2], Top[2]), FieldT(V1[2], Top[2])>>>> \o PopV(1)
         /\ UNCHANGED <<env, mem, out>>
LoadIt == /\ Is("load") /\ Tick
          /\ LET v == Load(V1[1], V1[2]) IN
               IF v = <<>> THEN Undef
               ELSE Go(Pop) /\ vs' = <<v>> \o PopV(1) /\ UNCHANGED <<env, mem, out>>

\* ++ and --: new value stored, old or new value delivered
EvalIncDec == Impure("inc") /\ Plan(<<<<"l", N(Top[2]).a>>, <<"bump", Top[2]>>>>)
IncDec ==
  /\ Is("bump") /\ Tick
  /\ LET d == N(Top[2]) o == Load(V1[1], V1[2]) IN
     IF o = <<>> THEN Undef
     ELSE LET w == Apply(IF d.d = 1 THEN "+" ELSE "-", o, <<1, INT>>) c == Conv(w[1], V1[2]) IN
          /\ Go(Pop) /\ mem' = Put(mem, V1[1], V1[2], c)
          /\ vs' = <<<<IF d.post THEN o[1] ELSE c, o[2]>>>> \o PopV(1)
          /\ UNCHANGED <<env, out>>

-----------------------------------------------------------------------------
(* calls *)
Items(as) == [i \in 1..Len(as) |-> <<"e", as[i]>>]
EvalCall == /\ Impure("call")
            /\ LET as == N(Top[2]).args IN
               \/ Plan(Items(as) \o <<<<"call", Top[2], 0>>>>)
               \/ /\ \E i \in 1..Len(as) : ~N(as[i]).p
                  /\ Cardinality({i \in 1..Len(as) : ~Rigid(as[i])}) > 1
                  /\ Plan(Reverse(Items(as)) \o <<<<"call", Top[2], 1>>>>)
\* actual arguments in order (they are on the value stack)
Actuals(k, rev) == IF rev = 1 THEN SubSeq(vs, 1, k) ELSE Reverse(SubSeq(vs, 1, k))

FnOf(b) == IF b.k = "fn" THEN b.a
           ELSE LET v == Load(b.a, b.t) IN IF v = <<>> THEN -1 ELSE v[1] - FBase

\* function a call designates: by name, or by the member d.ce that holds its address
Callee(d) == IF d.ce = 0 THEN FnOf(Bind(d.n))
             ELSE LET v == Val(d.ce) IN IF v = <<>> THEN -1 ELSE v[1] - FBase

Observe ==               \* the observable action: o(x) writes x and returns it
  /\ Is("call") /\ N(Top[2]).n = "o" /\ Tick
  /\ IF Len(out) >= MaxOut THEN Stop("undef")
     ELSE /\ out' = Append(out, V1[1]) /\ Go(Pop)
          /\ vs' = <<<<V1[1], INT>>>> \o PopV(1) /\ UNCHANGED <<env, mem>>

RECURSIVE BindParams(_, _, _, _)
BindParams(ps, as, e, m) ==
  IF ps = <<>> THEN <<e, m>>
  ELSE LET p == Head(ps) sz == SizeOf(p.t) IN
       BindParams(Tail(ps), Tail(as),
                  Append(e, [n |-> p.n, k |-> "obj", a |-> Len(m) + 1, t |-> p.t]),
                  Put(m \o Fill(sz, 0) \o <<-2>>, Len(m) + 1, p.t, Head(as)[1]))
EnterFn(f, as, rest) ==
  LET d == P.funcs[f] b == BindParams(d.ps, as, <<>>, mem) IN
  /\ env' = b[1] /\ mem' = b[2]
  /\ Go(<<<<"s", d.body>>, <<"ret", env, Len(mem), d.ret>>>> \o rest)
Call ==
  /\ Is("call") /\ N(Top[2]).n # "o" /\ Tick
  /\ LET d == N(Top[2]) k == Len(d.args) f == Callee(d) IN
     IF f \notin 1..Len(P.funcs) THEN Undef
     ELSE IF Len(P.funcs[f].ps) # k THEN Undef
     ELSE /\ EnterFn(f, Actuals(k, Top[3]), Pop)
          /\ vs' = PopV(k) /\ UNCHANGED out
Start ==
  /\ Is("start") /\ Tick
  /\ EnterFn(P.main, <<>>, <<<<"exit">>>>) /\ UNCHANGED <<vs, out>>
\* control reaches the end of a function: only a void result is meaningful
FallOff == /\ Is("ret") /\ Tick /\ Go(Pop) /\ env' = Top[2] /\ mem' = SubSeq(mem, 1, Top[3])
           /\ Push(IF Top[4] = VOID THEN <<0, VOID>> ELSE <<>>) /\ UNCHANGED out
Exit == /\ Is("exit") /\ Tick
        /\ IF V1 = <<>> THEN Undef
           ELSE st' = "done" /\ UNCHANGED <<ctl, vs, env, mem, out>>

-----------------------------------------------------------------------------
(* statements *)
Stmt(k) == Is("s") /\ N(Top[2]).k = k /\ Tick
SItems(ss) == [i \in 1..Len(ss) |-> <<"s", ss[i]>>]

DoExpr == Stmt("expr") /\ Plan(<<<<"e", N(Top[2]).a>>, <<"drop">>>>)
Drop == Is("drop") /\ Tick /\ Go(Pop) /\ vs' = PopV(1) /\ UNCHANGED <<env, mem, out>>
DoEmpty == Stmt("empty") /\ Plan(<<>>)
DoBlock == Stmt("block") /\ Plan(SItems(N(Top[2]).ss) \o <<<<"end", Len(env), Len(mem)>>>>)
(* one declaration with several declarators: no scope of its own *)
DoSeq == Stmt("seq") /\ Plan(SItems(N(Top[2]).ss))
EndBlock == /\ Is("end") /\ Tick /\ Go(Pop) /\ env' = SubSeq(env, 1, Top[2])
            /\ mem' = SubSeq(mem, 1, Top[3]) /\ UNCHANGED <<vs, out>>

DoDecl ==
  /\ Stmt("decl")
  /\ LET d == N(Top[2]) a == Len(mem) + 1 IN
     /\ env' = Append(env, [n |-> d.n, k |-> "obj", a |-> a, t |-> d.t])
     /\ mem' = mem \o Fill(SizeOf(d.t), -1) \o <<-2>>
     /\ Go((IF d.init # 0 THEN <<<<"e", d.init>>, <<"init", a, d.t>>>>
            ELSE IF d.inits # <<>> THEN
              [i \in 1..(2 * Len(d.inits)) |->
                 IF i % 2 = 1 THEN <<"e", d.inits[(i + 1) \div 2]>>
                 ELSE <<"init", a + (i \div 2 - 1) * SizeOf(T(d.t).to), T(d.t).to>>]
            ELSE <<>>) \o Pop)
  /\ UNCHANGED <<vs, out>>
Initialise == /\ Is("init") /\ Tick
              /\ IF V1 = <<>> THEN Undef
                 ELSE /\ Go(Pop) /\ mem' = Put(mem, Top[2], Top[3], V1[1])
                      /\ vs' = PopV(1) /\ UNCHANGED <<env, out>>

\* lvalue and right-hand side may be evaluated in either order
DoAssign ==
  /\ Stmt("asg")
  /\ LET d == N(Top[2]) IN
     \/ Plan(<<<<"l", d.l>>, <<"e", d.e>>, <<"store", d.op, 0>>>>)
     \/ /\ ~N(d.e).p /\ N(d.l).k # "var"
        /\ Plan(<<<<"e", d.e>>, <<"l", d.l>>, <<"store", d.op, 1>>>>)
Assign ==
  /\ Is("store") /\ Tick
  /\ LET l == IF Top[3] = 0 THEN V2 ELSE V1
         r == IF Top[3] = 0 THEN V1 ELSE V2
         v == IF r = <<>> THEN <<>> ELSE IF Top[2] = "" THEN r ELSE Apply(Top[2], Load(l[1], l[2]), r) IN
     IF v = <<>> \/ ~CanStore(l[1], l[2]) THEN Undef
     ELSE /\ Go(Pop) /\ mem' = Put(mem, l[1], l[2], v[1])
          /\ vs' = PopV(2) /\ UNCHANGED <<env, out>>

DoIf == Stmt("if") /\ Plan(<<<<"e", N(Top[2]).c>>, <<"branch", Top[2]>>>>)
Branch == /\ Is("branch") /\ Tick /\ vs' = PopV(1) /\ UNCHANGED <<env, mem, out>>
          /\ IF V1[1] # 0 THEN Go(<<<<"s", N(Top[2]).a>>>> \o Pop)
             ELSE IF N(Top[2]).b # 0 THEN Go(<<<<"s", N(Top[2]).b>>>> \o Pop) ELSE Go(Pop)

\* <<"again", n, e, m>> is where the loop continues; it remembers the block's extent
DoWhile == /\ Stmt("while")
           /\ Plan(<<<<"e", N(Top[2]).c>>, <<"test", Top[2], Len(env), Len(mem)>>>>)
DoFor == /\ Stmt("for")
         /\ LET d == N(Top[2]) IN
            Plan((IF d.i # 0 THEN <<<<"s", d.i>>>> ELSE <<>>) \o
                 <<<<"forc", Top[2]>>, <<"end", Len(env), Len(mem)>>>>)
ForCond == /\ Is("forc") /\ Tick
           /\ LET d == N(Top[2]) te == <<"test", Top[2], Len(env), Len(mem)>> IN
              IF d.c # 0 THEN Plan(<<<<"e", d.c>>, te>>)
              ELSE /\ Go(<<te>> \o Pop) /\ Push(<<1, INT>>) /\ UNCHANGED <<env, mem, out>>
DoDo == /\ Stmt("do")
        /\ Plan(<<<<"s", N(Top[2]).a>>, <<"again", Top[2], Len(env), Len(mem)>>>>)
LoopTest ==
  /\ Is("test") /\ Tick /\ vs' = PopV(1) /\ UNCHANGED <<env, mem, out>>
  /\ IF V1[1] = 0 THEN Go(Pop)
     ELSE Go(<<<<"s", N(Top[2]).a>>, <<"again", Top[2], Top[3], Top[4]>>>> \o Pop)
Again ==
  /\ Is("again") /\ Tick
  /\ env' = SubSeq(env, 1, Top[3]) /\ mem' = SubSeq(mem, 1, Top[4]) /\ UNCHANGED <<vs, out>>
  /\ LET d == N(Top[2]) te == <<"test", Top[2], Top[3], Top[4]>> IN
     CASE d.k = "for" ->
            Go((IF d.s # 0 THEN <<<<"s", d.s>>>> ELSE <<>>) \o <<<<"forc", Top[2]>>>> \o Pop)
       [] OTHER -> Go(<<<<"e", d.c>>, te>> \o Pop)

DoSwitch == /\ Stmt("switch")
            /\ Plan(<<<<"e", N(Top[2]).c>>, <<"select", Top[2], Len(env), Len(mem)>>>>)
RECURSIVE CasesFrom(_, _)
CasesFrom(cs, i) == IF i > Len(cs) THEN <<>> ELSE SItems(cs[i].ss) \o CasesFrom(cs, i + 1)
Select ==
  /\ Is("select") /\ Tick /\ vs' = PopV(1) /\ UNCHANGED <<env, mem, out>>
  /\ LET cs == N(Top[2]).cases
         hit == {i \in 1..Len(cs) : \E j \in 1..Len(cs[i].vs) : cs[i].vs[j] = V1[1]}
         dfl == {i \in 1..Len(cs) : cs[i].d}
         from == IF hit # {} THEN CHOOSE i \in hit : TRUE
                 ELSE IF dfl # {} THEN CHOOSE i \in dfl : TRUE ELSE Len(cs) + 1 IN
     Go(CasesFrom(cs, from) \o <<<<"esac", Top[3], Top[4]>>>> \o Pop)
EndSwitch == /\ Is("esac") /\ Tick /\ Go(Pop) /\ env' = SubSeq(env, 1, Top[2])
             /\ mem' = SubSeq(mem, 1, Top[3]) /\ UNCHANGED <<vs, out>>

RECURSIVE Unwind(_, _)
Unwind(c, ks) == IF Head(c)[1] \in ks THEN c ELSE Unwind(Tail(c), ks)
DoBreak ==
  /\ Stmt("break")
  /\ LET c == Unwind(Pop, {"again", "esac"}) h == Head(c) k == Len(h) IN
     /\ Go(Tail(c)) /\ env' = SubSeq(env, 1, h[k - 1]) /\ mem' = SubSeq(mem, 1, h[k])
  /\ UNCHANGED <<vs, out>>
DoContinue ==
  /\ Stmt("continue") /\ Go(Unwind(Pop, {"again"})) /\ UNCHANGED <<vs, env, mem, out>>
DoReturn ==
  /\ Stmt("return")
  /\ LET a == N(Top[2]).a IN
     IF a = 0 THEN /\ Go(<<<<"leave">>>> \o Pop) /\ Push(<<0, VOID>>) /\ UNCHANGED <<env, mem, out>>
     ELSE Plan(<<<<"e", a>>, <<"leave">>>>)
Leave ==
  /\ Is("leave") /\ Tick
  /\ IF V1 = <<>> THEN Undef
     ELSE LET c == Unwind(Pop, {"ret"}) h == Head(c) IN
          /\ Go(Tail(c)) /\ env' = h[2] /\ mem' = SubSeq(mem, 1, h[3])
          /\ vs' = <<<<Conv(V1[1], h[4]), h[4]>>>> \o PopV(1) /\ UNCHANGED out

-----------------------------------------------------------------------------
NextExpr == EvalPure \/ EvalChain \/ EvalSegment \/ AndTest \/ OrTest \/ Truth \/ Operate
            \/ EvalParen \/ EvalUnary \/ Unary \/ EvalCond \/ CondPick \/ EvalAccess \/ EvalAddr
            \/ Locate \/ Point \/ PtrTo \/ Field \/ LoadIt \/ EvalIncDec \/ IncDec
NextCall == EvalCall \/ Observe \/ Call \/ Start \/ FallOff \/ Exit
NextStmt == DoExpr \/ Drop \/ DoEmpty \/ DoBlock \/ DoSeq \/ EndBlock \/ DoDecl \/ Initialise \/ DoAssign
            \/ Assign \/ DoIf \/ Branch \/ DoWhile \/ DoFor \/ ForCond \/ DoDo \/ LoopTest \/ Again
            \/ DoSwitch \/ Select \/ EndSwitch \/ DoBreak \/ DoContinue \/ DoReturn \/ Leave
Next == NextExpr \/ NextCall \/ NextStmt
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* properties of the machine itself *)
TypeOK == /\ st \in {"run", "done", "undef"} /\ fuel >= 0
          /\ \A i \in 1..Len(mem) : mem[i] \in -2..255
\* every visible object lies inside memory and no two objects overlap
ObjectsDisjoint ==
  \A i \in 1..Len(env) : env[i].k = "obj" =>
     /\ InMem(env[i].a, SizeOf(env[i].t))
     /\ \A j \in 1..(i - 1) : env[j].k = "obj" => env[j].a + SizeOf(env[j].t) < env[i].a
\* the machine is never stuck before it is finished
NoStuck == st = "run" /\ fuel > 0 => ENABLED Next

Outcome == [p |-> pid, s |-> IF st = "run" THEN "fuel" ELSE st, o |-> out,
            r |-> IF st = "done" THEN vs[1][1] ELSE 0]
\* prints each final state; always true
Report == (Emit /\ (st # "run" \/ fuel = 0)) => PrintT(ToJson(Outcome))
=============================================================================
