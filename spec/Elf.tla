-------------------------------- MODULE Elf ---------------------------------
(* What the loader and binary tools see of an emitted executable.  A file of    *)
(* IOEnv.FILES is [b |-> bytes, arch |-> "arm" | "riscv", strs |-> <<bytes of   *)
(* a string literal>>, near |-> no constant of the program is close to the         *)
(* addresses of the segment].  The reader proceeds from part to part of the file      *)
(* (ident, header, segment, sections, names, symbols, code) and states the      *)
(* requirements on each; a part that breaks one is reported.                    *)
EXTENDS Word, TLC, Json, IOUtils, FiniteSets

Files == JsonDeserialize(IOEnv.FILES)

VARIABLES f, part
vars == <<f, part>>

B == Files[f].b
Size == Len(B)
Arch == Files[f].arch
In(i, n) == i >= 0 /\ n >= 0 /\ i <= Size /\ n <= Size - i     \* n bytes at offset i exist
U8(i) == IF In(i, 1) THEN B[i + 1] ELSE 0
U16(i) == IF In(i, 2) THEN B[i + 1] + 256 * B[i + 2] ELSE 0
W(i) == IF In(i, 4) THEN FromBytes(B[i + 1], B[i + 2], B[i + 3], B[i + 4]) ELSE -1

\* header fields
Entry == W(24)   PhOff == W(28)   ShOff == W(32)   Flags == W(36)
PhNum == U16(44) ShNum == U16(48) ShStr == U16(50)
\* the segment
POff == W(PhOff + 4)  PVaddr == W(PhOff + 8)  PFile == W(PhOff + 16)  PMem == W(PhOff + 20)
PFlags == W(PhOff + 24)  PAlign == W(PhOff + 28)
\* section i (from 0)
Sec(i) == LET o == ShOff + 40 * i IN
  [name |-> W(o), type |-> W(o + 4), flags |-> W(o + 8), addr |-> W(o + 12), off |-> W(o + 16), size |-> W(o + 20),
   link |-> W(o + 24), info |-> W(o + 28), align |-> W(o + 32), ent |-> W(o + 36)]
Secs == 1..(ShNum - 1)

\* the NUL-terminated string at offset i of the file, if it ends before e
RECURSIVE CStr(_, _, _)
CStr(i, e, acc) == IF i >= e \/ ~In(i, 1) THEN <<-1>> ELSE IF U8(i) = 0 THEN acc ELSE CStr(i + 1, e, Append(acc, U8(i)))
NameOf(i) == LET s == Sec(ShStr) IN IF Sec(i).name \in 0..(s.size - 1) THEN CStr(s.off + Sec(i).name, s.off + s.size, <<>>) ELSE <<-1>>
TextName == <<46, 116, 101, 120, 116>>
DataName == <<46, 100, 97, 116, 97>>
SymName == <<46, 115, 121, 109, 116, 97, 98>>
StrName == <<46, 115, 116, 114, 116, 97, 98>>
Named(n) == {i \in Secs : NameOf(i) = n}
Text == Sec(CHOOSE i \in Named(TextName) : TRUE)
Data == Sec(CHOOSE i \in Named(DataName) : TRUE)
Sym == Sec(CHOOSE i \in Named(SymName) : TRUE)

\* addresses the code builds in a register: a movw/movt or lui/addi pair
Half(w) == Hi(w)
MovImm(w) == (Hi(w) % 16) * 4096 + (Lo(w) % 4096)
IsMovw(w) == (Hi(w) \div 16) % 256 = 48
IsMovt(w) == (Hi(w) \div 16) % 256 = 52
ArmRd(w) == Lo(w) \div 4096
RvOp(w) == Lo(w) % 128
RvRd(w) == (Lo(w) \div 128) % 32
RvF3(w) == (Lo(w) \div 4096) % 8
RvRs1(w) == (Lo(w) \div 32768) + 2 * (Hi(w) % 16)
RvImm(w) == LET x == Hi(w) \div 16 IN IF x >= 2048 THEN x - 4096 ELSE x
Built(o) ==     \* value built by the instructions at offsets o and o + 4, <<>> if none
  LET a == W(o)  b == W(o + 4) IN
  IF Arch = "arm" THEN (IF IsMovw(a) /\ IsMovt(b) /\ ArmRd(a) = ArmRd(b) THEN <<Mk(MovImm(b), MovImm(a))>> ELSE <<>>)
  ELSE (IF RvOp(a) = 55 /\ RvOp(b) = 19 /\ RvF3(b) = 0 /\ RvRd(a) = RvRd(b) /\ RvRs1(b) = RvRd(a)
        THEN <<Add(Mk(Hi(a), (Lo(a) \div 4096) * 4096), RvImm(b))>> ELSE <<>>)
InSeg(v) == v >= PVaddr /\ v < PVaddr + PMem
Addresses(t) ==      \* t: the .text section
  LET os == {t.off + 4 * i : i \in 0..(t.size \div 4 - 2)} IN UNION {{x[1] : x \in {Built(o)} \ {<<>>}} : o \in os}
DataStrings(d, as) == \* the strings of section d at addresses of as
  {CStr(d.off + (v - d.addr), d.off + d.size, <<>>) : v \in {v \in as : v >= d.addr /\ v < d.addr + d.size}}

-----------------------------------------------------------------------------
R(name, ok) == <<name, ok>>
Requirements(x) ==
  CASE x = "ident" -> << R("size", Size >= 52), R("magic", U8(0) = 127 /\ U8(1) = 69 /\ U8(2) = 76 /\ U8(3) = 70),
       R("class 32-bit", U8(4) = 1), R("little endian", U8(5) = 1), R("ident version", U8(6) = 1), R("OS ABI", U8(7) \in {0, 3}) >>
  [] x = "header" -> << R("type EXEC", U16(16) = 2), R("machine", U16(18) = IF Arch = "arm" THEN 40 ELSE 243), R("version", W(20) = 1),
       R("header size", U16(40) = 52), R("program header size", U16(42) = 32), R("section header size", U16(46) = 40),
       R("one program header at least", PhNum >= 1), R("program headers inside the file", PhOff >= 52 /\ In(PhOff, 32 * PhNum)),
       R("section headers inside the file", ShOff >= 52 /\ In(ShOff, 40 * ShNum)), R("tables do not overlap", ShOff >= PhOff + 32 * PhNum \/ PhOff >= ShOff + 40 * ShNum),
       R("name section exists", ShStr \in Secs), R("flags", Flags = IF Arch = "arm" THEN 83886592 ELSE 0) >>
  [] x = "segment" -> << R("type LOAD", W(PhOff) = 1), R("segment inside the file", In(POff, PFile)), R("memory size", PMem >= PFile),
       R("alignment a power of two", PAlign \in {2^k : k \in 0..16}), R("address congruent to offset", (PVaddr - POff) % PAlign = 0),
       R("page congruent", (PVaddr - POff) % 4096 = 0),
       R("entry inside the segment", InSeg(Entry)), R("entry aligned", Entry % 4 = 0), R("readable, writable, executable", PFlags = 7) >>
  [] x = "sections" -> << R("null section", \A k \in 0..9 : W(ShOff + 4 * k) = 0),
       R("inside the file", \A i \in Secs : In(Sec(i).off, Sec(i).size)),
       R("disjoint", \A i, j \in Secs : i # j /\ Sec(i).size > 0 /\ Sec(j).size > 0 => Sec(i).off >= Sec(j).off + Sec(j).size \/ Sec(j).off >= Sec(i).off + Sec(i).size),
       R("clear of the headers", \A i \in Secs : Sec(i).size > 0 => Sec(i).off >= PhOff + 32 * PhNum /\ (Sec(i).off + Sec(i).size <= ShOff \/ Sec(i).off >= ShOff + 40 * ShNum)),
       R("offsets aligned", \A i \in Secs : Sec(i).align > 1 => Sec(i).off % Sec(i).align = 0),
       R("addresses aligned", \A i \in Secs : Sec(i).align > 1 => Sec(i).addr % Sec(i).align = 0),
       R("links", \A i \in Secs : Sec(i).link \in 0..(ShNum - 1)),
       R("the file ends with its parts", \A i \in Secs : Sec(i).off + Sec(i).size <= Size /\ Size = (IF ShOff + 40 * ShNum > Size THEN 0 ELSE ShOff + 40 * ShNum)) >>
  [] x = "names" -> << R("name section is a string table", Sec(ShStr).type = 3),
       R("names end inside the table", \A i \in Secs : NameOf(i) # <<-1>>),
       R("one .text", Cardinality(Named(TextName)) = 1), R("one .data", Cardinality(Named(DataName)) = 1),
       R("one .symtab", Cardinality(Named(SymName)) = 1), R("one .strtab", Cardinality(Named(StrName)) = 1) >>
  [] x = "contents" -> LET t == Text  d == Data  y == Sym  st == Sec(y.link)  n == y.size \div 16  z == PFile  o == POff  va == PVaddr IN
    << R(".text in the segment", t.type = 1 /\ t.addr = va + (t.off - o) /\ t.off >= o /\ t.off + t.size <= o + z),
       R(".data in the segment", d.type = 1 /\ d.addr = va + (d.off - o) /\ d.off >= o /\ d.off + d.size <= o + z),
       R("segment covers code and data", z = t.size + d.size), R(".text executable", t.flags \in {6, 7}), R(".data writable", d.flags = 3),
       R("entry in .text", Entry >= t.addr /\ Entry < t.addr + t.size), R("whole instructions", t.size % 4 = 0),
       R(".symtab is one", y.type = 2 /\ y.ent = 16 /\ y.size % 16 = 0 /\ st.type = 3),
       R("symbol names", \A k \in 0..(n - 1) : W(y.off + 16 * k) \in 0..(st.size - 1) /\ CStr(st.off + W(y.off + 16 * k), st.off + st.size, <<>>) # <<-1>>),
       R("symbol values", \A k \in 0..(n - 1) : W(y.off + 16 * k + 4) = 0 \/ InSeg(W(y.off + 16 * k + 4))),
       R("local symbols first", y.info <= n \/ n = 0) >>
  [] x = "code" -> LET t == Text  d == Data  as == Addresses(t)  ds == DataStrings(d, as)  va == PVaddr  m == PMem  ss == Files[f].strs IN
    << R("addresses the code builds near the segment lie in it", ~Files[f].near \/ \A v \in as : (v >= va - 4096 /\ v < va + m + 4096) => (v >= va /\ v < va + m)),
       R("string literals", \A s \in 1..Len(ss) : ss[s] \in ds) >>
Order == [ident |-> "header", header |-> "segment", segment |-> "sections", sections |-> "names", names |-> "contents", contents |-> "code", code |-> "ok"]

Init == f \in 1..Len(Files) /\ part = "ident"
Broken(x) == {r \in {Requirements(x)[i] : i \in 1..Len(Requirements(x))} : ~r[2]}
Pass == part # "ok" /\ part # "bad" /\ Broken(part) = {} /\ part' = Order[part] /\ UNCHANGED f
Flag == /\ part # "ok" /\ part # "bad" /\ Broken(part) # {}
        /\ PrintT(ToJson([f |-> f, part |-> part, broken |-> {r[1] : r \in Broken(part)}]))
        /\ part' = "bad" /\ UNCHANGED f
Next == Pass \/ Flag
Spec == Init /\ [][Next]_vars
TypeOK == part \in {"ident", "header", "segment", "sections", "names", "contents", "code", "ok", "bad"}
=============================================================================
