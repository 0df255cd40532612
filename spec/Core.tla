-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* The instructions of Funge-93 and Funge-98, except those that need the   *)
(* dispatcher itself (k, t, parentheses: module Funge).                    *)
(*                                                                         *)
(* An operator that executes an instruction maps a machine to the machine  *)
(* after it; its err tells how it ended:                                   *)
(*   none    the pointer moves on        skip  it moves on and takes no time *)
(*   block   it stays                    unimp, notavail, unspec  it reflects *)
(*   call    it waits for a library universe                               *)
(*   giveup  this description has nothing to say                           *)
(***************************************************************************)
EXTENDS Debugger

(* the instructions each language level adds; those of level d need d dimensions *)
Ops93 == <<{"sp","tab","0","1","2","3","4","5","6","7","8","9","<",">","@","#","_","?","!","%","*","+","-",
            "/","`","$",":","\\","&","~","\"",".",",","g","p"},
           {"^","v","|"}, {}>>
Ops98 == <<{"a","b","c","d","e","f","y","z",";","j","r","x","k","q","t","n","u","{","}","i","o","=","'","s","(",")"},
           {"[","]","w"}, {"h","l","m"}>>
KnownOp(ip, ch) == \/ \E d \in 1..3 : d <= ip.idim /\ d <= 2 /\ ch \in Ops93[d]
                   \/ ip.std = 98 /\ \E d \in 1..3 : d <= ip.idim /\ ch \in Ops98[d]
(* those that act while submerged *)
Movement == {"<", ">", "^", "v", "r", "h", "l"}

HexVal == [x \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |->
             CASE x = "a" -> "10" [] x = "b" -> "11" [] x = "c" -> "12"
               [] x = "d" -> "13" [] x = "e" -> "14" [] x = "f" -> "15" [] OTHER -> x]

-----------------------------------------------------------------------------
(* input *)
ReadInt(m) ==
  LET RECURSIVE Skip(_), Num(_,_)
      Skip(i) == IF i > Len(m.inp) \/ IsDigit(m.inp[i]) THEN i ELSE Skip(i + 1)
      Num(i, n) == IF i > Len(m.inp) \/ ~ IsDigit(m.inp[i]) THEN <<i, n>>
                   ELSE Num(i + 1, WAdd(WMul(n, "10"), WSub(m.inp[i], "48")))
      s == Skip(1)
      r == Num(s, "0")
  IN  IF s > Len(m.inp) THEN Fail([m EXCEPT !.inp = << >>])
      ELSE P([m EXCEPT !.inp = SubSeq(@, r[1], Len(@))], r[2])
ReadChar(m) ==
  LET n == Len(m.inp) IN
  IF n = 0 THEN Fail(m)
  ELSE IF m.inp[1] # CR THEN P([m EXCEPT !.inp = Tail(@)], m.inp[1])
  ELSE IF n = 1 THEN Fail([m EXCEPT !.inp = << >>])
  ELSE P([m EXCEPT !.inp = SubSeq(@, 3, n)], m.inp[2])

(* a direction out of the 2*Dim cardinal ones *)
CardDir(r) == Unit(r \div 2 + 1, IF r % 2 = 1 THEN "-1" ELSE "1")
GoAway(m) == LET n == 2 * Dim(m) IN SetDelta(Drawn(m, n), CardDir(Draw(m, n)))

If(m, d) == SetDelta(D(m, 1), Unit(d, IF A(m, 1) = "0" THEN "1" ELSE "-1"))

Exec93(m, ch) ==
  LET a == A(m, 1) b == A(m, 2) IN
  CASE ch \in {"sp", "tab"} -> Err(m, "skip")
    [] ch \in DOMAIN HexVal -> P(m, HexVal[ch])
    [] ch = "<" -> SetDelta(m, Unit(1, "-1"))
    [] ch = ">" -> SetDelta(m, Unit(1, "1"))
    [] ch = "^" -> SetDelta(m, Unit(2, "-1"))
    [] ch = "v" -> SetDelta(m, Unit(2, "1"))
    [] ch = "@" -> [m EXCEPT !.ip.stop = TRUE]
    [] ch = "#" -> Nx(m)
    [] ch = "_" -> If(m, 1)
    [] ch = "|" -> If(m, 2)
    [] ch = "?" -> GoAway(m)
    [] ch = "!" -> R1(m, 1, Bool(a = "0"))
    [] ch = "%" -> R1(m, 2, WRem(b, a))
    [] ch = "*" -> R1(m, 2, WMul(b, a))
    [] ch = "+" -> R1(m, 2, WAdd(b, a))
    [] ch = "-" -> R1(m, 2, WSub(b, a))
    [] ch = "/" -> R1(m, 2, WDiv(b, a))
    [] ch = "`" -> R1(m, 2, Bool(WLt(a, b)))
    [] ch = "$" -> D(m, 1)
    [] ch = ":" -> PL(D(m, 1), <<a, a>>)
    [] ch = "\\" -> PL(D(m, 2), <<a, b>>)
    [] ch = "&" -> ReadInt(m)
    [] ch = "~" -> ReadChar(m)
    [] ch = "\"" -> [m EXCEPT !.ip.st = "string", !.ip.send = "34"]
    [] ch = "." -> Out(D(m, 1), a \o " ")
    [] ch = "," -> Out(D(m, 1), Esc(a))
    [] ch = "g" -> LET n == Dim(m) IN R1(m, n, Get(Field(m), VAdd(VecAt(m, 0, n), m.ip.sto)))
    [] ch = "p" -> LET n == Dim(m) IN PutAt(D(m, n + 1), VAdd(VecAt(m, 0, n), m.ip.sto), A(m, n + 1))

-----------------------------------------------------------------------------
SkipLimit == 3000
(* Nothing but the pointer changes while it passes over cells: when it is  *)
(* again as it was, it will never stop.  n counts down the cells passed    *)
(* over; mark is the pointer at the last power of two of them.             *)
IsPow2(k) == k \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
(* the cells between two ; are passed over *)
SkipBlock == 60
RECURSIVE ToSemiB(_,_)
ToSemiB(m, n) == LET m1 == Nx(m) IN
                 IF Here(m1) = "59" \/ m1.ip.stop THEN m1
                 ELSE IF n = 1 THEN Err(m1, "more") ELSE ToSemiB(m1, n - 1)
ToSemi(m0) ==
  LET m == ToSemiB(m0, SkipBlock) IN
  IF m.err # "more" THEN m
  ELSE LET Next(x, k) == IF x.err # "more" THEN x ELSE ToSemiB([x EXCEPT !.err = "none"], SkipBlock)
           r == FoldLeft(Next, m, [k \in 1..(SkipLimit \div SkipBlock) |-> k])
       IN  IF r.err = "more" THEN Err(r, "diverge") ELSE r
RECURSIVE NxN(_,_)
NxN(m, n) == IF n = 0 THEN m ELSE NxN(Nx(m), n - 1)

(* { and } *)
Begin(m) ==
  LET n == A(m, 1)
      k == T(m)
      m1 == D(m, 1)
      cnt == IF Small(n) THEN I(n) ELSE 0
      vals == [i \in 1..cnt |-> SGet(m1, k, i)]
      sss == SubSeq(m1.ip.ss, 1, k) \o <<<< >>>> \o SubSeq(m1.ip.ss, k + 1, Len(m1.ip.ss))
      m2 == [m1 EXCEPT !.ip.ss = sss]
      m3 == IF cnt > 0 THEN SPushAll(SDrop(m2, k, cnt), k + 1, Rev(vals))
            ELSE SPushAll(m2, k, [i \in 1..(-cnt) |-> "0"])
      m4 == SPushAll(m3, k, VecSeq(m.ip.sto, Dim(m)))
      m5 == [m4 EXCEPT !.ip.sto = VAdd(m.ip.pos, m.ip.dlt)]
      m6 == IF Mode(m, "switch") THEN PutHere(m5, Ord("}")) ELSE m5
  IN  IF Small(n) THEN m6 ELSE GiveUp(m)
(* the selected stack disappears; the one below is selected if it was not the last above *)
RemoveStack(m) ==
  LET k == T(m)
      q == SubSeq(m.ip.ss, 1, k - 1) \o SubSeq(m.ip.ss, k + 1, Len(m.ip.ss))
  IN  [m EXCEPT !.ip.ss = q, !.ip.sel = IF @ > 0 /\ @ >= Len(q) THEN @ - 1 ELSE @]
End(m) ==
  LET k == T(m)
      n == A(m, 1)
      m1 == D(m, 1)
      d == Dim(m)
      v == VecAtS(m1, k - 1, 0, d)
      m2 == [SDrop(m1, k - 1, d) EXCEPT !.ip.sto = v]
      cnt == I(n)
      m3 == IF cnt > 0 THEN SPushAll(m2, k - 1, Rev([i \in 1..cnt |-> A(m2, i)]))
            ELSE SDrop(m2, k - 1, -cnt)
      m4 == IF k > 1 THEN (IF Small(n) THEN RemoveStack(m3) ELSE GiveUp(m)) ELSE Fail(m)
  IN  IF Mode(m, "switch") THEN PutHere(m4, Ord("{")) ELSE m4
Under(m) ==
  LET k == T(m)
      n == A(m, 1)
      m1 == D(m, 1)
      cnt == I(n)
  IN  IF k < 2 THEN Fail(m)
      ELSE IF ~ Small(n) THEN GiveUp(m)
      ELSE IF cnt > 0 THEN SPushAll(SDrop(m1, k - 1, cnt), k, [i \in 1..cnt |-> SGet(m1, k - 1, i)])
      ELSE SPushAll(D(m1, -cnt), k - 1, [i \in 1..(-cnt) |-> A(m1, i)])

-----------------------------------------------------------------------------
(* y: the system information, as pushed.  The recorder stops the clock at  *)
(* 2023-11-14 22:13:20.                                                    *)
Handprint == "1179527979"           \* "FN++"
NowTime == W(22 * 65536 + 13 * 256 + 20)
NowDate == W(123 * 65536 + 11 * 256 + 14)
RECURSIVE StackSizes(_,_,_)
(* sizes from the bottom stack up to the one below the topmost; done values *)
(* have been pushed already, which counts if the stack in use is one of them *)
StackSizes(m, j, done) ==
  IF j >= Len(m.ip.ss) THEN << >>
  ELSE <<W(Len(m.ip.ss[j]) + (IF j = T(m) THEN done ELSE 0))>> \o StackSizes(m, j + 1, done + 1)
StrsCells(q) == FoldLeft(LAMBDA a, s : a \o StrCells(s), << >>, Rev(q))
SysInfoList(m) ==
  LET u == U(m) n == u.dim
      env == <<"0", "0">> \o StrsCells(u.env)
      args == env \o <<"0", "0">> \o StrsCells(u.args)
      sizes == args \o StackSizes(m, 1, Len(args)) \o <<W(Size(m)), W(Len(m.ip.ss))>>
  IN  sizes \o <<NowTime, NowDate>>
      \o [i \in 1..n |-> WSub(u.f.mx[i], u.f.mn[i])]
      \o [i \in 1..n |-> u.f.mn[i]]
      \o VecSeq(m.ip.sto, n) \o VecSeq(m.ip.dlt, n) \o VecSeq(m.ip.pos, n)
      \o <<"0", m.ip.id, W(n), "47", "1", "1", Handprint, "8",
           W(16 + (IF u.conc THEN 1 ELSE 0) + (IF u.exec THEN 8 ELSE 0) + (IF u.fsys THEN 6 ELSE 0))>>
SysInfo(m) ==
  LET n == A(m, 1)
      m1 == D(m, 1)
      l == SysInfoList(m1)
      m2 == PL(m1, l)
      v == IF WLt("0", n) /\ Fits(n) THEN A(m2, I(n)) ELSE "0"
  IN  IF WLt("0", n) THEN P(D(m2, Len(l)), v) ELSE m2

-----------------------------------------------------------------------------
(* files *)
(* m.cwd and places are lists of names; a directory's name ends with "/"   *)
DirOf(l) == FoldLeft(LAMBDA a, d : a \o d \o "/", "", l)
IsDirL(m, l) == l = << >> \/ DirOf(l) \in DOMAIN m.fs
NameOf(l) == LET d == DirOf(l) IN SubSeq(d, 1, Len(d) - 1)
PathParts(q) == SelectSeq(SplitOn(q, "47"), LAMBDA x : x # << >>)
(* the place a path leads to: <<"ok", names>> if there are directories all *)
(* the way to it, "none" if there are not, "out" for a place this          *)
(* description knows nothing about                                         *)
Place(m, q) ==
  IF q = << >> THEN <<"none", << >>>> ELSE IF q[1] = "47" THEN <<"out", << >>>> ELSE
  FoldLeft(LAMBDA s, p :
             IF s[1] # "ok" THEN s
             ELSE IF ~ IsDirL(m, s[2]) \/ Len(p) > 255 THEN <<"none", << >>>>
             ELSE IF p = <<"46">> THEN s
             ELSE IF p # <<"46","46">> THEN <<"ok", Append(s[2], Text(p))>>
             ELSE IF s[2] = << >> THEN <<"out", << >>>>
             ELSE <<"ok", SubSeq(s[2], 1, Len(s[2]) - 1)>>, <<"ok", m.cwd>>, PathParts(q))
(* the path can only be a directory's *)
Dirty(q) == \/ q[Len(q)] = "47"
            \/ LET ps == PathParts(q) IN ps # << >> /\ ps[Len(ps)] \in {<<"46">>, <<"46","46">>}
(* the file a path names, "" if it can be none's, "?" if unknown *)
UpToNul(q) == LET S == {i \in 1..Len(q) : q[i] = "0"} IN
              IF S = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in S : \A j \in S : i <= j) - 1)
FileAt(m, q0) == LET q == UpToNul(q0) s == Place(m, q) IN
                IF s[1] = "out" THEN "?" ELSE IF s[1] = "none" THEN "" ELSE IF Dirty(q) \/ s[2] = << >> THEN "" ELSE NameOf(s[2])
IsFile(m, p) == p \in DOMAIN m.fs
IsDir(m, p) == (p \o "/") \in DOMAIN m.fs
(* a file of that name can be created *)
Creatable(m, p) == p # "" /\ ~ IsDir(m, p)
PutFile(m, p, bytes) == [m EXCEPT !.fs = IF p \in DOMAIN @ THEN [@ EXCEPT ![p] = bytes] ELSE @ @@ (p :> bytes)]

FileIn(m) ==
  IF ~ U(m).fsys THEN Err(m, "notavail") ELSE
  LET n == Dim(m)
      k == StrLen(m, 0)
      name == FileAt(m, StrAt(m, 0))
      flags == A(m, k + 2)
      va == VAdd(VecAt(m, k + 2, n), m.ip.sto)
      m1 == D(m, k + 2 + n)
      bin == WAnd(flags, "1") = "1"
      r == ParseText(Field(m), va, m.fs[name], U(m).fd, bin)
      \* watched cells it stores to: not described
      seen == U(m).wat # {} /\ Mode(m, "debug")
              /\ U(m).wat \cap DOMAIN ParseText(NewSpace(FALSE), va, m.fs[name], U(m).fd, bin).f.c # {}
      m2 == [SetField(m1, r.f) EXCEPT !.us[m.ip.u].fd = IF @ = 0 THEN r.f.nd ELSE @]
  IN  IF name = "?" THEN GiveUp(m)
      ELSE IF ~ IsFile(m, name) THEN Fail(m1)
      ELSE IF seen THEN GiveUp(m)
      ELSE PushVec(PushVec(m2, r.size), va)
FileOut(m) ==
  IF ~ U(m).fsys THEN Err(m, "notavail") ELSE
  LET n == Dim(m)
      k == StrLen(m, 0)
      name == FileAt(m, StrAt(m, 0))
      flags == A(m, k + 2)
      va == VAdd(VecAt(m, k + 2, n), m.ip.sto)
      vb == VecAt(m, k + 2 + n, n)
      m1 == D(m, k + 2 + 2 * n)
  IN  IF name = "?" THEN GiveUp(m)
      ELSE IF ~ Creatable(m, name) THEN Fail(m1)
      ELSE IF ~ (Small(vb[1]) /\ (VD = 1 \/ Small(vb[2]))) THEN GiveUp(m)
      ELSE PutFile(m1, name, DumpText(Field(m), va, vb, WAnd(flags, "1") = "0"))

(* commands: only a few are described *)
Shell(m, cmd) ==       \* <<machine, status>>
  IF cmd = "true" \/ cmd = "" THEN <<m, IF cmd = "" THEN "0" ELSE "0">>
  ELSE IF cmd = "false" THEN <<m, "256">>
  ELSE IF StartsWith(cmd, "exit ") THEN <<m, WMul(NumOf(Codes(SubSeq(cmd, 6, Len(cmd)))), "256")>>
  ELSE IF StartsWith(cmd, "touch ")
       THEN LET p == FileAt(m, Bytes(SubSeq(cmd, 7, Len(cmd)))) IN
            <<IF p = "?" \/ ~ Creatable(m, p) THEN GiveUp(m) ELSE IF p \in DOMAIN m.fs THEN m ELSE PutFile(m, p, << >>), "0">>
  ELSE IF StartsWith(cmd, "echo ") THEN <<[m EXCEPT !.all = @ \o Text(Codes(SubSeq(cmd, 6, Len(cmd))) \o <<LF>>)], "0">>
  ELSE <<GiveUp(m), "0">>
Execute(m) ==
  IF ~ U(m).exec THEN Err(m, "notavail") ELSE
  LET k == StrLen(m, 0)
      r == Shell(D(m, k + 1), Text(StrAt(m, 0)))
  IN  P(r[1], r[2])

-----------------------------------------------------------------------------
(* quitting: every pointer of this universe ends *)
KillAll(m, code) ==
  LET u == m.ip.u
      ids == {x \in DOMAIN m.ips : m.ips[x].u = u /\ x \in ToSet(m.us[u].q)}
  IN  [m EXCEPT !.us[u].run = FALSE, !.us[u].code = code,
                !.ips = [x \in DOMAIN @ |-> IF x \in ids THEN [@[x] EXCEPT !.stop = TRUE] ELSE @[x]],
                !.ip.stop = IF m.ip.id \in ToSet(m.us[u].q) THEN TRUE ELSE @]

Exec98(m, ch) ==
  LET a == A(m, 1) b == A(m, 2) IN
  CASE ch \in DOMAIN HexVal -> P(m, HexVal[ch])
    [] ch = "y" -> SysInfo(m)
    [] ch = "z" -> m
    [] ch = ";" -> LET r == ToSemi(m) IN IF r.err = "diverge" THEN r ELSE Err(r, "skip")
    [] ch = "j" -> LET j == WInt32(a) m1 == D(m, 1) IN
                   IF ~ Small(j) THEN GiveUp(m)
                   ELSE IF I(j) < 0 THEN Reflect(NxN(Reflect(m1), -I(j))) ELSE NxN(m1, I(j))
    [] ch = "r" -> Reflect(m)
    [] ch = "x" -> LET n == Dim(m) IN SetDelta(D(m, n), VecAt(m, 0, n))
    [] ch = "q" -> KillAll(D(m, 1), WByte(a))
    [] ch = "n" -> [m EXCEPT !.ip.ss[T(m)] = << >>]
    [] ch = "u" -> Under(m)
    [] ch = "{" -> Begin(m)
    [] ch = "}" -> End(m)
    [] ch = "i" -> FileIn(m)
    [] ch = "o" -> FileOut(m)
    [] ch = "=" -> Execute(m)
    [] ch = "'" -> LET m1 == Nx(m) IN P(m1, Here(m1))
    [] ch = "s" -> LET m1 == Nx(m) IN PutHere(D(m1, 1), A(m1, 1))
    [] ch = "[" -> LET m1 == [m EXCEPT !.ip.dlt = TurnLeft(@)] IN
                   IF Mode(m, "switch") THEN PutHere(m1, Ord("]")) ELSE m1
    [] ch = "]" -> LET m1 == [m EXCEPT !.ip.dlt = TurnRight(@)] IN
                   IF Mode(m, "switch") THEN PutHere(m1, Ord("[")) ELSE m1
    [] ch = "w" -> LET m1 == D(m, 2) IN
                   IF WLt(b, a) THEN [m1 EXCEPT !.ip.dlt = TurnLeft(@)]
                   ELSE IF WLt(a, b) THEN [m1 EXCEPT !.ip.dlt = TurnRight(@)] ELSE m1
    [] ch = "h" -> SetDelta(m, Unit(3, IF U(m).ihl THEN "-1" ELSE "1"))
    [] ch = "l" -> SetDelta(m, Unit(3, IF U(m).ihl THEN "1" ELSE "-1"))
    [] ch = "m" -> If(m, 3)
=============================================================================
