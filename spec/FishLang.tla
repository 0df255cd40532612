------------------------------ MODULE FishLang ------------------------------
(***************************************************************************)
(* ><> and *><>.  Values are real numbers: every stack cell holds a        *)
(* binary64 number.  An instruction that cannot be executed ends all       *)
(* pointers of the universe with status 1 ("something smells fishy...").   *)
(***************************************************************************)
EXTENDS FingersSpace

FishOps == {"sp","0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f",">","<","v","^","\\","/","|","_","#",
            "x","!","?",".","+","-","*",",","%","=",")","(","'","\"",":","~","$","@","l","{","}","r","[","]","o","n","i",
            "&","g","p",";"}
StarOps == {"`","C","R","u","O","I","D","F","S","h","m","s"}
FishMoves == {">","<","v","^","\\","/","|","_","#"}
StarMoves == FishMoves \cup {"`","u","O"}

Has(m, n) == Size(m) >= n
FPush(m, w) == P(m, DOfW(w))           \* an integer
FNum(b) == DOfW(Bool(b))
FVec(m, off) == VOf([j \in 1..Dim(m) |-> DToW(A(m, off + Dim(m) - j + 1))])
FVecBelow(m) == VOf([j \in 1..Dim(m) |-> DToW(SGet(m, T(m) - 1, Dim(m) - j + 1))])
NotANumber(x) == ~ DEq(x, x)
Regs(m) == m.ip.fi.regs
NoReg == [set |-> FALSE, value |-> "0"]

(* a new stack above the one in use, which becomes the one in use *)
InsertAbove(m) == LET k == T(m) IN
  [m EXCEPT !.ip.ss = SubSeq(@, 1, k) \o <<<< >>>> \o SubSeq(@, k + 1, Len(@))]
(* a new stack below it *)
InsertBelow(m) == LET k == T(m) IN
  [m EXCEPT !.ip.ss = SubSeq(@, 1, k - 1) \o <<<< >>>> \o SubSeq(@, k, Len(@))]

SplitStack(m) ==          \* [
  LET x == DToW(A(m, 1))
      m1 == D(m, 1)
      n == I(x)
      vals == [i \in 1..n |-> A(m1, i)]
      m2 == InsertAbove(SDrop(m1, T(m1), n))
  IN  IF ~ Has(m, 1) THEN Fail(m)
      ELSE IF WLt(x, "0") \/ ~ Small(x) \/ (Small(x) /\ I(x) > Size(m1)) THEN Fail(m1)
      ELSE [PL(m2, Rev(vals)) EXCEPT !.ip.fi.regs = Append(@, NoReg)]
JoinStack(m) ==           \* ]
  LET k == T(m)
      vals == AllVals(m)
      m1 == RemoveStack(SPushAll(Emptied(m), k - 1, Rev(vals)))
  IN  IF k < 2 THEN Fail(m)
      ELSE IF Len(Regs(m)) < 2 THEN GiveUp(m)
      ELSE [m1 EXCEPT !.ip.fi.regs = SubSeq(@, 1, Len(@) - 1)]
Register(m) ==
  LET n == Len(Regs(m)) IN
  IF n = 0 THEN GiveUp(m)
  ELSE IF Regs(m)[n].set THEN P([m EXCEPT !.ip.fi.regs[n] = NoReg], Regs(m)[n].value)
  ELSE IF Has(m, 1) THEN [D(m, 1) EXCEPT !.ip.fi.regs[n] = [set |-> TRUE, value |-> A(m, 1)]]
  ELSE Fail(m)
FishIn(m) ==
  LET f == m.ip.fi.file IN
  IF f.open THEN IF f.rest = << >> THEN FPush(m, "-1")
                 ELSE FPush([m EXCEPT !.ip.fi.file.rest = Tail(@)], f.rest[1])
  ELSE IF m.inp = << >> THEN FPush(m, "-1") ELSE FPush([m EXCEPT !.inp = Tail(@)], m.inp[1])

Bin(m, f(_,_)) == IF Has(m, 2) THEN R1(m, 2, f(A(m, 2), A(m, 1))) ELSE Fail(m)
FishExec(m, ch) ==
  LET a == A(m, 1) b == A(m, 2) d == m.ip.dlt n == Dim(m) IN
  CASE ch = "sp" -> Err(m, "skip")
    [] ch \in DOMAIN HexVal -> FPush(m, HexVal[ch])
    [] ch = ">" -> SetDelta(m, Unit(1, "1"))
    [] ch = "<" -> SetDelta(m, Unit(1, "-1"))
    [] ch = "v" -> SetDelta(m, Unit(2, "1"))
    [] ch = "^" -> SetDelta(m, Unit(2, "-1"))
    [] ch = "\\" -> SetDelta(m, MirrorD(d))
    [] ch = "/" -> SetDelta(m, MirrorU(d))
    [] ch = "|" -> SetDelta(m, [d EXCEPT ![1] = WNeg(@)])
    [] ch = "_" -> SetDelta(m, [d EXCEPT ![2] = WNeg(@)])
    [] ch = "#" -> SetDelta(m, [d EXCEPT ![1] = WNeg(@), ![2] = WNeg(@)])
    [] ch = "x" -> GoAway(m)
    [] ch = "!" -> Nx(m)
    [] ch = "?" -> IF ~ Has(m, 1) THEN Fail(m) ELSE IF DIsZero(a) THEN Nx(D(m, 1)) ELSE D(m, 1)
    [] ch = "." -> IF Has(m, n) THEN SetPos(D(m, n), FVec(m, 0)) ELSE Fail(m)
    [] ch = "+" -> Bin(m, DAdd)
    [] ch = "-" -> Bin(m, DSub)
    [] ch = "*" -> Bin(m, DMul)
    [] ch = "," -> IF Has(m, 2) /\ DIsZero(a) THEN Fail(D(m, 2)) ELSE Bin(m, DDiv)
    [] ch = "%" -> LET x == DToW(a) y == DToW(b) IN
                   IF ~ Has(m, 2) THEN Fail(m)
                   ELSE IF x = "0" THEN Fail(D(m, 2)) ELSE R1(m, 2, DOfW(WRem(y, x)))
    [] ch = "=" -> Bin(m, LAMBDA y, x : FNum(DEq(y, x)))
    [] ch = ")" -> Bin(m, LAMBDA y, x : FNum(DLt(x, y)))
    [] ch = "(" -> Bin(m, LAMBDA y, x : FNum(DLt(y, x)))
    [] ch = "'" -> [m EXCEPT !.ip.st = "string", !.ip.send = "39"]
    [] ch = "\"" -> [m EXCEPT !.ip.st = "string", !.ip.send = "34"]
    [] ch = ":" -> IF Has(m, 1) THEN PL(D(m, 1), <<a, a>>) ELSE Fail(m)
    [] ch = "~" -> IF Has(m, 1) THEN D(m, 1) ELSE Fail(m)
    [] ch = "$" -> IF Has(m, 2) THEN PL(D(m, 2), <<a, b>>) ELSE Fail(m)
    [] ch = "@" -> IF Has(m, 3) THEN Swap3(m) ELSE Fail(m)
    [] ch = "l" -> FPush(m, W(Size(m)))
    [] ch = "{" -> IF Has(m, 1) THEN ShiftL(m) ELSE Fail(m)
    [] ch = "}" -> IF Has(m, 1) THEN ShiftR(m) ELSE Fail(m)
    [] ch = "r" -> RevStack(m)
    [] ch = "[" -> SplitStack(m)
    [] ch = "]" -> JoinStack(m)
    [] ch = "o" -> IF Has(m, 1) THEN Out(D(m, 1), Esc(DToW(a))) ELSE Fail(m)
    [] ch = "n" -> IF ~ Has(m, 1) THEN Fail(m)
                   ELSE Out(D(m, 1), IF DIsInt(a) THEN DToW(a) ELSE DShow6(a))
    [] ch = "i" -> FishIn(m)
    [] ch = "&" -> Register(m)
    [] ch = "g" -> IF Has(m, n) THEN R1(m, n, DOfW(Get(Field(m), VAdd(FVec(m, 0), m.ip.sto)))) ELSE Fail(m)
    [] ch = "p" -> IF Has(m, n + 1) THEN PutAt(D(m, n + 1), VAdd(FVec(m, 0), m.ip.sto), DToW(A(m, n + 1))) ELSE Fail(m)
    [] ch = ";" -> [m EXCEPT !.ip.stop = TRUE]

-----------------------------------------------------------------------------
Call(m) ==
  LET n == Dim(m)
      m1 == InsertBelow(m)
      m2 == SPushAll(m1, T(m1) - 1, [j \in 1..n |-> DOfW(m.ip.pos[j])])
  IN  IF Has(m2, n) THEN SetPos(D(m2, n), FVec(m2, 0)) ELSE Fail(m2)
Return(m) ==
  LET k == T(m) n == Dim(m) IN
  IF k < 2 THEN Fail(m)
  ELSE IF Len(m.ip.ss[k - 1]) < n THEN Fail(m)
  ELSE [SetPos(m, FVecBelow(m)) EXCEPT !.ip.ss = SubSeq(@, 1, k - 2) \o SubSeq(@, k, Len(@))]
StarFile(m) ==
  LET x == DToW(A(m, 1))
      m1 == D(m, 1)
      n == I(x)
      ch == [i \in 1..n |-> WByte(DToW(A(m1, i)))]
      name == Rev(ch)
      path == FileAt(m, name)
      fi == m.ip.fi
      p == fi.fpath
  IN  IF ~ U(m).fsys THEN Err(m, "notavail")
      ELSE IF ~ Has(m, 1) THEN Fail(m)
      ELSE IF WLt(x, "0") \/ ~ Small(x) \/ (Small(x) /\ I(x) > Size(m1)) THEN Fail(m1)
      ELSE IF ~ fi.file.open
           THEN IF path = "?" \/ \E i \in 1..n : ch[i] \in {"0", "92"} THEN GiveUp(m)
                ELSE [D(m1, n) EXCEPT !.ip.fi.file = [open |-> TRUE, rest |-> IF IsFile(m, path) THEN m.fs[path] ELSE << >>],
                                      !.ip.fi.fpath = path]
      ELSE LET m2 == [D(m1, n) EXCEPT !.ip.fi.file = [open |-> FALSE, rest |-> << >>]] IN
           IF Creatable(m2, p) THEN PutFile(m2, p, ch) ELSE m2
StarExec(m, ch) ==
  LET a == A(m, 1) d == m.ip.dlt fi == m.ip.fi IN
  CASE ch = "`" -> IF d[2] = "0"
                   THEN [SetDelta(m, Unit(2, IF fi.up THEN "1" ELSE "-1")) EXCEPT !.ip.fi.up = ~ fi.up]
                   ELSE SetDelta(m, fi.last)
    [] ch = "C" -> Call(m)
    [] ch = "R" -> Return(m)
    [] ch = "u" -> Dive(m)
    [] ch = "O" -> Rise(m)
    [] ch = "I" -> SelUp(m)
    [] ch = "D" -> SelDown(m)
    [] ch = "F" -> StarFile(m)
    [] ch = "S" -> IF Has(m, 1) THEN D(m, 1) ELSE Fail(m)
    [] ch = "h" -> FPush(m, "22")
    [] ch = "m" -> FPush(m, "13")
    [] ch = "s" -> FPush(m, "20")
    [] OTHER -> FishExec(m, ch)
=============================================================================
