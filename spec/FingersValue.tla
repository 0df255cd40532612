---------------------------- MODULE FingersValue ----------------------------
(***************************************************************************)
(* Fingerprints that compute on the stack (and print or read): BASE, BITW, *)
(* BOOL, CPLI, FIXP, FPDP, FPSP, FPRT, FRTH, HRTI, STRN, PERL.             *)
(* Each operator takes the machine and the letter.                         *)
(***************************************************************************)
EXTENDS Core, Format

(* A value that comes from the environment (a clock, a random source, the  *)
(* last bits of a transcendental function): the recorded one if it is      *)
(* allowed, otherwise one that is.  At most one per turn is known.         *)
EnvPush(m, allowed(_), default) ==
  IF m.nval > 0 THEN GiveUp(m)
  ELSE LET v == IF Mode(m, "invert") THEN m.val[1] ELSE m.val[2] IN
       P([m EXCEPT !.nval = 1], IF v # "none" /\ allowed(v) THEN v ELSE default)

PushStr(m, q) == PL(m, StrCells(q))

-----------------------------------------------------------------------------
DigitMap == Codes("0123456789ABCDEFGHJKMNPQRSTVWXYZ")
BaseMap == [b \in {"36","58","64","85"} |->
   CASE b = "36" -> Codes("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")
     [] b = "58" -> Codes("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
     [] b = "64" -> Codes("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
     [] b = "85" -> Codes("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~")]
(* the base is an unsigned 32-bit number *)
UBase(w) == WAnd(w, "4294967295")
ShowBase(n, b) ==
  IF b \in {"0", "1"} THEN FoldLeft(LAMBDA a, i : a \o "0", "", [i \in 1..(IF WLt(n, "0") THEN 0 ELSE I(n)) |-> i])
  ELSE LET ds == UDigits(n, b)
           k == Len(ds)
           dig(i) == IF WLe(b, "32") THEN Esc(DigitMap[I(ds[i]) + 1])
                     ELSE IF b \in DOMAIN BaseMap THEN Esc(BaseMap[b][I(ds[i]) + 1])
                     ELSE ds[i] \o (IF i < k THEN "," ELSE "")
       IN  (IF WLt(n, "0") THEN "-" ELSE "") \o FoldLeft(LAMBDA a, i : a \o dig(i), "", [i \in 1..k |-> i])
PrintBase(m, n, b) == IF b \in {"0", "1"} /\ ~ (WLt(n, "0") \/ Small(n)) THEN GiveUp(m)
                      ELSE Out(m, ShowBase(n, b) \o " ")
IsSpaceB(b) == b \in {"32", "9", "10", "11", "12", "13"}
Upper(b) == IF WLe("97", b) /\ WLe(b, "122") THEN WSub(b, "32") ELSE b
(* a blank-delimited token of the input *)
Token(m) ==
  LET RECURSIVE Skip(_), Go(_)
      Skip(i) == IF i > Len(m.inp) \/ ~ IsSpaceB(m.inp[i]) THEN i ELSE Skip(i + 1)
      Go(i) == IF i > Len(m.inp) \/ IsSpaceB(m.inp[i]) THEN i ELSE Go(i + 1)
      s == Skip(1)
      e == Go(s)
  IN  [tok |-> SubSeq(m.inp, s, e - 1), rest |-> SubSeq(m.inp, e, Len(m.inp))]
ReadBase(q, b) ==
  LET val(c) == LET S == {i \in 1..I(b) : DigitMap[i] = Upper(c)} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : TRUE) - 1
      one(a, c) == IF a.end \/ val(c) < 0 THEN [a EXCEPT !.end = TRUE]
                   ELSE [a EXCEPT !.n = WAdd(WMul(@, b), W(val(c)))]
  IN  FoldLeft(one, [n |-> "0", end |-> FALSE], q).n
BASE(m, c) ==
  LET a == A(m, 1) b == A(m, 2) IN
  CASE c = "B" -> PrintBase(D(m, 1), a, "2")
    [] c = "H" -> PrintBase(D(m, 1), a, "16")
    [] c = "O" -> PrintBase(D(m, 1), a, "8")
    [] c = "N" -> PrintBase(D(m, 2), b, UBase(a))
    [] c = "I" -> LET t == Token(m) u == UBase(a)
                      n == IF u \in {"0", "1"} THEN W(Len(t.tok)) ELSE IF WLe(u, "32") THEN ReadBase(t.tok, u) ELSE "0"
                  IN  P([D(m, 1) EXCEPT !.inp = t.rest], n)

BITW(m, c) ==
  LET a == A(m, 1) b == A(m, 2) IN
  CASE c = "A" -> R1(m, 2, WAnd(b, a))
    [] c = "L" -> R1(m, 2, WShl(b, a))
    [] c = "N" -> R1(m, 1, WInv(a))
    [] c = "O" -> R1(m, 2, WOr(b, a))
    [] c = "R" -> R1(m, 2, WShr(b, a))
    [] c = "X" -> R1(m, 2, WXor(b, a))
BOOL(m, c) == BITW(m, c)

CPLI(m, c) ==
  LET bi == A(m, 1) br == A(m, 2) ai == A(m, 3) ar == A(m, 4) IN
  CASE c = "A" -> PL(D(m, 4), <<WAdd(ar, br), WAdd(ai, bi)>>)
    [] c = "S" -> PL(D(m, 4), <<WSub(ar, br), WSub(ai, bi)>>)
    [] c = "M" -> PL(D(m, 4), <<WSub(WMul(ar, br), WMul(ai, bi)), WAdd(WMul(ar, bi), WMul(ai, br))>>)
    [] c = "D" -> LET q == CDivW(ar, ai, br, bi)
                      m1 == D(m, 4)
                      r == IF q[1] = q[2] THEN <<m1, q[1]>> ELSE <<Drawn(m1, 2), q[Draw(m1, 2) + 1]>>
                      i == IF q[3] = q[4] THEN <<r[1], q[3]>> ELSE <<Drawn(r[1], 2), q[Draw(r[1], 2) + 3]>>
                  IN  IF q = NoSeq THEN GiveUp(m) ELSE PL(i[1], <<r[2], i[2]>>)
    [] c = "O" -> Out(D(m, 2), CASE bi = "0" -> br \o " "
                                 [] br = "0" -> bi \o "i "
                                 [] WLt(bi, "0") -> br \o bi \o "i "
                                 [] OTHER -> br \o "+" \o bi \o "i ")
    [] c = "V" -> LET h == HypotW(br, bi) IN IF h = "?" THEN GiveUp(m) ELSE R1(m, 2, h)

FixName == ("B" :> "acos") @@ ("C" :> "cos") @@ ("I" :> "sin") @@ ("J" :> "asin") @@ ("T" :> "tan") @@ ("U" :> "atan")
FIXP(m, c) ==
  LET a == A(m, 1) b == A(m, 2) IN
  CASE c = "A" -> R1(m, 2, WAnd(b, a))
    [] c = "O" -> R1(m, 2, WOr(b, a))
    [] c = "X" -> R1(m, 2, WXor(b, a))
    [] c = "N" -> R1(m, 1, WNeg(a))
    [] c = "S" -> R1(m, 1, IF WLt("0", a) THEN "1" ELSE IF WLt(a, "0") THEN "-1" ELSE "0")
    [] c = "V" -> R1(m, 1, IF WLt(a, "0") THEN WNeg(a) ELSE a)
    [] c = "P" -> R1(m, 1, PiW(a))
    [] c = "Q" -> R1(m, 1, SqrtW(a))
    [] c = "R" -> LET r == PowW(b, a) IN IF r = "?" THEN GiveUp(m) ELSE R1(m, 2, r)
    [] c = "D" -> IF WLt(a, "0") \/ ~ Fits(a) THEN GiveUp(m)
                  ELSE EnvPush(D(m, 1), LAMBDA v : WLe("0", v) /\ WLe(v, a), "0")
    [] OTHER   -> LET f(k) == FxFun(FixName[c], a, k) IN
                  IF f(-1) = f(1) THEN R1(m, 1, f(0))
                  ELSE R1(Drawn(m, 2), 1, f(IF Draw(m, 2) = 0 THEN -1 ELSE 1))

-----------------------------------------------------------------------------
FunName == ("B" :> "sin") @@ ("C" :> "cos") @@ ("E" :> "asin") @@ ("G" :> "atan") @@ ("H" :> "acos")
           @@ ("K" :> "log") @@ ("L" :> "log10") @@ ("T" :> "tan") @@ ("X" :> "exp")
(* x up to n units in the last place *)
PushD(m, x, n) == EnvPush(m, LAMBDA v : DNear(v, x, n), x)
FPDP(m, c) ==
  LET b == A(m, 1) a == A(m, 2) IN
  CASE c = "A" -> PushD(D(m, 2), DAdd(a, b), 0)
    [] c = "S" -> PushD(D(m, 2), DSub(a, b), 0)
    [] c = "M" -> PushD(D(m, 2), DMul(a, b), 0)
    [] c = "D" -> PushD(D(m, 2), DDiv(a, b), 0)
    [] c = "Y" -> PushD(D(m, 2), DPow(a, b), 4)
    [] c = "F" -> R1(m, 1, DOfW(b))
    [] c = "I" -> R1(m, 1, DToW(b))
    [] c = "N" -> PushD(D(m, 1), DNegate(b), 0)
    [] c = "V" -> PushD(D(m, 1), DAbs(b), 0)
    [] c = "Q" -> PushD(D(m, 1), DSqrt(b), 0)
    [] c = "P" -> Out(D(m, 1), DShowF6(b) \o " ")
    [] c = "R" -> LET k == StrLen(m, 0) d == ParseD(StrAt(m, 0)) IN
                  IF d = "?" THEN GiveUp(m) ELSE IF d = "bad" THEN Fail(D(m, k + 1)) ELSE R1(m, k + 1, d)
    [] OTHER   -> PushD(D(m, 1), DFun(FunName[c], b), 4)
Lo32(w) == WAnd(w, "4294967295")
PushF(m, x, n) == EnvPush(m, LAMBDA v : FNear(v, x, n), x)
FPSP(m, c) ==
  LET b == Lo32(A(m, 1)) a == Lo32(A(m, 2)) IN
  CASE c = "A" -> PushF(D(m, 2), FAdd(a, b), 0)
    [] c = "S" -> PushF(D(m, 2), FSub(a, b), 0)
    [] c = "M" -> PushF(D(m, 2), FMul(a, b), 0)
    [] c = "D" -> PushF(D(m, 2), FDiv(a, b), 0)
    [] c = "Y" -> PushF(D(m, 2), FOfD(DPow(DOfF(a), DOfF(b))), 4)
    [] c = "F" -> R1(m, 1, FOfW(A(m, 1)))
    [] c = "I" -> R1(m, 1, FToW(b))
    [] c = "N" -> PushF(D(m, 1), FNegate(b), 0)
    [] c = "V" -> PushF(D(m, 1), FAbs(b), 0)
    [] c = "Q" -> PushF(D(m, 1), FSqrt(b), 0)
    [] c = "P" -> Out(D(m, 1), FShowF6(b) \o " ")
    [] c = "R" -> LET k == StrLen(m, 0) d == ParseD(StrAt(m, 0)) IN
                  IF d = "?" THEN GiveUp(m) ELSE IF d = "bad" THEN Fail(D(m, k + 1)) ELSE R1(m, k + 1, FOfD(d))
    [] OTHER   -> PushF(D(m, 1), FOfD(DFun(FunName[c], DOfF(b))), 4)

FPRT(m, c) ==
  LET n == IF c = "L" THEN 2 ELSE IF c = "S" THEN StrLen(m, 0) + 1 ELSE 1    \* cells of the argument
      k == StrLen(m, n)
      fmt == StrAt(m, n)
      arg == CASE c = "L" -> WOr(WShl(A(m, 2), "32"), Lo32(A(m, 1)))
               [] c = "S" -> StrAt(m, 0)
               [] OTHER -> A(m, 1)
      kind == CASE c = "D" -> "double" [] c = "F" -> "float" [] c = "S" -> "string" [] OTHER -> "int"
      r == Printf(fmt, kind, arg)
  IN  IF r = NoSeq THEN GiveUp(m) ELSE PushStr(D(m, n + k + 1), r)

-----------------------------------------------------------------------------
(* the u-th value (from 0) moved to the top; u negative: the top moved below |u| others *)
Roll(m) ==
  LET u == A(m, 1)
      m1 == D(m, 1)
      n == IF WLt(u, "0") THEN -I(u) ELSE I(u)
      ps == [i \in 1..(n + 1) |-> A(m1, i)]
      m2 == D(m1, n + 1)
  IN  IF ~ Small(u) THEN GiveUp(m)
      ELSE IF WLt(u, "0") THEN PL(m2, <<ps[1]>> \o [i \in 1..n |-> ps[n + 2 - i]])
      ELSE PL(m2, [i \in 1..n |-> ps[n + 1 - i]] \o <<ps[n + 1]>>)
Pick(m) == LET u == A(m, 1) m1 == D(m, 1) IN
           IF WLt(u, "0") THEN Fail(m1) ELSE P(m1, IF Small(u) THEN A(m1, I(u) + 1) ELSE "0")
FRTH(m, c) ==
  CASE c = "D" -> P(m, W(Size(m)))
    [] c = "L" -> Roll(m)
    [] c = "O" -> PL(D(m, 2), <<A(m, 2), A(m, 1), A(m, 2)>>)
    [] c = "P" -> Pick(m)
    [] c = "R" -> PL(D(m, 3), <<A(m, 2), A(m, 1), A(m, 3)>>)

HRTI(m, c) ==
  LET mark == m.ip.fst.HRTI.mark IN
  CASE c = "E" -> [m EXCEPT !.ip.fst.HRTI.mark = "none"]
    [] c = "G" -> P(m, "1")
    [] c = "M" -> [m EXCEPT !.ip.fst.HRTI.mark = m.clk]
    [] c = "S" -> P(m, WRem(WDiv(m.clk, "1000"), "1000000"))
    [] c = "T" -> IF mark # "none" THEN P(m, WDiv(WSub(m.clk, mark), "1000")) ELSE Fail(m)

-----------------------------------------------------------------------------
STRN(m, c) ==
  LET a == A(m, 1)
      k == StrLen(m, 0)  s == StrAt(m, 0)                \* the string on top
      k2 == StrLen(m, k + 1)  t == StrAt(m, k + 1)       \* the one below it
      k1 == StrLen(m, 1)  s1 == StrAt(m, 1)              \* the one below a number
      n == Dim(m)
  IN
  CASE c = "A" -> PushStr(D(m, k + k2 + 2), s \o t)
    [] c = "C" -> LET r == CmpSeq(s, t) IN
                  EnvPush(D(m, k + k2 + 2), LAMBDA v : (r = 0 /\ v = "0") \/ (r < 0 /\ WLt(v, "0")) \/ (r > 0 /\ WLt("0", v)), W(r))
    [] c = "D" -> Out(D(m, k + 1), Text(s))
    [] c = "F" -> LET j == FindSeq(s, t) m1 == D(m, k + k2 + 2) IN
                  PushStr(m1, IF j < 0 THEN << >> ELSE SubSeq(s, j + 1, Len(s)))
    [] c = "G" -> LET v == VAdd(VecAt(m, 0, n), m.ip.sto)
                      RECURSIVE Go(_,_,_)
                      Go(p, q, j) == LET w == Get(Field(m), p) IN
                                     IF w = "0" THEN q ELSE IF j = 0 THEN NoSeq
                                     ELSE Go([p EXCEPT ![1] = WAdd(@, "1")], Append(q, WByte(w)), j - 1)
                      q == Go(v, << >>, 2000)
                  IN  IF q = NoSeq THEN Err(m, "diverge") ELSE PushStr(D(m, n), q)
    [] c = "I" -> LET S == {i \in 1..Len(m.inp) : m.inp[i] = LF}
                      e == IF S = {} THEN Len(m.inp) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
                  IN  PushStr([m EXCEPT !.inp = SubSeq(@, e + 1, Len(@))], SubSeq(m.inp, 1, e - 1))
    [] c = "L" -> IF WLt(a, "0") THEN Fail(D(m, 1))
                  ELSE PushStr(D(m, k1 + 2), IF WLe(W(k1), a) THEN s1 ELSE SubSeq(s1, 1, I(a)))
    [] c = "R" -> IF WLt(a, "0") THEN Fail(D(m, 1))
                  ELSE PushStr(D(m, k1 + 2), IF WLe(W(k1), a) THEN s1 ELSE SubSeq(s1, k1 - I(a) + 1, k1))
    [] c = "M" -> LET b == A(m, 2)
                      km == StrLen(m, 2)  sm == StrAt(m, 2)
                      from == I(b) + 1
                      len == IF WLe(W(km), a) THEN km ELSE I(a)
                  IN  IF WLt(a, "0") \/ WLt(b, "0") THEN Fail(D(m, 2))
                      ELSE IF WLt(W(km), b) THEN Fail(D(m, km + 3))
                      ELSE PushStr(D(m, km + 3), SubSeq(sm, from, IF from + len - 1 > km THEN km ELSE from + len - 1))
    [] c = "N" -> P(PushStr(D(m, k + 1), s), W(k))
    [] c = "P" -> LET v == VAdd(VecAt(m, 0, n), m.ip.sto)
                      kp == StrLen(m, n)  sp == StrAt(m, n)
                      at(i) == [v EXCEPT ![1] = WAdd(@, W(i))]
                      m1 == FoldLeft(LAMBDA x, i : PutAt(x, at(i - 1), WChar(sp[i])), D(m, n + kp + 1), [i \in 1..kp |-> i])
                  IN  PutAt(m1, at(kp), "0")
    [] c = "S" -> PushStr(D(m, 1), Codes(a))
    [] c = "V" -> LET v == ParseLL(s) IN IF v = "bad" THEN Fail(D(m, k + 1)) ELSE R1(m, k + 1, v)

-----------------------------------------------------------------------------
(* Perl: only numerals, sums of two numerals and print of a numeral are described; the *)
(* result is the low byte, as the perl process's exit status                            *)
AllDigits(q) == Len(q) > 0 /\ Len(q) < 8 /\ \A i \in 1..Len(q) : IsDigit(q[i])
PerlEval(m, q) ==        \* <<machine, result>> 
  LET plus == SplitOn(q, "43") IN
  IF AllDigits(q) /\ q[1] # "48" THEN <<m, WByte(NumOf(q))>>
  ELSE IF Len(plus) = 2 /\ AllDigits(plus[1]) /\ AllDigits(plus[2]) /\ plus[1][1] # "48" /\ plus[2][1] # "48"
       THEN <<m, WByte(WAdd(NumOf(plus[1]), NumOf(plus[2])))>>
  ELSE IF Len(q) > 6 /\ SubSeq(q, 1, 6) = Codes("print ") /\ AllDigits(SubSeq(q, 7, Len(q))) /\ q[7] # "48"
       THEN <<[m EXCEPT !.all = @ \o Text(SubSeq(q, 7, Len(q)))], "1">>
  ELSE <<GiveUp(m), "0">>
PERL(m, c) ==
  LET k == StrLen(m, 0) r == PerlEval(D(m, k + 1), StrAt(m, 0)) IN
  CASE c = "S" -> P(m, "1")
    [] ~ U(m).exec -> Fail(m)
    [] c = "E" -> PushStr(r[1], Codes(r[2]))
    [] c = "I" -> P(r[1], r[2])
=============================================================================
