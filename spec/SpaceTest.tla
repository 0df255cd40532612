----------------------------- MODULE SpaceTest ------------------------------
(* Compares the Java overrides of Word64 and Space with their definitions. *)
EXTENDS Space
VARIABLE x
Small == {"-129", "-128", "-10", "-7", "-2", "-1", "0", "1", "2", "3", "7", "10", "31", "127", "128", "255", "1000"}
M == INSTANCE Word64Ref
Fits30(n) == n > -1000000000 /\ n < 1000000000
ASSUME \A a \in Small : W(I(a)) = a /\ I(a) = M!Val(a) /\ WNeg(a) = M!Repr(- M!Val(a)) /\ WInv(a) = M!Repr(-1 - M!Val(a))
                        /\ WByte(a) = M!Repr(M!Val(a) % 256) /\ WChar(a) = M!Repr(((M!Val(a) + 128) % 256) - 128)
ASSUME \A a, b \in Small :
   LET p == M!Val(a) q == M!Val(b) IN
   /\ WAdd(a, b) = M!Repr(p + q) /\ WSub(a, b) = M!Repr(p - q) /\ WMul(a, b) = M!Repr(p * q)
   /\ WDiv(a, b) = M!DivRef(a, b) /\ WRem(a, b) = M!RemRef(a, b)
   /\ (WLt(a, b) <=> p < q) /\ (WLe(a, b) <=> p <= q)
   /\ WMax(a, b) = (IF p < q THEN b ELSE a) /\ WMin(a, b) = (IF p < q THEN a ELSE b)
   /\ WAnd(a, b) = M!AndRef(a, b) /\ WOr(a, b) = M!OrRef(a, b) /\ WXor(a, b) = M!XorRef(a, b)
ASSUME \A a \in Small, n \in {"0", "1", "2", "5"} : WShl(a, n) = M!Repr(M!Val(a) * 2^(M!Val(n))) /\ WShr(a, n) = M!Repr(M!Val(a) \div 2^(M!Val(n)))
(* wrap-around corners, from the definition by hand *)
ASSUME /\ WAdd(MaxWord, "1") = MinWord /\ WSub(MinWord, "1") = MaxWord /\ WNeg(MinWord) = MinWord
       /\ WMul(MinWord, "-1") = MinWord /\ WDiv(MinWord, "-1") = MinWord /\ WRem(MinWord, "-1") = "0"
       /\ WDiv("5", "0") = "0" /\ WRem("5", "0") = "0" /\ WMul("4294967296", "4294967296") = "0"
       /\ WInt32("2147483648") = "-2147483648" /\ WShl("1", "63") = MinWord /\ WShl("1", "64") = "1" /\ WShr(MinWord, "63") = "-1"
Pts == {<<a, b>> : a \in {"-1", "0", "2"}, b \in {"-3", "0", "1"}}
Cells == UNION {[S -> {"32", "65"}] : S \in {T \in SUBSET Pts : Cardinality(T) <= 3}}
ASSUME \A a, b \in Pts : VAdd(a, b) = VAddDef(a, b) /\ VSub(a, b) = VSubDef(a, b) /\ VNeg(a) = VNegDef(a)
ASSUME \A c \in Cells, v \in Pts : /\ CellGet(c, v) = CellGetDef(c, v)
                                   /\ CellSet(c, v, "66") = CellSetDef(c, v, "66")
                                   /\ CellDel(c, v) = CellDelDef(c, v)
ASSUME \A c \in Cells, d \in 1..2 : ScanMax(c, d) = ScanMaxDef(c, d) /\ ScanMin(c, d) = ScanMinDef(c, d)
ASSUME \A p, q, r \in Pts, k \in 0..2 : LET f == [mn |-> p, mx |-> q] IN InHull(f, r, k) = InHullDef(f, r, k)
Deltas == {<<a, b>> : a \in {"-2", "0", "1"}, b \in {"-1", "0", "3"}}
Around == {<<a, b>> : a \in {"-4", "-1", "0", "1", "3"}, b \in {"-4", "-2", "0", "1", "5"}}
ASSUME \A p, q \in Pts, r \in Around, d \in Deltas :
          LET f == [mn |-> p, mx |-> q] IN StepLahey(f, r, d, 2) = StepLaheyDef(f, r, d, 2) /\ StepLahey(f, r, d, 1) = StepLaheyDef(f, r, d, 1)
ASSUME \A p \in {<<a, b>> : a \in {"-1", "0", "1", "78", "79", "80", "100"}, b \in {"-5", "0", "23", "24", "25"}}, d \in Deltas : StepTorus(p, d) = StepTorusDef(p, d)
Init == x = 0
Next == UNCHANGED x
=============================================================================
