------------------------------ MODULE Vectors -------------------------------
(***************************************************************************)
(* The algebra of N-dimensional vectors: comparison, text form, lookup and *)
(* ranges (sums, negation and turning are in Space).  The state machine at *)
(* the end works on four vectors and a table indexed by vectors;           *)
(* VectorsTrace.tla compares it with the real classes, VectorsLaws.tla     *)
(* checks the laws of the algebra.                                         *)
(***************************************************************************)
EXTENDS Space, Format, SequencesExt

IsDigit(b) == b \in {"48","49","50","51","52","53","54","55","56","57"}
White(b) == b \in {"32", "9", "10", "11", "12", "13"}
RECURSIVE SkipW(_,_)
SkipW(q, i) == IF i <= Len(q) /\ White(q[i]) THEN SkipW(q, i + 1) ELSE i
RECURSIVE Joined(_,_)
Joined(q, sep) == IF q = << >> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Joined(Tail(q), sep)
(* a vector's components up to the last that is not 0, at least one *)
VStr(v) == "(" \o Joined(SubSeq(v, 1, VSize(v)), ", ") \o ")"
(* vectors are listed in the order of their last components *)
VLess(a, b) == LET S == {d \in 1..VD : a[d] # b[d]} IN
               S # {} /\ LET d == CHOOSE x \in S : \A y \in S : y <= x IN WLt(a[d], b[d])
VSorted(s) == SetToSortSeq(s, VLess)
(* a vector in parentheses: <<sequence of components or << >>, next index>> *)
RECURSIVE Comps(_,_,_,_,_)
Comps(q, i, done, n, neg) ==
  LET s == SkipW(q, i)
      v == IF neg THEN WNeg(n) ELSE n
      end == Append(done, v)
  IN  IF s > Len(q) THEN <<end, s>>
      ELSE CASE q[s] = "41" -> <<end, s + 1>>
             [] IsDigit(q[s]) -> Comps(q, s + 1, done, WAdd(WMul(n, "10"), WSub(q[s], "48")), neg)
             [] q[s] = "44" -> Comps(q, s + 1, end, "0", FALSE)
             [] q[s] = "45" /\ n = "0" -> Comps(q, s + 1, done, n, TRUE)
             [] OTHER -> <<end, s>>
Vec(q, i) == LET s == SkipW(q, i) IN
             IF s > Len(q) THEN <<<< >>, s>> ELSE IF q[s] # "40" THEN <<<< >>, s>> ELSE Comps(q, s + 1, << >>, "0", FALSE)

(* one character ends a vector that is no vector: it is left unread.       *)
(* <<components, next index, whether the input was used up>>               *)
Read(q) == LET r == Vec(q, 1) closed == r[2] > 1 /\ r[2] - 1 <= Len(q) /\ q[r[2] - 1] = "41" /\ r[1] # << >>
           IN  <<VOf(r[1]), r[2], r[2] > Len(q) /\ ~ closed>>

VLessEq(a, b) == a = b \/ VLess(a, b)

-----------------------------------------------------------------------------
(* The points of the box with corners a and b, in the order in which a     *)
(* range visits them: from a to b, the first component fastest.            *)
Dirn(a, b, d) == IF WLt(b[d], a[d]) THEN "-1" ELSE "1"
RECURSIVE NextPoint(_,_,_,_)
(* the point after p: the first component that has not reached its end     *)
(* advances and those before it start again                                *)
NextPoint(a, b, p, d) ==
  IF d > VD THEN a
  ELSE IF p[d] # b[d] THEN [p EXCEPT ![d] = WAdd(@, Dirn(a, b, d))]
  ELSE NextPoint(a, b, [p EXCEPT ![d] = a[d]], d + 1)
RECURSIVE RangeFrom(_,_,_,_)
RangeFrom(a, b, p, n) == IF n = 0 \/ p = b THEN <<p>> ELSE <<p>> \o RangeFrom(a, b, NextPoint(a, b, p, 1), n - 1)
RangeSeq(a, b, max) == RangeFrom(a, b, a, max)
(* one past the end *)
RangeEnd(a, b) == [b EXCEPT ![1] = WAdd(@, Dirn(a, b, 1))]

-----------------------------------------------------------------------------
(* Operations on the registers g (a function from 1..4 to vectors) and the *)
(* table t: <<new registers, new table, result>>.                          *)
B(x) == IF x THEN "1" ELSE "0"
Comp(v, d) == IF d <= VD THEN v[d] ELSE "0"
Op(g, t, e) ==
  LET k == e.k a == IF e.a = 0 THEN Zero ELSE g[e.a] b == IF e.b = 0 THEN Zero ELSE g[e.b]
      to(v) == <<[g EXCEPT ![k] = v], t, "">>
      says(x) == <<g, t, x>>
  IN
  CASE e.op \in {"make", "list"} -> to(VOf(e.q))              \* from a list of components
    [] e.op \in {"copy", "assign"} -> to(a)
    [] e.op = "get"   -> says(Comp(a, e.d + 1))
    [] e.op = "set"   -> to([g[k] EXCEPT ![e.d + 1] = e.w])
    [] e.op \in {"plus", "addto"} -> to(VAdd(a, b))           \* addto: k = a
    [] e.op \in {"minus", "subfrom"} -> to(VSub(a, b))
    [] e.op = "reverse" -> to(VNeg(g[k]))
    [] e.op = "left"  -> to(TurnLeft(g[k]))
    [] e.op = "right" -> to(TurnRight(g[k]))
    [] e.op = "cmp"   -> says(B(VLess(a, b)) \o B(VLessEq(a, b)) \o B(a = b) \o B(a # b) \o B(a = b))  \* the last: equal vectors, equal hashes
    [] e.op = "print" -> says(VStr(a))
    [] e.op = "parse" -> LET r == Read(Bytes(e.s)) IN
                         <<[g EXCEPT ![k] = r[1]], t, Text(SubSeq(Bytes(e.s), r[2], Len(Bytes(e.s)))) \o B(r[3])>>
    [] e.op = "put"   -> <<g, IF a \in DOMAIN t THEN [t EXCEPT ![a] = e.w] ELSE t @@ (a :> e.w), "">>
    [] e.op = "find"  -> says(IF a \in DOMAIN t THEN t[a] ELSE "none")
    [] e.op = "erase" -> <<g, [x \in DOMAIN t \ {a} |-> t[x]], B(a \in DOMAIN t)>>
    [] e.op = "keys"  -> LET ks == VSorted(DOMAIN t) IN says(Joined([i \in 1..Len(ks) |-> VStr(ks[i]) \o "=" \o t[ks[i]]], " "))
    [] e.op \in {"range", "rangepost"} ->
         LET r == RangeSeq(a, b, 400) IN
         says(Joined([i \in 1..Len(r) |-> VStr(r[i])], " ") \o "|" \o VStr(a) \o VStr(RangeEnd(a, b)))
=============================================================================
