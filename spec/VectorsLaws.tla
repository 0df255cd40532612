---------------------------- MODULE VectorsLaws -----------------------------
(***************************************************************************)
(* The laws of the algebra, for all vectors with components in Dom.        *)
(***************************************************************************)
EXTENDS Vectors
CONSTANT Dom
VARIABLES a, b, c
Vecs == [1..VD -> Dom]
Init == a \in Vecs /\ b \in Vecs /\ c \in Vecs
Next == UNCHANGED <<a, b, c>>
Group == /\ VAdd(a, b) = VAdd(b, a) /\ VAdd(VAdd(a, b), c) = VAdd(a, VAdd(b, c))
         /\ VAdd(a, Zero) = a /\ VSub(VAdd(a, b), b) = a /\ VAdd(a, VNeg(a)) = Zero
         /\ VSub(a, b) = VAdd(a, VNeg(b)) /\ VNeg(VNeg(a)) = a
Order == /\ Cardinality({x \in {<<"lt", VLess(a, b)>>, <<"eq", a = b>>, <<"gt", VLess(b, a)>>} : x[2]}) = 1
         /\ VLess(a, b) /\ VLess(b, c) => VLess(a, c)
         /\ (VLessEq(a, b) <=> ~ VLess(b, a))
Turning == VD > 1 => /\ TurnLeft(TurnRight(a)) = a /\ TurnRight(TurnLeft(a)) = a
                     /\ TurnLeft(TurnLeft(TurnLeft(TurnLeft(a)))) = a
                     /\ TurnLeft(TurnLeft(a)) = [VNeg(a) EXCEPT ![1] = WNeg(a[1]), ![2] = WNeg(a[2])]
                           \/ \E d \in 3..VD : a[d] # "0"
                     /\ TurnLeft(VAdd(a, b)) = VAdd(TurnLeft(a), TurnLeft(b))
Texts == LET q == Codes(VStr(a)) IN Read(q) = <<a, Len(q) + 1, FALSE>>
(* a range visits each point of the box once, and nothing else *)
Between(x, p, q) == (WLe(p, x) /\ WLe(x, q)) \/ (WLe(q, x) /\ WLe(x, p))
Box == {v \in Vecs : \A d \in 1..VD : Between(v[d], a[d], b[d])}
Visits == c = Zero => LET r == RangeSeq(a, b, 400) IN
          /\ r[1] = a /\ r[Len(r)] = b
          /\ ToSet(r) = Box /\ Len(r) = Cardinality(Box)
          /\ RangeEnd(a, b) \notin ToSet(r)
          /\ ((\A d \in 1..VD : WLe(a[d], b[d])) => BoxPoints(a, b, 400) = r)
          /\ \A i \in 1..Len(r) - 1 : \* the first component fastest
                LET p == r[i] n == r[i + 1] d == CHOOSE x \in 1..VD : p[x] # n[x] /\ \A y \in 1..VD : y > x => p[y] = n[y]
                IN  n[d] = WAdd(p[d], Dirn(a, b, d)) /\ \A y \in 1..d - 1 : p[y] = b[y] /\ n[y] = a[y]
=============================================================================
