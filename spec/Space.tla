------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* Vectors and Funge-space.                                                *)
(*                                                                         *)
(* A vector is a VD-tuple of words; missing components are "0".            *)
(* Funge-space is a record                                                 *)
(*    c   the stored cells: a function from vectors to words (a cell not   *)
(*        in its domain reads as a space, "32")                            *)
(*    mn, mx   the bounds reported for it, vectors                         *)
(*    nd  how many dimensions have bounds (the inferred dimension)         *)
(*    ch  TRUE if cells are signed characters (-fcells=char)               *)
(* Operators marked [J] have an override in Space.java that computes the   *)
(* same; SpaceTest.tla compares the two.                                   *)
(***************************************************************************)
EXTENDS Word64, FiniteSets, TLC
CONSTANT VD

SP == "32"
Zero == [i \in 1..VD |-> "0"]

VAddDef(a, b) == [i \in 1..VD |-> WAdd(a[i], b[i])]
VSubDef(a, b) == [i \in 1..VD |-> WSub(a[i], b[i])]
VNegDef(a)    == [i \in 1..VD |-> WNeg(a[i])]
VAdd(a, b) == VAddDef(a, b)                                            \* [J]
VSub(a, b) == VSubDef(a, b)                                            \* [J]
VNeg(a)    == VNegDef(a)                                               \* [J]
(* the vector whose first components are the elements of q *)
VOf(q)     == [i \in 1..VD |-> IF i <= Len(q) THEN q[i] ELSE "0"]       \* [J]
VSet(a, d, w) == [a EXCEPT ![d] = w]
Unit(d, w) == [i \in 1..VD |-> IF i = d THEN w ELSE "0"]
(* number of components up to the last nonzero one, at least 1 *)
VSize(a) == LET S == {i \in 1..VD : a[i] # "0"} IN IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : j <= i
TurnLeft(a)  == [a EXCEPT ![1] = a[2], ![2] = WNeg(a[1])]
TurnRight(a) == [a EXCEPT ![1] = WNeg(a[2]), ![2] = a[1]]

-----------------------------------------------------------------------------
CellGetDef(c, v) == IF v \in DOMAIN c THEN c[v] ELSE SP
CellSetDef(c, v, w) == IF v \in DOMAIN c THEN [c EXCEPT ![v] = w] ELSE c @@ (v :> w)
CellDelDef(c, v) == [x \in DOMAIN c \ {v} |-> c[x]]
CellGet(c, v)    == CellGetDef(c, v)                                    \* [J]
CellSet(c, v, w) == CellSetDef(c, v, w)                                 \* [J]
CellDel(c, v)    == CellDelDef(c, v)                                    \* [J]
(* the greatest and least d-th coordinate of the stored cells; with no     *)
(* cells, the bounds are inverted                                          *)
ScanMaxDef(c, d) == IF DOMAIN c = {} THEN MinWord
                    ELSE LET v == CHOOSE x \in DOMAIN c : \A y \in DOMAIN c : WLe(y[d], x[d]) IN v[d]
ScanMinDef(c, d) == IF DOMAIN c = {} THEN MaxWord
                    ELSE LET v == CHOOSE x \in DOMAIN c : \A y \in DOMAIN c : WLe(x[d], y[d]) IN v[d]
ScanMax(c, d) == ScanMaxDef(c, d)                                       \* [J]
ScanMin(c, d) == ScanMinDef(c, d)                                       \* [J]

NewSpace(ch) == [c |-> <<>>, mn |-> Zero, mx |-> Zero, nd |-> 0, ch |-> ch]

Get(f, v) == CellGet(f.c, v)

(* Store w at v.  A space erases; bounds touched by an erased position are *)
(* recomputed, a stored character extends them.                            *)
Put(f, v, w) ==
  LET nd == IF VSize(v) > f.nd THEN VSize(v) ELSE f.nd
      c2 == IF w = SP THEN (IF v \in DOMAIN f.c THEN CellDel(f.c, v) ELSE f.c)
            ELSE CellSet(f.c, v, IF f.ch THEN WChar(w) ELSE w)
  IN  IF w = SP
      THEN [f EXCEPT !.c = c2, !.nd = nd,
              !.mx = [i \in 1..VD |-> IF i <= nd /\ f.mx[i] = v[i] THEN ScanMax(c2, i) ELSE f.mx[i]],
              !.mn = [i \in 1..VD |-> IF i <= nd /\ f.mn[i] = v[i] THEN ScanMin(c2, i) ELSE f.mn[i]]]
      ELSE [f EXCEPT !.c = c2, !.nd = nd,
              !.mx = [i \in 1..VD |-> IF i <= nd THEN WMax(f.mx[i], v[i]) ELSE f.mx[i]],
              !.mn = [i \in 1..VD |-> IF i <= nd THEN WMin(f.mn[i], v[i]) ELSE f.mn[i]]]

(* every non-space cell lies within the bounds *)
SoundBounds(f) == \A v \in DOMAIN f.c : f.c[v] # SP =>
                     \A i \in 1..VD : WLe(f.mn[i], v[i]) /\ WLe(v[i], f.mx[i])

-----------------------------------------------------------------------------
(* Movement *)
InHullDef(f, p, dim) == \A i \in 1..dim : WLe(f.mn[i], p[i]) /\ WLe(p[i], f.mx[i])
InHull(f, p, dim) == InHullDef(f, p, dim)                               \* [J]
(* p is outside and moving by d never brings it (back) inside *)
Leaving(f, p, d, dim) == \E i \in 1..dim : \/ WLt(f.mx[i], p[i]) /\ WLe("0", d[i])
                                           \/ WLt(p[i], f.mn[i]) /\ WLe(d[i], "0")

RECURSIVE BackIn(_,_,_,_), BackThrough(_,_,_,_)
(* walk along d until inside the bounds or leaving for good *)
BackIn(f, p, d, dim) == IF InHull(f, p, dim) \/ Leaving(f, p, d, dim) THEN p
                        ELSE BackIn(f, VAdd(p, d), d, dim)
(* walk along d to the last position inside the bounds *)
BackThrough(f, p, d, dim) == LET q == VAdd(p, d) IN
                             IF InHull(f, q, dim) THEN BackThrough(f, q, d, dim) ELSE p

(* Lahey space: the position after one step from p by d *)
StepLaheyDef(f, p, d, dim) ==
  LET q == VAdd(p, d) IN
  IF InHull(f, q, dim) \/ ~ Leaving(f, q, d, dim) THEN q
  ELSE LET back  == VNeg(d)
           first == BackIn(f, VAdd(q, back), back, dim)
       IN  IF InHull(f, first, dim) THEN BackThrough(f, first, back, dim) ELSE q

StepLahey(f, p, d, dim) == StepLaheyDef(f, p, d, dim)                   \* [J]

(* Torus: an 80x25 page *)
StepTorusDef(p, d) ==
  LET q == VAdd(p, d)
      x == IF WLe("80", q[1]) THEN "0" ELSE IF WLt(q[1], "0") THEN "79" ELSE q[1]
      y == IF WLe("25", q[2]) THEN "0" ELSE IF WLt(q[2], "0") THEN "24" ELSE q[2]
  IN  IF VD = 1 THEN [q EXCEPT ![1] = x] ELSE [q EXCEPT ![1] = x, ![2] = y]
StepTorus(p, d) == StepTorusDef(p, d)                                   \* [J]
=============================================================================
