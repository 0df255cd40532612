------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* How the bytes of a file become cells of Funge-space: program text (also *)
(* used by the i instruction), BeQunge files and Funge-lib files; and how  *)
(* a rectangle of cells becomes a file (the o instruction).                *)
(***************************************************************************)
EXTENDS Machine

LF == "10"
FF == "12"
VT == "11"
CR == "13"

(* Text read at position start of space f.  fd is the dimension of the     *)
(* space (0: not known yet, every break counts).  The result also has the  *)
(* size of what was read: the furthest reading position minus start.       *)
ParseText(f0, start, bytes, fd, binary) ==
  LET raise(mx, v) == [d \in 1..VD |-> WMax(mx[d], v[d])]
      \* next line, page, volume: component k advances, those before it restart
      break(st, k) == LET v == [d \in 1..VD |-> IF d < k THEN start[d] ELSE IF d = k THEN WAdd(st.v[d], "1") ELSE st.v[d]]
                      IN  [st EXCEPT !.mx = raise(raise(@, st.v), v), !.v = v]
      one(st, b) ==
        LET wascr == st.cr
            s == [st EXCEPT !.cr = FALSE]
        IN
        IF ~ binary /\ b = LF /\ wascr THEN s
        ELSE IF ~ binary /\ b \in {LF, CR}
             THEN LET s1 == [s EXCEPT !.cr = (b = CR)] IN
                  IF s1.last \in {FF, VT} THEN s1 ELSE break(s1, 2)
        ELSE IF ~ binary /\ b = FF
             THEN IF fd = 0 \/ fd >= 3 THEN [break(s, 3) EXCEPT !.last = FF] ELSE s
        ELSE IF ~ binary /\ b = VT
             THEN IF fd = 0 \/ fd >= 3 THEN [break(s, 4) EXCEPT !.last = VT] ELSE s
        ELSE LET v == [s.v EXCEPT ![1] = WAdd(@, "1")] IN
             [s EXCEPT !.f = IF b = SP THEN @ ELSE Put(@, s.v, b),
                       !.v = v, !.mx = raise(@, v), !.last = b]
      end == FoldLeft(one, [f |-> f0, v |-> start, mx |-> start, last |-> "0", cr |-> FALSE], bytes)
  IN  [f |-> end.f, size |-> VSub(end.mx, start)]

-----------------------------------------------------------------------------
(* Splitting byte sequences *)
SplitOn(q, sep) ==
  LET one(a, b) == IF b = sep THEN [done |-> Append(a.done, a.cur), cur |-> << >>]
                   ELSE [a EXCEPT !.cur = Append(@, b)]
      r == FoldLeft(one, [done |-> << >>, cur |-> << >>], q)
  IN  Append(r.done, r.cur)
(* as SplitOn, ignoring empty parts *)
WordsOf(q) ==
  LET sp == {"32", "9", "10", "11", "12", "13"}
      one(a, b) == IF b \in sp THEN (IF a.cur = << >> THEN a ELSE [done |-> Append(a.done, a.cur), cur |-> << >>])
                   ELSE [a EXCEPT !.cur = Append(@, b)]
      r == FoldLeft(one, [done |-> << >>, cur |-> << >>], q)
  IN  IF r.cur = << >> THEN r.done ELSE Append(r.done, r.cur)
(* the value of a decimal numeral given as bytes *)
NumOf(q) ==
  LET neg == Len(q) > 0 /\ q[1] = "45"
      ds == IF neg THEN Tail(q) ELSE q
      n == FoldLeft(LAMBDA a, b : WAdd(WMul(a, "10"), WSub(b, "48")), "0", ds)
  IN  IF neg THEN WNeg(n) ELSE n

-----------------------------------------------------------------------------
(* BeQunge.  Lines are blocks of text at an origin; only well-formed files *)
(* are described.                                                          *)
SetFrom(v, from, nums) == [d \in 1..VD |-> IF d > from /\ d - from <= Len(nums) /\ nums[d - from] # << >>
                                           THEN NumOf(nums[d - from]) ELSE v[d]]
(* A space that would be the very first cell leaves the bounds as they are *)
(* if nothing placed the text: the position then has no coordinate yet.    *)
PutLine(f, pos, line0, placed) ==
  LET first == ~placed /\ f.nd = 0 /\ Len(line0) > 0 /\ line0[1] = SP
      line == IF first THEN Tail(line0) ELSE line0
  IN
  FoldLeft(LAMBDA a, b : [f |-> Put(a.f, a.p, WChar(b)), p |-> [a.p EXCEPT ![1] = WAdd(@, "1")]],
           [f |-> f, p |-> IF first THEN [pos EXCEPT ![1] = WAdd(@, "1")] ELSE pos], line).f
ParseBeq(f0, bytes) ==
  LET ls == SplitOn(bytes, LF)
      ctrl(st, c) ==
        LET cmd == SplitOn(c, SP) name == Text(cmd[1]) IN
        CASE name = "Dimensions" -> [st EXCEPT !.dims = IF @ = 0 THEN I(NumOf(cmd[2])) ELSE @]
          [] name = "Lines"      -> [st EXCEPT !.lines = I(NumOf(cmd[2]))]
          [] name = "Origin"     -> LET p == SplitOn(cmd[2], "58") IN
                                    [st EXCEPT !.org = SetFrom(@, 0, p), !.dim = Len(p)]
          [] name = "Coord"      -> LET p == SplitOn(cmd[2], "58") IN
                                    [st EXCEPT !.org = SetFrom(@, st.dim, p), !.dim = @ + Len(p)]
          [] OTHER -> st
      one(st, l) ==
        IF st.lines > 0
        THEN LET f == PutLine(st.f, st.pos, l, st.dim > 0) IN
             [st EXCEPT !.f = f, !.pos = [@ EXCEPT ![2] = WAdd(@, "1")], !.lines = @ - 1]
        ELSE LET s == FoldLeft(ctrl, [st EXCEPT !.org = Zero, !.dim = 0], SplitOn(l, "44"))
             IN  [s EXCEPT !.pos = s.org]
      r == FoldLeft(one, [f |-> f0, dims |-> 0, lines |-> 0, org |-> Zero, dim |-> 0, pos |-> Zero], ls)
  IN  [f |-> r.f, dims |-> r.dims]

(* Funge-lib: the lines after "=A" form plane 0, after "=B" plane 1, ...   *)
ParseLib(f0, bytes) ==
  LET one(st, l) ==
        IF Len(l) = 2 /\ l[1] = "61" /\ WLe("65", l[2]) /\ WLe(l[2], "90")
        THEN [st EXCEPT !.pos = VOf(<<"0", "0", WSub(l[2], "65")>>), !.planes = Append(@, Ch(l[2]))]
        ELSE [st EXCEPT !.f = PutLine(@, st.pos, l, st.planes # << >> \/ st.pos # Zero), !.pos = [@ EXCEPT ![2] = WAdd(@, "1"), ![1] = "0"]]
      r == FoldLeft(one, [f |-> f0, pos |-> Zero, planes |-> << >>], SplitOn(bytes, LF))
  IN  [f |-> r.f, planes |-> r.planes]

-----------------------------------------------------------------------------
(* The text of the rectangle from start of the given size: rows from top   *)
(* to bottom, each ended by a line feed; unless binary, without the spaces *)
(* that end a row.  Nothing unless the size is positive in its highest     *)
(* nonzero component; otherwise a missing column or row counts as one.     *)
DumpText(f, start, size, binary) ==
  IF ~ WLt("0", size[VSize(size)]) THEN << >> ELSE
  LET w == IF WLe(size[1], "0") THEN 1 ELSE I(size[1])
      h == IF WLe(size[2], "0") THEN 1 ELSE I(size[2])
      cell(x, y) == Get(f, [start EXCEPT ![1] = WAdd(@, W(x)), ![2] = WAdd(@, W(y))])
      row(y) == LET all == [x \in 1..w |-> cell(x - 1, y)]
                    last == LET S == {x \in 1..w : all[x] # SP} IN
                            IF S = {} THEN 0 ELSE CHOOSE x \in S : \A z \in S : z <= x
                    k == IF binary THEN w ELSE last
                IN  [x \in 1..k |-> WByte(all[x])] \o <<LF>>
  IN  FoldLeft(LAMBDA a, y : a \o row(y), << >>, [y \in 1..h |-> y - 1])
=============================================================================
