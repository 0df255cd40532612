---------------------------- MODULE FingersSpace ----------------------------
(***************************************************************************)
(* Fingerprints that act on Funge-space, on the pointer, on other pointers *)
(* and on the universe: JSTR, ORTH, SUBR, TOYS, NFUN, REFC, DIRF, IIPC,    *)
(* MODE, FISH, MVRS, DBUG and the one library fingerprints are written     *)
(* with.                                                                   *)
(***************************************************************************)
EXTENDS FingersValue

(* fold a machine over 1..n *)
Times(n, m, f(_,_)) == FoldLeft(f, m, [i \in 1..n |-> i])

JSTR(m, c) ==
  LET n == Dim(m)
      a == A(m, 1)
      va == VAdd(VecAt(m, 1, n), m.ip.sto)
      vd == VecAt(m, 1 + n, n)
      m1 == D(m, 1 + 2 * n)
      cnt == IF WLt(a, "0") THEN 0 ELSE I(a)
      pts == FoldLeft(LAMBDA q, i : Append(q, IF i = 1 THEN va ELSE VAdd(q[i - 1], vd)), << >>, [i \in 1..cnt |-> i])
  IN  IF WLt("0", a) /\ ~ Small(a) THEN GiveUp(m)
      ELSE IF c = "G" THEN PL(m1, <<"0">> \o [i \in 1..cnt |-> Get(Field(m), pts[i])])
      ELSE D(Times(cnt, m1, LAMBDA x, i : PutAt(x, pts[i], A(m1, i))), cnt)

ORTH(m, c) ==
  LET a == A(m, 1) b == A(m, 2) IN
  CASE c = "A" -> R1(m, 2, WAnd(b, a))
    [] c = "E" -> R1(m, 2, WXor(b, a))
    [] c = "O" -> R1(m, 2, WOr(b, a))
    [] c = "G" -> R1(m, 2, Get(Field(m), VOf(<<a, b>>)))
    [] c = "P" -> PutAt(D(m, 3), VOf(<<a, b>>), A(m, 3))
    [] c = "S" -> LET k == StrLen(m, 0) IN Out(D(m, k + 1), Text(StrAt(m, 0)) \o "\\x0A")
    [] c = "V" -> SetDelta(D(m, 1), [m.ip.dlt EXCEPT ![1] = a])
    [] c = "W" -> IF VD < 2 THEN GiveUp(m) ELSE SetDelta(D(m, 1), [m.ip.dlt EXCEPT ![2] = a])
    [] c = "X" -> [D(m, 1) EXCEPT !.ip.pos[1] = a]
    [] c = "Y" -> IF VD < 2 THEN GiveUp(m) ELSE [D(m, 1) EXCEPT !.ip.pos[2] = a]
    [] c = "Z" -> IF a = "0" THEN Nx(D(m, 1)) ELSE D(m, 1)

SUBR(m, c) ==
  LET n == Dim(m)
      a == A(m, 1)
      cnt == IF WLt(a, "0") THEN 0 ELSE I(a)
      off == m.ip.fst.SUBR.off
      rel(v) == IF off THEN VAdd(v, m.ip.pos) ELSE v
      east == Unit(1, "1")
  IN
  CASE c = "A" -> [m EXCEPT !.ip.fst.SUBR.off = FALSE]
    [] c = "O" -> [m EXCEPT !.ip.fst.SUBR.off = TRUE]
    [] c = "J" -> SetDelta(SetPos(D(m, n), rel(VecAt(m, 0, n))), east)
    [] ~ Small(a) -> GiveUp(m)
    [] c = "C" -> LET va == VecAt(m, 1, n)
                      m1 == D(m, 1 + n)
                      ps == [i \in 1..cnt |-> A(m1, i)]
                      m2 == PushVec(PushVec(D(m1, cnt), m.ip.pos), m.ip.dlt)
                  IN  SetDelta(SetPos(PL(m2, Rev(ps)), VSub(rel(va), east)), east)
    [] c = "R" -> LET ps == [i \in 1..cnt |-> A(m, 1 + i)]
                      vd == VecAt(m, 1 + cnt, n)
                      va == VecAt(m, 1 + cnt + n, n)
                  IN  SetDelta(SetPos(PL(D(m, 1 + cnt + 2 * n), Rev(ps)), va), vd)

-----------------------------------------------------------------------------
MaxBox == 3000
(* a size (signed, per dimension) as the offset of its far corner, or FALSE if it has no cells *)
Corner(m, s) == LET n == LET k == VSize(s) IN IF k > Dim(m) THEN k ELSE Dim(m) IN
  IF \E i \in 1..n : s[i] = "0" THEN << >>
  ELSE [i \in 1..VD |-> IF i > n THEN "0" ELSE IF WLt("0", s[i]) THEN WSub(s[i], "1") ELSE WAdd(s[i], "1")]
CopyBox(m, src, size, dst, low, move) ==
  LET k == Corner(m, size)
      pts == IF low THEN BoxPoints(Zero, k, MaxBox) ELSE BoxPoints(k, Zero, MaxBox)
      one(x, p) == LET x1 == PutAt(x, VAdd(dst, p), Get(Field(x), VAdd(src, p))) IN
                   IF move THEN PutAt(x1, VAdd(src, p), SP) ELSE x1
  IN  IF k = << >> THEN m ELSE IF pts = NoPoints THEN GiveUp(m) ELSE FoldLeft(one, m, pts)
(* a whole line of the used space along dimension d moved by n *)
SlideLine(m, d, n) ==
  LET f == Field(m)
      lo == f.mn[d]
      len == WAdd(WSub(f.mx[d], lo), "1")
      size == [i \in 1..VD |-> IF i = d THEN len ELSE IF i <= Dim(m) THEN "1" ELSE "0"]
      o == 3 - d
      src == [i \in 1..VD |-> IF i = d THEN lo ELSE IF i = o THEN m.ip.pos[o] ELSE "0"]
      dst == [src EXCEPT ![d] = WAdd(@, n)]
  IN  IF n = "0" THEN m ELSE CopyBox(m, src, size, dst, WLt(n, "0"), TRUE)
CardSign == <<">", "<", "v", "^", "h", "l">>

TOYS(m, c) ==
  LET n == Dim(m)
      a == A(m, 1) b == A(m, 2)
      v1 == VecAt(m, 0, n) v2 == VecAt(m, n, n) v3 == VecAt(m, 2 * n, n)
      copy(low, move) == CopyBox(D(m, 3 * n), v3, v2, v1, low, move)
      fillbox(m1, k) == IF k = << >> THEN << >> ELSE BoxPoints(Zero, k, MaxBox)
      plus(d) == [m EXCEPT !.ip.pos[d] = WAdd(@, "1")]
  IN
  CASE c = "A" -> IF WLe(a, "0") THEN D(m, 2) ELSE IF ~ Small(a) THEN GiveUp(m) ELSE PL(D(m, 2), [i \in 1..I(a) |-> b])
    [] c = "B" -> PL(D(m, 2), <<WAdd(b, a), WSub(b, a)>>)
    [] c = "C" -> copy(TRUE, FALSE)
    [] c = "K" -> copy(FALSE, FALSE)
    [] c = "M" -> copy(TRUE, TRUE)
    [] c = "V" -> copy(FALSE, TRUE)
    [] c = "D" -> R1(m, 1, WSub(a, "1"))
    [] c = "I" -> R1(m, 1, WAdd(a, "1"))
    [] c = "E" -> R1(m, Size(m), FoldLeft(WAdd, "0", m.ip.ss[T(m)]))
    [] c = "P" -> R1(m, Size(m), FoldLeft(WMul, "1", m.ip.ss[T(m)]))
    [] c = "F" -> LET k == Corner(m, v2)
                      pts == fillbox(m, k)
                      m1 == D(m, 2 * n)
                  IN  IF pts = NoPoints THEN GiveUp(m)
                      ELSE D(Times(Len(pts), m1, LAMBDA x, i : PutAt(x, VAdd(v1, pts[i]), A(m1, i))), Len(pts))
    [] c = "G" -> LET k == Corner(m, v2)
                      pts == IF k = << >> THEN << >> ELSE BoxPoints(k, Zero, MaxBox)
                  IN  IF pts = NoPoints THEN GiveUp(m) ELSE PL(D(m, 2 * n), [i \in 1..Len(pts) |-> Get(Field(m), VAdd(v1, pts[i]))])
    [] c = "S" -> LET k == Corner(m, v2)
                      pts == fillbox(m, k)
                      w == A(m, 2 * n + 1)
                  IN  IF pts = NoPoints THEN GiveUp(m)
                      ELSE FoldLeft(LAMBDA x, p : PutAt(x, VAdd(v1, p), w), D(m, 2 * n + 1), pts)
    [] c = "H" -> R1(m, 2, IF WLt("0", a) THEN WShl(b, a) ELSE WShr(b, WNeg(a)))
    [] c = "J" -> IF VD < 2 THEN GiveUp(m) ELSE SlideLine(D(m, 1), 2, a)
    [] c = "O" -> IF VD < 2 THEN GiveUp(m) ELSE SlideLine(D(m, 1), 1, a)
    [] c = "L" -> IF VD < 2 THEN GiveUp(m) ELSE P(m, Get(Field(m), VAdd(m.ip.pos, TurnLeft(m.ip.dlt))))
    [] c = "R" -> IF VD < 2 THEN GiveUp(m) ELSE P(m, Get(Field(m), VAdd(m.ip.pos, TurnRight(m.ip.dlt))))
    [] c = "N" -> R1(m, 1, Bool(a = "0"))
    [] c = "Q" -> PutAt(D(m, 1), VSub(m.ip.pos, m.ip.dlt), a)
    [] c = "T" -> LET m1 == D(m, 2) IN
                  IF WLt(a, "0") \/ ~ WLt(a, W(n)) THEN Fail(m1)
                  ELSE SetDelta(m1, Unit(I(a) + 1, IF b = "0" THEN "1" ELSE "-1"))
    [] c = "U" -> LET k == 2 * (IF n > 3 THEN 3 ELSE n) r == Draw(m, k) IN
                  SetDelta(PutHere(Drawn(m, k), Ord(CardSign[r + 1])), CardDir(r))
    [] c = "W" -> LET w == A(m, n + 1)
                      m1 == D(m, n + 1)
                      cell == Get(Field(m), v1)
                  IN  IF WLt(cell, w) THEN Err(PushVec(P(m1, w), v1), "block")
                      ELSE IF WLt(w, cell) THEN Reflect(m1) ELSE m1
    [] c = "X" -> plus(1)
    [] c = "Y" -> IF n > 1 THEN plus(2) ELSE Fail(m)
    [] c = "Z" -> IF n > 2 THEN plus(3) ELSE Fail(m)

-----------------------------------------------------------------------------
(* a move along dimension d (from 1), which then exists *)
GoDim(m, d, sign) ==
  IF d > VD THEN GiveUp(m)
  ELSE LET m1 == SetDelta(m, Unit(d, sign)) IN
       [m1 EXCEPT !.us[m.ip.u].dim = IF @ < d THEN d ELSE @]
NFUN(m, c) ==
  LET a == A(m, 1) b == A(m, 2)
      sign(w) == IF w = "0" THEN "1" ELSE "-1"
      hl == IF U(m).ihl THEN "-1" ELSE "1"
      bad(w) == WLt(w, "0") \/ WLe("64", w)
  IN
  CASE c = "A" -> GoDim(m, 4, "-1")
    [] c = "V" -> GoDim(m, 4, "1")
    [] c = "I" -> GoDim(D(m, 1), 4, sign(a))
    [] c = "H" -> GoDim(m, 5, hl)
    [] c = "L" -> GoDim(m, 5, WNeg(hl))
    [] c = "M" -> GoDim(D(m, 1), 5, sign(a))
    [] c = "C" -> GoDim(m, 6, "-1")
    [] c = "D" -> GoDim(m, 6, "1")
    [] c = "R" -> GoDim(D(m, 1), 6, sign(a))
    [] c = "X" -> IF bad(a) THEN Fail(D(m, 2)) ELSE GoDim(D(m, 2), I(a) + 1, sign(b))
    [] c = "Y" -> IF bad(a) THEN Fail(D(m, 1)) ELSE GoDim(D(m, 1), I(a) + 1, "-1")
    [] c = "Z" -> IF bad(a) THEN Fail(D(m, 1)) ELSE GoDim(D(m, 1), I(a) + 1, "1")
    [] OTHER -> Err(m, "unimp")                  \* B

(* references: a fresh token per vector, shared by all pointers *)
REFC(m, c) ==
  LET n == Dim(m)
      v == VecAt(m, 0, n)
      m1 == EnvPush(D(m, n), LAMBDA w : w \notin DOMAIN m.refc /\ WLe("0", w) /\ WLt(w, "2147483648"), "0")
      tok == A(m1, 1)
      known == A(m, 1) \in DOMAIN m.refc
  IN  CASE c = "R" -> IF m1.err = "giveup" \/ Mode(m, "invert") # Mode(m, "queue") THEN GiveUp(m)
                      ELSE [m1 EXCEPT !.refc = @ @@ (tok :> v)]
        [] c = "D" -> IF known THEN PushVec(D(m, 1), m.refc[A(m, 1)]) ELSE D(m, 1)

-----------------------------------------------------------------------------
(* directories: the process's working directory *)
DIRF(m, c) ==
  LET k == StrLen(m, 0)
      q == StrAt(m, 0)
      m1 == D(m, k + 1)
      at == Place(m, q)
      l == at[2]
      name == DirOf(l)
      is == IsDirL(m, l)
      inside == {x \in DOMAIN m.fs : StartsWith(x, name) /\ x # name}
      within == Len(m.cwd) >= Len(l) /\ SubSeq(m.cwd, 1, Len(l)) = l    \* the working directory is in it
      last == PathParts(q)[Len(PathParts(q))]
  IN  IF at[1] = "out" \/ (q # << >> /\ \E i \in 1..Len(q) : q[i] = "92") THEN GiveUp(m)
      ELSE IF at[1] = "none" THEN Fail(m1)
      ELSE CASE c = "C" -> IF is THEN [m1 EXCEPT !.cwd = l] ELSE Fail(m1)
             [] c = "M" -> IF is THEN m1
                           ELSE IF NameOf(l) \in DOMAIN m.fs THEN Fail(m1)
                           ELSE PutFile(m1, name, << >>)
             [] c = "R" -> IF ~ is THEN Fail(m1)
                           ELSE IF l = << >> \/ within \/ last \in {<<"46">>, <<"46","46">>} THEN GiveUp(m)
                           ELSE IF inside # {} THEN Fail(m1)
                           ELSE [m1 EXCEPT !.fs = [x \in DOMAIN @ \ {name} |-> @[x]]]

-----------------------------------------------------------------------------
(* the pointers of this universe *)
Near(m, id) == id \in ToSet(U(m).q) /\ HasIp(m, id)
(* the stack in use of another pointer: value to be popped, and operations on it *)
OT(r) == Len(r.ss) - r.sel
OTop(m, r) == LET s == r.ss[OT(r)] IN IF s = << >> THEN "0" ELSE IF Mode(m, "queue") THEN s[1] ELSE s[Len(s)]
OPop(m, r) == LET s == r.ss[OT(r)] IN
              [r EXCEPT !.ss[OT(r)] = IF s = << >> THEN s ELSE IF Mode(m, "queue") THEN Tail(s) ELSE SubSeq(s, 1, Len(s) - 1)]
OPush(m, r, w) == [r EXCEPT !.ss[OT(r)] = IF Mode(m, "invert") THEN <<w>> \o @ ELSE Append(@, w)]
Touch(r) == IF "IIPC" \in DOMAIN r.fst THEN [r EXCEPT !.fst.IIPC.touched = TRUE] ELSE r
IIPC(m, c) ==
  LET a == A(m, 1) b == A(m, 2)
      m1 == D(m, 1)
      m2 == D(m, 2)
      dorm == m.ip.fst.IIPC
  IN
  CASE c = "A" -> IF m.ip.par = "" THEN Fail(m) ELSE P(m, m.ip.par)
    [] c = "I" -> P(m, m.ip.id)
    [] c = "D" -> IF m.ip.ink > 0 THEN GiveUp(m)
                  ELSE IF ~ dorm.dorm THEN Err([m EXCEPT !.ip.fst.IIPC = [dorm |-> TRUE, touched |-> FALSE]], "block")
                  ELSE IF dorm.touched THEN [m EXCEPT !.ip.fst.IIPC.dorm = FALSE]
                  ELSE Err(m, "block")
    [] c = "L" -> IF ~ Near(m, a) THEN Fail(m1) ELSE P(m1, OTop(m1, GetIp(m1, a)))
    [] c = "G" -> IF ~ Near(m, a) THEN Fail(m1)
                  ELSE LET r == GetIp(m1, a) IN P(SetIp(m1, a, Touch(OPop(m1, r))), OTop(m1, r))
    [] c = "P" -> IF ~ Near(m, a) THEN Fail(m2)
                  ELSE SetIp(m2, a, Touch(OPush(m2, GetIp(m2, a), b)))

-----------------------------------------------------------------------------
Toggle(m, x) == [m EXCEPT !.us[m.ip.u].mode = IF x \in @ THEN @ \ {x} ELSE @ \cup {x}]
MODE(m, c) == CASE c = "H" -> Toggle(m, "hover") [] c = "I" -> Toggle(m, "invert")
                [] c = "Q" -> Toggle(m, "queue") [] c = "S" -> Toggle(m, "switch")

Dive(m) == [m EXCEPT !.us[m.ip.u].mode = @ \cup {"dive"}]
Rise(m) == [m EXCEPT !.us[m.ip.u].mode = @ \ {"dive"}]
MirrorD(d) == [d EXCEPT ![1] = d[2], ![2] = d[1]]              \* at a \
MirrorU(d) == [d EXCEPT ![1] = WNeg(d[2]), ![2] = WNeg(d[1])]  \* at a /
Horizontal(d) == d[1] # "0" /\ d[2] = "0"
(* all values of the stack in use, in the order they would be popped *)
AllVals(m) == [i \in 1..Size(m) |-> A(m, i)]
Emptied(m) == [m EXCEPT !.ip.ss[T(m)] = << >>]
ShiftL(m) == LET q == AllVals(m) n == Len(q) IN
             IF n = 0 THEN m ELSE PL(Emptied(m), [i \in 1..(n-1) |-> q[n - i]] \o <<q[n]>>)
ShiftR(m) == LET q == AllVals(m) n == Len(q) IN
             IF n = 0 THEN m ELSE PL(Emptied(m), <<q[1]>> \o [i \in 1..(n-1) |-> q[n + 1 - i]])
RevStack(m) == PL(Emptied(m), AllVals(m))
Swap3(m) == PL(D(m, 3), <<A(m, 1), A(m, 3), A(m, 2)>>)
SelUp(m) == IF m.ip.sel > 0 THEN [m EXCEPT !.ip.sel = @ - 1] ELSE Fail(m)
SelDown(m) == IF m.ip.sel < Len(m.ip.ss) - 1 THEN [m EXCEPT !.ip.sel = @ + 1] ELSE Fail(m)
FISH(m, c) ==
  LET d == m.ip.dlt fs == m.ip.fst.FISH IN
  IF VD < 2 /\ c \in {"F", "H", "M", "N"} THEN GiveUp(m) ELSE
  CASE c = "C" -> IF A(m, 1) = "0" THEN Nx(D(m, 1)) ELSE D(m, 1)
    [] c = "D" -> SelDown(m)
    [] c = "I" -> SelUp(m)
    [] c = "F" -> IF d[2] = "0"
                  THEN LET m1 == [m EXCEPT !.ip.fst.FISH.last = IF d[1] # "0" THEN d ELSE @] IN
                       [SetDelta(m1, Unit(2, IF fs.up THEN "1" ELSE "-1")) EXCEPT !.ip.fst.FISH.up = ~ fs.up]
                  ELSE SetDelta(m, fs.last)
    [] c = "H" -> SetDelta(m, [d EXCEPT ![2] = WNeg(@)])
    [] c = "V" -> SetDelta(m, [d EXCEPT ![1] = WNeg(@)])
    [] c = "M" -> SetDelta(m, MirrorU(d))
    [] c = "N" -> SetDelta(m, MirrorD(d))
    [] c = "L" -> ShiftL(m)
    [] c = "R" -> ShiftR(m)
    [] c = "S" -> RevStack(m)
    [] c = "T" -> Swap3(m)
    [] c = "O" -> Rise(m)
    [] c = "U" -> Dive(m)

-----------------------------------------------------------------------------
(* other universes *)
ModeBit == [debug |-> 10, hover |-> 13, invert |-> 14, queue |-> 15, switch |-> 16, dive |-> 17]
ModeWord(s) == FoldLeft(LAMBDA a, x : a + (IF x \in s THEN 2^ModeBit[x] ELSE 0), 0,
                        <<"debug", "hover", "invert", "queue", "switch", "dive">>)
ModeSet(n) == {x \in DOMAIN ModeBit : HasBit(n, ModeBit[x])}
CopyBetween(m, from, src, size, to, dst) ==
  LET pts == BoxPoints(Zero, size, MaxBox)
      one(x, p) == PutIn(x, to, VAdd(dst, p), Get(x.us[from].f, VAdd(src, p)))
  IN  IF pts = NoPoints THEN GiveUp(m) ELSE FoldLeft(one, m, pts)
Travel(m, u) == IF u = m.ip.u THEN m ELSE IF m.us[m.ip.u].creator # "" \/ m.us[u].creator # "" \/ m.ip.ink > 0 THEN GiveUp(m) ELSE [m EXCEPT !.ip.u = u]
V3(m, off) == VOf([j \in 1..VD |-> IF j <= 3 THEN A(m, off + 4 - j) ELSE "0"])
MVRS(m, c) ==
  LET n == Dim(m)
      nm(off) == [k |-> off + StrLen(m, off) + 1, u |-> Text(StrAt(m, off))]
  IN
  IF VD < 3 /\ c \in {"F", "G", "P"} THEN GiveUp(m) ELSE
  CASE c = "B" ->
         LET dim == A(m, 1) lng == A(m, 2) flg == A(m, 3)
             x == nm(3)
             m1 == D(m, x.k)
             d == IF dim = "0" THEN n ELSE I(dim)
             md == IF flg = "0" THEN U(m).mode ELSE ModeSet(I(flg))
             std == CASE lng = "0" -> U(m).std [] lng = "1" -> 93 [] OTHER -> 98
             cfg == [Cfg0 EXCEPT !.mode = md, !.std = std, !.dims = d]
             name == FreeName(m.us, x.u)
         IN  IF flg # "0" /\ WAnd(flg, "511") # "0" THEN Fail(m1)
             ELSE IF lng \notin {"0", "1", "2"} THEN Fail(m1)
             ELSE IF WLt(dim, "0") \/ WLt(W(VD), dim) \/ ~ Fits(flg) THEN GiveUp(m)
             ELSE IF "debug" \in md \/ ModeWord(md) # (IF flg = "0" THEN ModeWord(md) ELSE I(flg)) THEN GiveUp(m)
             ELSE [m1 EXCEPT !.us = @ @@ (name :> NewUniverse(cfg, NewSpace(FALSE), d, d, << >>, ""))]
    [] c = "C" -> P(m, W(Cardinality(DOMAIN m.us)))
    [] c = "N" -> PushStr(m, Bytes(m.ip.u))
    [] c = "J" -> LET x == nm(0) m1 == D(m, x.k) IN
                  IF x.u \in DOMAIN m.us THEN Travel(m1, x.u) ELSE Fail(m1)
    [] c = "G" -> LET x == nm(6) m1 == D(m, x.k)
                      m2 == Travel(m1, x.u)
                  IN  IF x.u \in DOMAIN m.us THEN SetDelta(SetPos(m2, V3(m, 3)), V3(m, 0)) ELSE Fail(m1)
    [] c = "F" -> LET x == nm(2 * n + 3) m1 == D(m, x.k) IN
                  IF x.u \in DOMAIN m.us
                  THEN CopyBetween(m1, x.u, V3(m, n), VecAt(m, 0, n), m.ip.u, VecAt(m, n + 3, n)) ELSE Fail(m1)
    [] c = "P" -> LET x == nm(2 * n + 3) m1 == D(m, x.k) IN
                  IF x.u \in DOMAIN m.us
                  THEN CopyBetween(m1, m.ip.u, VecAt(m, n, n), VecAt(m, 0, n), x.u, V3(m, 2 * n)) ELSE Fail(m1)

-----------------------------------------------------------------------------
(* What a library function can do to the pointer it works for.  The stack  *)
(* is the caller's own; vectors have the library's dimensions.             *)
Caller(m) == m.us[m.ip.u].creator
WithCaller(m, f(_)) == SetIp(m, Caller(m), f(m.ips[Caller(m)]))
CallerStep(m, r, d) == LET u == m.us[r.u] IN IF u.topo = "torus" THEN StepTorus(r.pos, d) ELSE StepLahey(u.f, r.pos, d, u.dim)
(* the caller as the current pointer of its universe, for SetDelta *)
AsCaller(m, f(_)) == LET me == m.ip
                         m1 == [m EXCEPT !.ip = m.ips[Caller(m)]]
                         m2 == f(m1)
                     IN  [m2 EXCEPT !.ips[Caller(m)] = m2.ip, !.ip = me]
Dynamic(m, c) ==
  LET n == Dim(m)
      v == VecAt(m, 0, n)
      m1 == D(m, n)
      r == m.ips[Caller(m)]
      mine == r.lib.id = m.ip.id
      cu == m.us[r.u]
      cv(x) == VecSeq(x, cu.dim)
  IN
  IF Caller(m) \notin DOMAIN m.ips THEN GiveUp(m) ELSE
  CASE c = "B" -> IF r.stop THEN m ELSE WithCaller(m, LAMBDA x : [x EXCEPT !.pos = CallerStep(m, x, VNeg(x.dlt))])
    [] c = "D" -> AsCaller(m1, LAMBDA x : SetDelta(x, v))
    [] c = "E" -> P(m, W(Size(m)))
    [] c = "F" -> IF r.stop THEN m ELSE WithCaller(m, LAMBDA x : [x EXCEPT !.pos = CallerStep(m, x, x.dlt)])
    [] c = "G" -> P(m1, Get(cu.f, v))
    [] c = "K" -> Pick(m)
    [] c = "L" -> WithCaller(m1, LAMBDA x : [x EXCEPT !.pos = v])
    [] c = "M" -> P(m, W(ModeWord(cu.mode) \div 4096))
    [] c = "N" -> P(m, Get(cu.f, VAdd(r.pos, r.dlt)))
    [] c = "O" -> Roll(m)
    [] c = "P" -> PutIn(D(m, n + 1), r.u, v, A(m, n + 1))
    [] c = "Q" -> IF ~ mine THEN GiveUp(m) ELSE PL(m, cv(r.pos) \o cv(r.dlt) \o cv(r.sto))
    [] c = "R" -> WithCaller(m, LAMBDA x : [x EXCEPT !.dlt = VNeg(@)])
    [] c = "S" -> WithCaller(m1, LAMBDA x : [x EXCEPT !.sto = v])
    [] c = "X" -> [WithCaller(m, LAMBDA x : [x EXCEPT !.stop = TRUE]) EXCEPT !.ip.stop = TRUE]

(* the debugger's: break and watch points are kept with the universe *)
DBUG(m, c) ==
  LET n == Dim(m) v == VecAt(m, 0, n) u == m.ip.u IN
  CASE c = "A" -> [D(m, n) EXCEPT !.us[u].brk = @ \cup {v}]
    [] c = "W" -> [D(m, n) EXCEPT !.us[u].wat = @ \cup {v}]
    [] c = "B" -> StopHere(m, "Software Breakpoint")
    [] c = "D" -> [m EXCEPT !.us[u].mode = @ \ {"debug"}]
    [] c = "E" -> [m EXCEPT !.us[u].mode = @ \cup {"debug"}]

Letters == ("BASE" :> "BHINO") @@ ("BITW" :> "ALNORX") @@ ("BOOL" :> "ANOX") @@ ("CPLI" :> "ADMOSV")
           @@ ("DBUG" :> "ABDEW") @@ ("DIRF" :> "CMR") @@ ("Dynamic" :> "BDEFGKLMNOPQRSX") @@ ("FING" :> "XYZ")
           @@ ("FISH" :> "CDFHILMNORSTUV") @@ ("FIXP" :> "ABCDIJNOPQRSTUVX") @@ ("FPDP" :>
           "ABCDEFGHIKLMNPQRSTVXY") @@ ("FPSP" :> "ABCDEFGHIKLMNPQRSTVXY") @@ ("FPRT" :> "DFILS") @@ ("FRTH" :>
           "DLOPR") @@ ("HRTI" :> "EGMST") @@ ("IIPC" :> "ADGILP") @@ ("JSTR" :> "GP") @@ ("MODE" :> "HIQS") @@
           ("MVRS" :> "BCFGJNP") @@ ("NFUN" :> "ABCDHILMRVXYZ") @@ ("ORTH" :> "AEGOPSVWXYZ") @@ ("PERL" :>
           "EIS") @@ ("REFC" :> "RD") @@ ("STRN" :> "ACDFGILMNPRSV") @@ ("SUBR" :> "ACJOR") @@ ("TOYS" :>
           "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LettersOf(fp) == [i \in 1..Len(Letters[fp]) |-> SubSeq(Letters[fp], i, i)]
(* private state when first loaded by a pointer *)
NewState(fp) == CASE fp = "FISH" -> [up |-> TRUE, last |-> Unit(1, "1")]
                  [] fp = "IIPC" -> [dorm |-> FALSE, touched |-> FALSE]
                  [] fp = "SUBR" -> [off |-> FALSE]
                  [] fp = "HRTI" -> [mark |-> "none"]
                  [] OTHER -> [none |-> TRUE]
FpExec(m, fp, c) ==
  CASE fp = "BASE" -> BASE(m, c) [] fp = "BITW" -> BITW(m, c) [] fp = "BOOL" -> BOOL(m, c) [] fp = "CPLI" -> CPLI(m, c)
    [] fp = "DBUG" -> DBUG(m, c) [] fp = "DIRF" -> DIRF(m, c) [] fp = "Dynamic" -> Dynamic(m, c)
    [] fp = "FISH" -> FISH(m, c) [] fp = "FIXP" -> FIXP(m, c) [] fp = "FPDP" -> FPDP(m, c) [] fp = "FPSP" -> FPSP(m, c)
    [] fp = "FPRT" -> FPRT(m, c) [] fp = "FRTH" -> FRTH(m, c) [] fp = "HRTI" -> HRTI(m, c) [] fp = "IIPC" -> IIPC(m, c)
    [] fp = "JSTR" -> JSTR(m, c) [] fp = "MODE" -> MODE(m, c) [] fp = "MVRS" -> MVRS(m, c) [] fp = "NFUN" -> NFUN(m, c)
    [] fp = "ORTH" -> ORTH(m, c) [] fp = "PERL" -> PERL(m, c) [] fp = "REFC" -> REFC(m, c) [] fp = "STRN" -> STRN(m, c)
    [] fp = "SUBR" -> SUBR(m, c) [] fp = "TOYS" -> TOYS(m, c)
=============================================================================
