------------------------------ MODULE Debugger ------------------------------
(***************************************************************************)
(* Debugging.  In a universe with the debug mode a pointer stops, that is, *)
(* commands are read from standard input, before its first instruction,    *)
(* after a step command, at break points, before a watched cell is stored  *)
(* to, at DBUG's B, and when an instruction fails.                         *)
(*                                                                         *)
(* Of a universe:  brk, wat  its break and watch points;  thr  the         *)
(* pointers it has seen: st ("start", "run", "step", "break" or "end") and *)
(* bt, the last ten positions, newest first;  last  the latest of them.    *)
(* Of the machine:  intro  TRUE once the debugger has introduced itself.   *)
(***************************************************************************)
EXTENDS Config

NL == "\\x0A"
CSI == "\\x1B["
PromptText == CSI \o "33m(defunge)" \o CSI \o "0m "
Ln(s) == s \o NL

RECURSIVE Cat(_,_)
Cat(q, i) == IF i > Len(q) THEN "" ELSE q[i] \o Cat(q, i + 1)
Quoted(w) == "\"" \o Esc(w) \o "\""

Thr(m, u) == m.us[u].thr
ThrIds(m, u) == SetToSortSeq(DOMAIN Thr(m, u), WLt)
Live(m, u, id) == id \in DOMAIN Thr(m, u) /\ Thr(m, u)[id].st # "end"
SetSt(m, u, id, s) ==
  [m EXCEPT !.us[u].thr = IF id \in DOMAIN @ THEN [@ EXCEPT ![id].st = s] ELSE @ @@ (id :> [st |-> s, bt |-> << >>])]
CellOf(m, r) == Get(m.us[r.u].f, r.pos)
IpLine(m, id) == LET r == GetIp(m, id) IN Ln(id \o ": " \o VStr(r.pos) \o " " \o Quoted(CellOf(m, r)))

(* every pointer of every universe ends *)
QuitAll(m) ==
  LET ids == {x \in DOMAIN m.ips : x \in ToSet(m.us[m.ips[x].u].q) \/ x \in m.fl} IN
  [m EXCEPT !.us = [u \in DOMAIN @ |-> [@[u] EXCEPT !.run = FALSE, !.code = "1"]],
            !.ips = [x \in DOMAIN @ |-> IF x \in ids THEN [@[x] EXCEPT !.stop = TRUE] ELSE @[x]],
            !.ip.stop = IF m.ip.id \in ToSet(m.us[m.ip.u].q) THEN TRUE ELSE @]

-----------------------------------------------------------------------------
(* The text of a command.  Positions are indices into the line; one past   *)
(* the end means the input is used up.                                     *)
RECURSIVE TokenEnd(_,_), Number(_,_,_)
TokenEnd(q, i) == IF i <= Len(q) /\ ~ White(q[i]) THEN TokenEnd(q, i + 1) ELSE i
Number(q, i, n) == IF i <= Len(q) /\ IsDigit(q[i]) THEN Number(q, i + 1, WAdd(WMul(n, "10"), WSub(q[i], "48"))) ELSE <<n, i>>
(* <<value, next index, whether reading may go on>>; the value is default  *)
(* if there is nothing, and 0 if there is no number                        *)
Unsigned(q, i, default) ==
  LET s == SkipW(q, i) IN
  IF s > Len(q) THEN <<default, s, FALSE>>
  ELSE LET sg == q[s] \in {"43", "45"}
           r == Number(q, IF sg THEN s + 1 ELSE s, "0")
       IN  IF r[2] = (IF sg THEN s + 1 ELSE s) THEN <<"0", s, FALSE>>
           ELSE <<IF q[s] = "45" THEN WNeg(r[1]) ELSE r[1], r[2], TRUE>>
(* it has components this description has no room for *)
Wide(x) == \E k \in 1..Len(x) : k > VD /\ x[k] # "0"
OrVec(x, default) == IF x = << >> THEN default ELSE VOf(x)

-----------------------------------------------------------------------------
(* The cells around a position *)
MaxShown == 40
FieldText(m, du, fu, ctr, siz, d1, d2, ipid) ==
  LET at(x, y) == [ctr EXCEPT ![d1] = x, ![d2] = y]
      n(d) == LET s == siz[d] IN IF WLt(s, "0") THEN 0 ELSE 2 * I(s) + 1
      from(d) == WSub(ctr[d], siz[d])
      one(p) ==
        LET c == (IF \E t \in DOMAIN Thr(m, du) : Live(m, du, t) /\ GetIp(m, t).pos = p THEN CSI \o "43;1m" ELSE "")
                 \o (IF p \in m.us[du].brk THEN CSI \o "41;1m" ELSE "")
                 \o (IF p \in m.us[du].wat THEN CSI \o "34;1m" ELSE "")
                 \o (IF p = ctr THEN CSI \o "4m" ELSE "")
                 \o (IF ipid # "" /\ p = GetIp(m, ipid).pos THEN CSI \o "42;1m" ELSE "")
        IN  c \o Esc(Get(m.us[fu].f, p)) \o (IF c = "" THEN "" ELSE CSI \o "0m")
      row(y) == Ln(Cat([j \in 1..n(d1) |-> one(at(WAdd(from(d1), W(j - 1)), y))], 1))
  IN  Cat([j \in 1..n(d2) |-> row(WAdd(from(d2), W(j - 1)))], 1)
ShowField(m, du, fu, ctr, siz, dims, ipid) ==
  LET a == dims[1] b == IF VD = 1 THEN "0" ELSE dims[2] IN
  IF WLt(a, "0") \/ WLt(b, "0") \/ a = b \/ WLe("16", WMax(a, b)) THEN m
  ELSE IF WLe(W(VD), WMax(a, b)) THEN GiveUp(m)
  ELSE IF \E d \in {I(a) + 1, I(b) + 1} : WLt(W(MaxShown), siz[d]) THEN GiveUp(m)
  ELSE IF \E d \in {I(a) + 1, I(b) + 1} : siz[d] = MinWord THEN GiveUp(m)
  ELSE Out(m, FieldText(m, du, fu, ctr, siz, I(a) + 1, I(b) + 1, ipid))
Around == VOf(<<"3", "3">>)
Plane == VOf(<<"0", "1">>)

-----------------------------------------------------------------------------
(* A session s: machine m, the universe u looked at, the pointer r commands *)
(* are about ("" if none) and whether to go on reading commands             *)
Commands == ("run" :> "run") @@ ("r" :> "run") @@ ("continue" :> "run") @@ ("con" :> "run") @@ ("c" :> "run")
            @@ ("quit" :> "quit") @@ ("q" :> "quit") @@ ("step" :> "step") @@ ("stp" :> "step") @@ ("s" :> "step")
            @@ ("peek" :> "peek") @@ ("p" :> "peek") @@ ("delta" :> "delta") @@ ("dir" :> "delta") @@ ("d" :> "delta")
            @@ ("storage" :> "storage") @@ ("position" :> "position") @@ ("pos" :> "position")
            @@ ("thread" :> "thread") @@ ("t" :> "thread") @@ ("backtrace" :> "backtrace") @@ ("bt" :> "backtrace")
            @@ ("setdelta" :> "setdelta") @@ ("setpos" :> "setpos") @@ ("get" :> "get") @@ ("g" :> "get")
            @@ ("list" :> "list") @@ ("l" :> "list") @@ ("break" :> "break") @@ ("bp" :> "break")
            @@ ("watch" :> "watch") @@ ("wp" :> "watch") @@ ("read" :> "read") @@ ("universe" :> "universe") @@ ("u" :> "universe")
NeedThread == {"run", "step", "peek", "delta", "storage", "position", "backtrace", "setdelta", "setpos", "list"}

AddPoint(set, x) == IF x = << >> THEN set ELSE set \cup {VOf(x)}
PointsText(name, set) == LET q == VSorted(set) IN Cat([k \in 1..Len(q) |-> Ln(name \o " " \o VStr(q[k]))], 1)
PeekText(ss, k) ==
  LET line(j) == LET q == ss[Len(ss) - j] IN
                 Ln("[" \o ToString(j) \o "] " \o Cat([x \in 1..Len(q) |-> q[x] \o " "], 1))
  IN  Cat([j \in 1..Len(ss) |-> line(j - 1)], 1)
(* universes are listed in no particular order *)
RECURSIVE OrderBy(_,_)
OrderBy(s, n) == IF s = {} THEN << >>
                 ELSE LET q == SetToSeq(s) x == q[(n % Len(q)) + 1] IN <<x>> \o OrderBy(s \ {x}, n \div Len(q))
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)

Command(s, q) ==
  LET m == s.m
      e == TokenEnd(q, SkipW(q, 1))
      word == Text(SubSeq(q, SkipW(q, 1), e - 1))
      cmd == IF word \in DOMAIN Commands THEN Commands[word] ELSE ""
      say(x) == [s EXCEPT !.m = Out(@, x)]
      rec == GetIp(m, s.r)
      x1 == Vec(q, e) x2 == Vec(q, x1[2]) x3 == Vec(q, x2[2])
      silent == [s EXCEPT !.m = GiveUp(@), !.go = FALSE]
      \* a stack from its end first; which end that is, the modes decide
      seen(st) == IF "queue" \in m.us[rec.u].mode THEN Rev(st) ELSE st
  IN
  CASE cmd = "" -> s
    [] cmd \in NeedThread /\ s.r = "" -> say(Ln("No thread."))
    [] cmd = "run" -> [s EXCEPT !.m = SetSt(@, s.u, s.r, "run"), !.go = FALSE]
    [] cmd = "step" -> [s EXCEPT !.m = SetSt(@, s.u, s.r, "step"), !.go = FALSE]
    [] cmd = "quit" -> [s EXCEPT !.m = QuitAll(@), !.go = FALSE]
    [] cmd = "delta" -> say(Ln("Delta " \o VStr(rec.dlt)))
    [] cmd = "storage" -> say(Ln("Storage " \o VStr(rec.sto)))
    [] cmd = "position" -> say(IpLine(m, s.r))
    [] cmd = "peek" ->
         LET c == Unsigned(q, e, "0")
             k == IF c[3] THEN Unsigned(q, c[2], "0")[1] ELSE "0"
             n == Len(rec.ss)
         IN  IF c[1] = "0" THEN say(PeekText([j \in 1..n |-> seen(rec.ss[j])], 1))
             ELSE IF WLt(k, "0") \/ WLe(W(n), k) THEN say(Ln("No stack."))
             ELSE LET st == seen(rec.ss[n - I(k)]) IN
                  say(Ln(IF WLt(c[1], "0") \/ WLt(W(Len(st)), c[1]) THEN "0" ELSE st[Len(st) - I(c[1]) + 1]))
    [] cmd = "thread" ->
         LET t == Unsigned(q, e, IF s.r = "" THEN "0" ELSE s.r)[1]
             r1 == IF Live(m, s.u, t) THEN t ELSE s.r
             ids == ThrIds(m, s.u)
             line(t1) == IF Live(m, s.u, t1) THEN (IF r1 = t1 THEN "* " ELSE "  ") \o IpLine(m, t1)
                         ELSE Ln("  " \o t1 \o ": end")
         IN  [say(Cat([k \in 1..Len(ids) |-> line(ids[k])], 1)) EXCEPT !.r = r1]
    [] cmd = "backtrace" ->
         LET b == IF s.r \in DOMAIN Thr(m, s.u) THEN Thr(m, s.u)[s.r].bt ELSE << >>
             line(k) == Ln("#" \o ToString(k - 1) \o "  " \o VStr(b[k]) \o " " \o Quoted(Get(m.us[rec.u].f, b[k])))
         IN  say(Ln("Backtrace") \o Cat([k \in 1..Len(b) |-> line(k)], 1))
    [] cmd = "setdelta" ->
         IF Wide(x1[1]) THEN silent
         ELSE LET m0 == [m EXCEPT !.ip = rec]
                  r1 == IF x1[1] = << >> THEN rec ELSE SetDelta(m0, VOf(x1[1])).ip
              IN  [s EXCEPT !.m = Out(SetIp(m, s.r, r1), Ln("Delta " \o VStr(r1.dlt)))]
    [] cmd = "setpos" ->
         IF Wide(x1[1]) THEN silent
         ELSE LET m1 == SetIp(m, s.r, [rec EXCEPT !.pos = OrVec(x1[1], @)]) IN [s EXCEPT !.m = Out(m1, IpLine(m1, s.r))]
    [] cmd = "get" ->
         IF Wide(x1[1]) \/ Wide(x2[1]) THEN silent
         ELSE [s EXCEPT !.m = ShowField(m, s.u, s.u, OrVec(x1[1], IF s.r = "" THEN Zero ELSE rec.pos),
                                        OrVec(x2[1], Around), OrVec(x3[1], Plane), s.r)]
    [] cmd = "list" ->
         IF Wide(x1[1]) THEN silent
         ELSE [s EXCEPT !.m = ShowField(m, s.u, rec.u, rec.pos, OrVec(x1[1], Around), OrVec(x2[1], Plane), s.r)]
    [] cmd = "break" ->
         IF Wide(x1[1]) THEN silent
         ELSE LET b == AddPoint(m.us[s.u].brk, x1[1]) IN
              [s EXCEPT !.m = Out([m EXCEPT !.us[s.u].brk = b], PointsText("Breakpoint", b))]
    [] cmd = "watch" ->
         IF Wide(x1[1]) THEN silent
         ELSE LET w == AddPoint(m.us[s.u].wat, x1[1]) IN
              [s EXCEPT !.m = Out([m EXCEPT !.us[s.u].wat = w], PointsText("Watchpoint", w))]
    [] cmd = "read" ->
         LET w == Get(m.us[s.u].f, OrVec(x1[1], Zero)) IN
         IF Wide(x1[1]) THEN silent ELSE say(Ln("Value = (" \o w \o ") " \o Quoted(w)))
    [] cmd = "universe" ->
         LET b == SkipW(q, e)
             name == Text(SubSeq(q, b, TokenEnd(q, b) - 1))
             u1 == IF name \in DOMAIN m.us THEN name ELSE s.u
             l == m.us[u1].last
             r1 == IF name \notin DOMAIN m.us THEN s.r ELSE IF Live(m, u1, l) THEN l ELSE ""
             names == OrderBy(DOMAIN m.us, m.ora)
         IN  [s EXCEPT !.u = u1, !.r = r1,
                       !.m = Drawn(Out(m, Cat([k \in 1..Len(names) |->
                                        Ln((IF names[k] = u1 THEN "* " ELSE "  ") \o names[k])], 1)), Fact(Len(names)))]

LineEnd(q) == LET S == {k \in 1..Len(q) : q[k] = "10"} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
RECURSIVE Session(_)
Session(s) ==
  LET m == Out(s.m, PromptText)
      e == LineEnd(m.inp)
      line == IF m.inp = << >> THEN Codes("quit") ELSE IF e = 0 THEN m.inp ELSE SubSeq(m.inp, 1, e - 1)
      m1 == [m EXCEPT !.inp = IF e = 0 THEN << >> ELSE SubSeq(@, e + 1, Len(@))]
      s1 == Command([s EXCEPT !.m = m1], line)
  IN  IF s1.go THEN Session(s1) ELSE s1.m

(* read commands, unless the pointer ended or runs on *)
Debug(m, u, id) ==
  IF GetIp(m, id).stop \/ Thr(m, u)[m.us[u].last].st = "run" THEN m
  ELSE Session([m |-> Out(m, IpLine(m, id)), u |-> u, r |-> id, go |-> TRUE])
Intro(m, u) ==
  IF m.intro THEN m
  ELSE LET a == m.us[u].args IN
       [Out(m, Ln("Funge++ Debugger") \o Ln(Cat([k \in 1..Len(a) |-> Text(a[k]) \o " "], 1))) EXCEPT !.intro = TRUE]
Enter(m) ==
  LET u == m.ip.u id == m.ip.id
      m1 == IF Live(m, u, id) THEN m
            ELSE Out([m EXCEPT !.us[u].thr = IF id \in DOMAIN @ THEN [@ EXCEPT ![id] = [st |-> "start", bt |-> << >>]]
                                             ELSE @ @@ (id :> [st |-> "start", bt |-> << >>])], Ln("New IP " \o id))
  IN  [m1 EXCEPT !.us[u].last = id]

-----------------------------------------------------------------------------
(* before the instruction at the current position *)
MaxBacktrace == 10
BeforeInst(m) ==
  IF ~ Mode(m, "debug") \/ m.ip.stop THEN m ELSE
  LET u == m.ip.u id == m.ip.id
      m1 == Enter(Intro(m, u))
      m2 == IF m.ip.pos \in m.us[u].brk THEN SetSt(Out(m1, Ln("Breakpoint " \o VStr(m.ip.pos))), u, id, "break") ELSE m1
      m3 == [m2 EXCEPT !.us[u].thr[id].bt = <<m.ip.pos>> \o (IF Len(@) >= MaxBacktrace THEN SubSeq(@, 1, MaxBacktrace - 1) ELSE @)]
  IN  Debug(m3, u, id)
StopHere(m, why) ==
  IF ~ Mode(m, "debug") THEN m ELSE
  LET u == m.ip.u
      m1 == Enter(Intro(m, u))
  IN  Debug(SetSt(Out(m1, Ln(why \o " " \o VStr(m.ip.pos))), u, m.ip.id, "break"), u, m.ip.id)
(* before w is stored at v of universe u *)
BeforeStore(m, u, v, w) ==
  LET uu == m.us[u] IN
  IF v \notin uu.wat \/ "debug" \notin uu.mode \/ ~ Live(m, u, uu.last) THEN m
  ELSE LET m1 == Intro(SetSt(m, u, uu.last, "break"), GetIp(m, uu.last).u)
           val(x) == "(" \o x \o ") " \o Quoted(x)
       IN  Debug(Out(m1, Ln("Watchpoint " \o VStr(v)) \o Ln("Old value = " \o val(Get(uu.f, v)))
                         \o Ln("New value = " \o val(w))), u, uu.last)
EndThread(m, u, id) == IF id \in DOMAIN Thr(m, u) THEN SetSt(m, u, id, "end") ELSE m

PutIn(m, u, v, w) == LET m1 == BeforeStore(m, u, v, w) IN [m1 EXCEPT !.us[u].f = Put(@, v, w)]
PutAt(m, v, w) == PutIn(m, m.ip.u, v, w)
PutHere(m, w) == PutAt(m, m.ip.pos, w)
=============================================================================
