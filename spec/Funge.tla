------------------------------- MODULE Funge --------------------------------
(***************************************************************************)
(* The interpreter: which instruction a cell is for a pointer, one turn of *)
(* a pointer, and the turns of all pointers.                               *)
(***************************************************************************)
EXTENDS FishLang

-----------------------------------------------------------------------------
(* Fingerprints.  Layers of a letter are <<fingerprint, letter>>; the last *)
(* is in force.  A library's are <<"LIB", letter, fingerprint word>>;      *)
(* <<"reflect", letter>> reflects.                                         *)
Layers(ip, c) == IF c \in DOMAIN ip.sem THEN ip.sem[c] ELSE << >>
PushLayer(m, c, l) == [m EXCEPT !.ip.sem = IF c \in DOMAIN @ THEN [@ EXCEPT ![c] = Append(@, l)] ELSE @ @@ (c :> <<l>>)]
PopLayer(m, c) == IF Layers(m.ip, c) = << >> THEN m
                  ELSE [m EXCEPT !.ip.sem[c] = SubSeq(@, 1, Len(@) - 1)]
TopLayer(ip, c) == LET l == Layers(ip, c) IN IF l = << >> THEN <<"none">> ELSE l[Len(l)]

DynamicId == "7239381865414026086"         \* "dynamicf"
FpName(w) == IF WLt(w, "0") THEN "?" ELSE IF w = DynamicId THEN "Dynamic" ELSE Text(UDigits(w, "256"))
IsBuiltin(m, w) == IF w = DynamicId THEN U(m).creator # "" ELSE FpName(w) \in DOMAIN Letters \ {"Dynamic"}
FpLetters(m, w) == IF w \in DOMAIN m.ip.libu THEN m.us[m.ip.libu[w]].planes ELSE LettersOf(FpName(w))
Activate(m, w) ==
  LET lib == w \in DOMAIN m.ip.libu
      one(x, c) == PushLayer(x, c, IF lib THEN <<"LIB", c, w>> ELSE <<FpName(w), c>>)
  IN  [FoldLeft(one, m, FpLetters(m, w)) EXCEPT !.ip.loaded = Append(@, w)]

(* the universe of a library file *)
LibConfig(m) == [Cfg0 EXCEPT !.std = 98, !.fings = <<DynamicId>>,
                             !.mode = IF Mode(m, "debug") THEN {"debug"} ELSE {}]
Load(m, w) ==
  IF w \in m.ip.avail THEN Activate(m, w)
  ELSE IF FpName(w) \in DOMAIN m.lib
       THEN LET c == [LibConfig(m) EXCEPT !.dims = 0]
                name == FreeName(m.us, m.libdir \o FpName(w) \o ".fl")
                u == [LoadUniverse(c, "fl", m.lib[FpName(w)], m.ip.id) EXCEPT !.dim = 3]
            IN  Activate([m EXCEPT !.us = @ @@ (name :> u), !.ip.avail = @ \cup {w},
                                   !.ip.libu = IF w \in DOMAIN @ THEN [@ EXCEPT ![w] = name] ELSE @ @@ (w :> name)], w)
  ELSE IF IsBuiltin(m, w)
       THEN Activate([m EXCEPT !.ip.avail = @ \cup {w}, !.ip.fst = @ @@ (FpName(w) :> NewState(FpName(w)))], w)
  ELSE Fail(m)
LastIndex(q, w) == LET S == {i \in 1..Len(q) : q[i] = w} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Unload(m, w) ==
  IF w \notin m.ip.avail THEN Fail(m)
  ELSE LET m1 == FoldLeft(LAMBDA x, c : PopLayer(x, c), m, FpLetters(m, w))
           k == LastIndex(m.ip.loaded, w)
       IN  IF k = 0 THEN m1 ELSE [m1 EXCEPT !.ip.loaded = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]

(* the operand of ( and ): a count of cells, then the cells, most significant first *)
FpWord(m) == LET n == A(m, 1) k == IF WLt(n, "0") THEN 0 ELSE I(n) IN
             FoldLeft(LAMBDA w, i : WAdd(WShl(w, "8"), A(m, 1 + i)), "0", [i \in 1..k |-> i])
FpCells(m) == LET n == A(m, 1) IN 1 + (IF WLt(n, "0") THEN 0 ELSE I(n))
Switch(m, c) == IF Mode(m, "switch") THEN PutHere(m, Ord(c)) ELSE m
LoadInst(m) ==
  IF ~ U(m).fing THEN Switch(Err(m, "notavail"), ")")
  ELSE IF WLt("0", A(m, 1)) /\ ~ Small(A(m, 1)) THEN GiveUp(m)
  ELSE LET w == FpWord(m) m1 == Load(D(m, FpCells(m)), w) IN
       IF m1.err = "none" THEN Switch(PL(m1, <<w, "1">>), ")") ELSE Switch(m1, ")")
UnloadInst(m) ==
  IF ~ U(m).fing THEN Switch(Err(m, "notavail"), "(")
  ELSE IF WLt("0", A(m, 1)) /\ ~ Small(A(m, 1)) THEN GiveUp(m)
  ELSE LET w == FpWord(m) IN Switch(Unload(D(m, FpCells(m)), w), "(")

(* FING *)
LetterOf(w) == IF WLe("0", w) /\ WLe(w, "25") THEN Ch(WAdd(w, "65"))
               ELSE IF WLe("65", w) /\ WLe(w, "90") THEN Ch(w) ELSE "?"
OrReflect(l, c) == IF l = <<"none">> THEN <<"reflect", c>> ELSE l
FING(m, c) ==
  LET x == LetterOf(A(m, 1)) y == LetterOf(A(m, 2)) IN
  CASE x = "?" -> Fail(D(m, 1))
    [] c = "Y" -> PopLayer(D(m, 1), x)
    [] y = "?" -> Fail(D(m, 2))
    [] c = "X" -> LET m1 == D(m, 2)
                      lx == OrReflect(TopLayer(m1.ip, x), x)
                      m2 == PopLayer(m1, x)
                      ly == OrReflect(TopLayer(m2.ip, y), y)
                      m3 == PopLayer(m2, y)
                  IN  PushLayer(PushLayer(m3, x, ly), y, lx)
    [] c = "Z" -> PushLayer(D(m, 2), x, OrReflect(TopLayer(m.ip, y), y))

-----------------------------------------------------------------------------
(* Pointers *)
NewIp(id, u, std, idim, pos, dlt) ==
  [id |-> id, u |-> u, pos |-> pos, dlt |-> dlt, sto |-> Zero, ss |-> <<<< >>>>, sel |-> 0,
   st |-> "normal", send |-> "34", sprev |-> "0", stop |-> FALSE, std |-> std, idim |-> idim,
   sem |-> [c \in {} |-> << >>], loaded |-> << >>, avail |-> {}, fst |-> [c \in {} |-> << >>], par |-> "",
   fi |-> [up |-> TRUE, last |-> Unit(1, "1"), regs |-> <<NoReg>>, file |-> [open |-> FALSE, rest |-> << >>], fpath |-> ""],
   libu |-> [c \in {} |-> ""], lib |-> [id |-> ""], ink |-> 0]
(* load fingerprints into a pointer that is not the current one *)
WithFings(m, r, fings) ==
  LET m1 == FoldLeft(LAMBDA x, w : [Load(x, w) EXCEPT !.err = "none"], [m EXCEPT !.ip = r], fings)
  IN  <<[m1 EXCEPT !.ip = m.ip, !.err = m.err], m1.ip>>
AddIp(m, r) ==
  LET u == r.u r1 == IF m.us[u].run THEN r ELSE [r EXCEPT !.stop = TRUE] IN
  [m EXCEPT !.ips = @ @@ (r.id :> r1), !.us[u].q = Append(@, r.id), !.next = @ + 1]
(* a fresh pointer in universe u; sharing the stacks of pointer s if par is not "" *)
Spawn(m, u, pos, dlt, par, ss, sel) ==
  LET uu == m.us[u]
      d == IF "hover" \in uu.mode THEN VAdd(Unit(1, "1"), dlt) ELSE dlt
      r0 == [NewIp(W(m.next), u, uu.std, uu.dim, pos, d) EXCEPT !.par = par, !.ss = ss, !.sel = sel]
      x == WithFings(m, r0, IF uu.std = 98 /\ uu.dim > 0 THEN uu.fings ELSE << >>)
  IN  AddIp(x[1], x[2])
(* t *)
Split(m) ==
  IF ~ U(m).conc THEN Err(m, "notavail") ELSE
  LET p == m.ip
      r0 == [NewIp(W(m.next), p.u, p.std, p.idim, p.pos, VNeg(p.dlt))
             EXCEPT !.par = p.id, !.ss = p.ss, !.sel = p.sel, !.sto = p.sto, !.stop = p.stop]
      x == WithFings(m, r0, p.loaded)
      r == x[2]
  IN  AddIp(x[1], IF r.stop THEN r ELSE [r EXCEPT !.pos = Step(m, r.pos, r.dlt)])

-----------------------------------------------------------------------------
(* String mode *)
IsSpaceW(w) == w \in {"32", "9", "10", "11", "12", "13"}
EscapeOf == [c \in {"0","a","b","t","n","v","f","r","e"} |->
               CASE c = "0" -> "0" [] c = "a" -> "7" [] c = "b" -> "8" [] c = "t" -> "9" [] c = "n" -> "10"
                 [] c = "v" -> "11" [] c = "f" -> "12" [] c = "r" -> "13" [] c = "e" -> "27"]
PushChar(m, w) == IF m.ip.std < 0 THEN FPush(m, w) ELSE P(m, w)
StringExec(m, w) ==
  IF w = m.ip.send THEN [m EXCEPT !.ip.st = "normal", !.ip.sprev = "0"]
  ELSE CASE U(m).strs = "multispace" -> PushChar(m, w)
         [] U(m).strs = "sgml" -> IF IsSpaceW(w) /\ IsSpaceW(m.ip.sprev) THEN Err(m, "skip")
                                  ELSE [PushChar(m, w) EXCEPT !.ip.sprev = w]
         [] U(m).strs = "c" -> IF w # "92" THEN PushChar(m, w)
                               ELSE LET m1 == Nx(m) e == Here(m1) IN
                                    PushChar(m1, IF Ch(e) \in DOMAIN EscapeOf THEN EscapeOf[Ch(e)] ELSE e)

-----------------------------------------------------------------------------
(* a library instruction: a pointer with this one's stacks starts at the   *)
(* letter's plane; this one waits until the library has no more pointers   *)
LibCall(m, c, w) ==
  LET lu == m.ip.libu[w]
      m1 == Spawn(m, lu, VOf(<<"0", "0", WSub(Ord(c), "65")>>), Unit(1, "1"), m.ip.id, m.ip.ss, m.ip.sel)
  IN  IF VD < 3 THEN GiveUp(m)
      ELSE [m1 EXCEPT !.err = "call", !.ip.lib = [id |-> W(m.next), u |-> lu, cont |-> << >>]]

KnownBase(ip, ch) == CASE ip.std = -1 -> ch \in FishOps
                       [] ip.std = -2 -> ch \in FishOps \cup StarOps
                       [] OTHER -> KnownOp(ip, ch)
BaseMove(ip, ch) == CASE ip.std = -1 -> ch \in FishMoves
                      [] ip.std = -2 -> ch \in StarMoves
                      [] OTHER -> ch \in Movement
LayerMove(l) == l[1] = "FISH" /\ l[2] \in {"U", "O"}

RECURSIVE Exec(_,_), Repeat(_,_,_), Resume(_,_)
(* execute the instruction in a cell holding w *)
Exec(m, w) ==
  IF m.ip.st = "string" THEN StringExec(m, w) ELSE
  LET ch == Ch(w)
      l == TopLayer(m.ip, ch)
      base == l = <<"none">>
  IN
  IF base /\ ~ KnownBase(m.ip, ch) THEN Err(m, "unimp")
  ELSE IF Mode(m, "dive") /\ ~ (IF base THEN BaseMove(m.ip, ch) ELSE LayerMove(l)) THEN Err(m, "skip")
  ELSE IF ~ base
       THEN CASE l[1] = "reflect" -> Reflect(m)
              [] l[1] = "LIB" -> LibCall(m, l[2], l[3])
              [] l[1] = "FING" -> FING(m, l[2])
              [] OTHER -> FpExec(m, l[1], l[2])
  ELSE IF m.ip.std = -1 THEN FishExec(m, ch)
  ELSE IF m.ip.std = -2 THEN StarExec(m, ch)
  ELSE CASE ch = "k" -> LET RECURSIVE Find(_,_,_), Over(_,_)
                            Over(x, n) == LET x1 == Nx(x) IN
                                          IF n = 0 \/ Here(x1) = "59" THEN Nx(x1) ELSE Over(x1, n - 1)
                            Find(x, n, mark) ==
                                          LET c == Here(x)
                                              k == SkipLimit - n
                                              mk == IF IsPow2(k) THEN x.ip.pos ELSE mark
                                          IN
                                          IF n = 0 \/ c \notin {"32", "59"} \/ (k > 0 /\ x.ip.pos = mark) THEN x
                                          ELSE Find(IF c = "32" THEN Nx(x) ELSE Over(x, 1000), n - 1, mk)
                            m0 == Nx(m)
                            at == Find(m0, SkipLimit, m0.ip.pos)
                            c == Here(at)
                            n == A(m, 1)
                            m1 == D(m, 1)
                        IN  IF c \in {"32", "59"} THEN Err(m, "diverge")
                            ELSE IF n = "0" THEN SetPos(m1, at.ip.pos)
                            ELSE IF WLt(n, "0") THEN m1
                            ELSE IF ~ Fits(n) \/ (Fits(n) /\ I(n) > 2000) THEN GiveUp(m)
                            ELSE Repeat([m1 EXCEPT !.ip.ink = @ + 1], c, I(n))
         [] ch = "t" -> Split(m)
         [] ch = "(" -> LoadInst(m)
         [] ch = ")" -> UnloadInst(m)
         [] OTHER -> IF \E d \in 1..2 : ch \in Ops93[d] THEN Exec93(m, ch) ELSE Exec98(m, ch)
(* execute it n times more, or until the pointer ends; a call leaves the   *)
(* rest for later                                                          *)
Repeat(m, c, n) ==
  IF n = 0 \/ m.ip.stop THEN [m EXCEPT !.ip.ink = @ - 1, !.err = "none"]
  ELSE LET m1 == Exec([m EXCEPT !.err = "none"], c) IN
       CASE m1.err = "call" -> [m1 EXCEPT !.ip.lib.cont = Append(@, <<c, n - 1>>)]
         [] m1.err \in {"giveup", "diverge"} -> m1
         [] OTHER -> Repeat(m1, c, n - 1)
(* the k instructions around a finished call *)
Resume(m, cont) ==
  IF cont = << >> THEN m
  ELSE LET m1 == Repeat(m, cont[1][1], cont[1][2]) IN
       CASE m1.err = "call" -> [m1 EXCEPT !.ip.lib.cont = @ \o Tail(cont)]
         [] m1.err = "none" -> Resume(m1, Tail(cont))
         [] OTHER -> m1

-----------------------------------------------------------------------------
(* One turn of the current pointer: instructions up to and including the   *)
(* first that takes time.                                                  *)
What(m) == LET ch == Ch(Here(m)) l == TopLayer(m.ip, ch) IN
           IF m.ip.st = "string" THEN "string " \o U(m).strs
           ELSE IF l # <<"none">> THEN l[1] \o " " \o l[2]
           ELSE IF KnownBase(m.ip, ch) THEN ToString(m.ip.std) \o " " \o ch ELSE "unknown"
Cov(m, x) == IF x \in m.cov THEN m ELSE [m EXCEPT !.cov = @ \cup {x}]
(* passing over cells changes nothing but the pointer, and the input when  *)
(* it is debugged                                                          *)
Mark(m) == <<m.ip, Len(m.inp)>>
RECURSIVE TurnS(_,_,_), EndTurnS(_,_,_)
TurnS(m0, n, mark) ==
  LET m == BeforeInst([m0 EXCEPT !.err = "none"]) IN
  IF m.err = "giveup" \/ m.ip.stop THEN m
  ELSE IF Here(m) = SP /\ m.ip.st = "normal" /\ (m.ip.idim > 0 \/ m.ip.std < 0) THEN EndTurnS(Err(m, "skip"), n, mark)
  ELSE LET x == What(m)
           m1 == Exec([m EXCEPT !.err = "none"], Here(m))
       IN  EndTurnS(Cov(m1, IF m1.err = "none" THEN x ELSE x \o " " \o m1.err), n, mark)
EndTurnS(m, n, mark) ==
  CASE m.err = "none" -> Nx(m)
    [] m.err = "skip" -> LET m1 == Nx(m) IN
                         IF Mark(m1) = mark THEN Err(m, "diverge")
                         ELSE IF n = 1 THEN Err(m1, "more")
                         ELSE TurnS(m1, n - 1, mark)
    [] m.err = "block" -> [m EXCEPT !.err = "none"]
    [] m.err \in {"call", "giveup", "diverge"} -> m
    [] OTHER -> LET m1 == StopHere([m EXCEPT !.err = "none"], "Exception Trapped") IN
                IF m1.err = "giveup" THEN m1
                ELSE IF m.ip.std < 0 THEN IF m.err = "unimp" /\ Mode(m, "dive") THEN Nx(m1) ELSE [KillAll(m1, "1") EXCEPT !.smell = TRUE]
                ELSE IF m.ip.idim = 0 THEN Nx(m1) ELSE Nx(Reflect(m1))
(* by blocks of cells passed over, up to SkipLimit of them *)
More(m0) ==
  IF m0.err # "more" THEN m0
  ELSE LET Next(x, k) == IF x[1].err # "more" THEN x
                         ELSE LET mk == IF IsPow2(k) THEN Mark(x[1]) ELSE x[2] IN <<TurnS(x[1], SkipBlock, mk), mk>>
           r == FoldLeft(Next, <<m0, << >>>>, [k \in 1..(SkipLimit \div SkipBlock) |-> k])[1]
       IN  IF r.err = "more" THEN Err(r, "diverge") ELSE r
Turn(m) == More(TurnS(m, SkipBlock, Mark(m)))
EndTurn(m) == More(EndTurnS(m, SkipBlock, Mark(m)))

(* Universe u gives pointer id (the first of its queue) its turn *)
BeginTurn(m, u, id) == [m EXCEPT !.ip = m.ips[id], !.err = "none", !.nval = 0, !.nd = 1]
Store(m) == [m EXCEPT !.ips[m.ip.id] = m.ip]
(* its library's caller sees the stacks *)
Sync(m, u) ==
  LET c == m.us[u].creator IN
  IF c # "" /\ c \in DOMAIN m.ips /\ m.ips[c].lib.id = m.ip.id
  THEN [m EXCEPT !.ips[c].ss = m.ip.ss, !.ips[c].sel = m.ip.sel] ELSE m
DropIp(m, id) == [m EXCEPT !.ips = [x \in DOMAIN @ \ {id} |-> @[x]]]
(* after its turn in universe u: to the end of the queue, to another       *)
(* universe, or gone                                                       *)
After(m, u) ==
  LET id == m.ip.id
      q == m.us[u].q
      rest == SelectSeq(q, LAMBDA x : x # id)
      m0 == Sync(Store(m), u)
      m1 == IF m.ip.u # u \/ m.ip.stop THEN EndThread(m0, u, id) ELSE m0
  IN  IF m.ip.u # u
      THEN LET m2 == [m1 EXCEPT !.us[u].q = rest] IN
           IF m.us[m.ip.u].run THEN [m2 EXCEPT !.fl = @ \cup {id}]
           ELSE [m2 EXCEPT !.ips[id].stop = TRUE]
      ELSE IF m.ip.stop THEN [DropIp(m1, id) EXCEPT !.us[u].q = rest]
      ELSE [m1 EXCEPT !.us[u].q = Append(rest, id)]
(* the pointers that ended at the front of the queue *)
RECURSIVE Prune(_,_)
Prune(m, u) ==
  LET q == m.us[u].q IN
  IF q # << >> /\ m.ips[q[1]].stop THEN Prune([DropIp(EndThread(m, u, q[1]), q[1]) EXCEPT !.us[u].q = Tail(q)], u) ELSE m
(* the turn of id in universe u is next: with native threads, any pointer's *)
CanTurn(m, u, id) ==
  /\ u \in DOMAIN m.us
  /\ id \in DOMAIN m.ips
  /\ m.us[u].run
  /\ ~ m.ips[id].stop
  /\ m.ips[id].lib.id = ""
  /\ IF id \in m.fl THEN m.ips[id].u = u
     ELSE IF m.us[u].nat THEN m.ips[id].u = u
     ELSE LET q == Prune(m, u).us[u].q IN q # << >> /\ q[1] = id
TakeTurn(m, u, id) ==
  LET m0 == IF id \notin m.fl /\ m.us[u].nat THEN m
            ELSE IF id \in m.fl THEN [m EXCEPT !.fl = @ \ {id}, !.us[u].q = <<id>> \o @] ELSE Prune(m, u)
  IN  Turn(BeginTurn(m0, u, id))
(* the library pointer id waits for is no more, nor any other of its universe *)
Finished(m, u) == ~ m.us[u].run \/ \A i \in 1..Len(m.us[u].q) : m.us[u].q[i] \in DOMAIN m.ips => m.ips[m.us[u].q[i]].stop
CanResume(m, id) == id \in DOMAIN m.ips /\ m.ips[id].lib.id # "" /\ Finished(m, m.ips[id].lib.u)
ResumeTurn(m, id) ==
  LET m1 == BeginTurn(m, m.ips[id].u, id)
      cont == m1.ip.lib.cont
      m2 == Resume([m1 EXCEPT !.ip.lib = [id |-> ""]], cont)
  IN  EndTurn(m2)

(* nobody can take a turn any more *)
Over(m) == /\ \A x \in m.fl : ~ m.us[m.ips[x].u].run
           /\ \A u \in DOMAIN m.us : Finished(m, u)

-----------------------------------------------------------------------------
NewMachine(us, fs, inp, lib, libdir) ==
  [us |-> us, ips |-> [c \in {} |-> << >>], ip |-> [id |-> ""], fl |-> {}, next |-> 0, inp |-> inp, out |-> "", fs |-> fs,
   err |-> "none", ora |-> 0, nd |-> 1, val |-> <<"none", "none">>, nval |-> 0, refc |-> [c \in {} |-> << >>], clk |-> "0",
   cwd |-> << >>, all |-> "", smell |-> FALSE, intro |-> FALSE, lib |-> lib, libdir |-> libdir, cov |-> {}, prime |-> ""]

(* Start: the machine the command line makes, or the status it is refused with *)
Extn(p) == CASE Ext(p) = ".beq" -> "beq" [] Ext(p) = ".fl" -> "fl" [] OTHER -> "bf"
OpenUniverse(m, c, p, name) ==         \* <<machine, status>>
  LET c1 == AutoStd(IF Ext(p) = ".beq" THEN [c EXCEPT !.fings = Append(@, "1313232206")] ELSE c, Ext(p))
      n == FreeName(m.us, name)
      u == LoadUniverse(c1, Extn(p), m.fs[p], "")
      m1 == [m EXCEPT !.us = @ @@ (n :> u), !.prime = IF @ = "" THEN n ELSE @]
  IN  IF p \notin DOMAIN m.fs THEN <<m, EIO>>
      ELSE <<Spawn(m1, n, Zero, Unit(1, "1"), "", <<<< >>>>, 0), 0>>
RECURSIVE OpenAll(_,_,_,_)
OpenPath(m, c, name) ==
  LET p == FileName(name) IN
  IF Ext(p) # ".fmv" THEN OpenUniverse(m, c, p, name)
  ELSE IF p \notin DOMAIN m.fs THEN <<m, EIO>>
  ELSE OpenAll(m, c, name, SelectSeq(SplitOn(m.fs[p], LF), LAMBDA l : WordsOf(l) # << >>))
OpenAll(m, c, name, ls) ==
  IF ls = << >> THEN <<m, 0>>
  ELSE LET ws == WordsOf(ls[1])
           d == DirName(name)
           sub == (IF d = "" THEN "" ELSE d \o "/") \o Text(ws[1])
           c1 == [c EXCEPT !.args = @ \o Tail(ws)]
           p == FileName(sub)
           r == IF Ext(p) = ".fmv"
                THEN IF p \notin DOMAIN m.fs THEN <<m, EIO>>
                     ELSE OpenAll(m, c1, sub, SelectSeq(SplitOn(m.fs[p], LF), LAMBDA l : WordsOf(l) # << >>))
                ELSE OpenUniverse(m, c1, p, sub)
       IN  IF r[2] # 0 THEN r ELSE OpenAll(r[1], c, name, Tail(ls))
Boot(m, args, env) ==
  LET o == Options(Cfg0, args, 1)
      rest == SubSeq(args, o.i, Len(args))
      c == [o.c EXCEPT !.args = [i \in 1..Len(rest) |-> Bytes(rest[i])], !.env = env]
  IN  IF o.bad THEN <<m, EINVAL>>
      ELSE IF rest = << >> THEN <<m, EINVAL>>
      ELSE IF rest[1] = "" THEN <<m, EINVAL>>
      ELSE OpenPath(m, c, rest[1])
=============================================================================
