------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: recorded runs of the real interpreter are behaviours of    *)
(* the specification.  Every run of FILE (one JSON object per line: the    *)
(* command line, files and input, and what was observed) is followed turn  *)
(* by turn; after each turn everything observable of the pointer, its      *)
(* stacks, the universes and the output must agree.  A verdict is printed  *)
(* for each run:  OK, BAD (with what differs) or SILENT (the description   *)
(* has nothing to say about an instruction; the run counts up to there).   *)
(***************************************************************************)
EXTENDS Funge, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
VARIABLES sc, i, vm, snap, news
vars == <<sc, i, vm, snap, news>>

R == Runs[sc]
Ev == R.ev
Say(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
Dead == [dead |-> TRUE]
Stop(kind, x) == /\ Say(kind, [id |-> R.id, at |-> i, info |-> x])
                 /\ i' = -1 /\ vm' = Dead /\ snap' = Dead /\ news' = Dead /\ UNCHANGED sc

FilesOf(fs) == [n \in DOMAIN fs |-> Bytes(fs[n])]
Start == NewMachine([u \in {} |-> << >>], FilesOf(R.fs), Bytes(R.inp), FilesOf(R.lib), R.libdir)
Booted == Boot(Start, R.args, [k \in 1..Len(R.env) |-> Bytes(R.env[k])])

-----------------------------------------------------------------------------
(* cells as recorded: <<position, value>> pairs *)
Tidy(c) == IF \E v \in DOMAIN c : c[v] = SP THEN [v \in {x \in DOMAIN c : c[x] # SP} |-> c[v]] ELSE c
Apply(c, w) == FoldLeft(LAMBDA x, pv : IF pv[2] = SP THEN (IF pv[1] \in DOMAIN x THEN CellDel(x, pv[1]) ELSE x)
                                       ELSE CellSet(x, pv[1], pv[2]), c, w)
SameCells(c, d) == c = d \/ Tidy(c) = Tidy(d)
Cells0 == [v \in {} |-> "0"]

(* an announced universe, e, in machine m *)
NewsOk(m, e) == /\ e.u \in DOMAIN m.us
                /\ SameCells(m.us[e.u].f.c, Apply(Cells0, e.c))
                /\ m.us[e.u].f.mn = e.n /\ m.us[e.u].f.mx = e.m
                /\ m.us[e.u].dim = e.dim

SpaceDiff(m, e) ==
  LET base(u) == IF u \in DOMAIN snap THEN snap[u].f.c
                 ELSE LET S == {k \in 1..Len(news) : news[k].u = u} IN
                      IF S = {} THEN Cells0 ELSE Apply(Cells0, news[CHOOSE k \in S : TRUE].c)
      chg(u) == IF u \in DOMAIN e.w THEN e.w[u] ELSE << >>
  IN  {u \in DOMAIN m.us : ~ SameCells(m.us[u].f.c, Apply(base(u), chg(u)))}
      \cup {u \in DOMAIN e.w : u \notin DOMAIN m.us}
(* the names of what differs between machine m after a turn and event e *)
Diff(m, e) ==
  IF m.err # "none" THEN {"err " \o m.err} ELSE
  LET ip == m.ip u == m.us[e.u]
      t(x, b) == IF b THEN {} ELSE {x}
  IN  t("position", ip.pos = e.p) \cup t("delta", ip.dlt = e.d) \cup t("storage", ip.sto = e.s)
      \cup t("stopped", ip.stop = e.x) \cup t("stack", ip.ss = e.k) \cup t("selected", ip.sel = e.e)
      \cup t("modes", ModeWord(m.us[ip.u].mode) = e.g) \cup t("universe", ip.u = e.v)
      \cup t("space", SpaceDiff(m, e) = {}) \cup t("low bounds", u.f.mn = e.n) \cup t("high bounds", u.f.mx = e.m)
      \cup t("dimensions", u.dim = e.dim) \cup t("output", m.out = e.o)
      \cup t("new universe", \A k \in 1..Len(news) : news[k].u \in DOMAIN snap \/ NewsOk(m, news[k]))
Expected(m, d) ==
  LET ip == m.ip IN
  [x \in d |-> CASE x = "position" -> ToString(ip.pos) [] x = "delta" -> ToString(ip.dlt) [] x = "storage" -> ToString(ip.sto)
                 [] x = "stopped" -> ToString(ip.stop) [] x = "stack" -> ToString(ip.ss) [] x = "selected" -> ToString(ip.sel)
                 [] x = "modes" -> ToString(m.us[ip.u].mode) [] x = "universe" -> ip.u [] x = "output" -> m.out
                 [] x = "space" -> ToString([u \in DOMAIN m.us |-> m.us[u].f.c])
                 [] OTHER -> "?"]

-----------------------------------------------------------------------------
(* another universe's quit ended the pointer when its turn had come *)
Late(u, id) == u \in DOMAIN vm.us /\ ~ vm.us[u].run /\ id \in DOMAIN vm.ips /\ vm.ips[id].u = u /\ (vm.ips[id].stop \/ id \in vm.fl)
Allowed(u, id) == CanTurn(vm, u, id) \/ CanResume(vm, id) \/ Late(u, id)
Take(u, id, e, r) ==
  LET k == Len(e.k) - e.e
      s == IF k < 1 \/ k > Len(e.k) THEN << >> ELSE e.k[k]
      val == IF s = << >> THEN <<"none", "none">> ELSE <<s[1], s[Len(s)]>>
      m == [vm EXCEPT !.ora = r, !.val = val, !.clk = e.c]
  IN  IF CanResume(m, id) THEN ResumeTurn(m, id)
      ELSE IF Late(u, id) THEN BeginTurn([m EXCEPT !.fl = @ \ {id}, !.ips[id].stop = TRUE], u, id) ELSE TakeTurn(m, u, id)
TakeAny(u, id, e) ==
  LET m0 == Take(u, id, e, 0)
      S == {r \in 1..(IF m0.nd > 300 THEN 300 ELSE m0.nd - 1) : Diff(Take(u, id, e, r), e) = {}}
  IN  IF m0.nd = 1 \/ Diff(m0, e) = {} THEN m0
      ELSE IF S = {} THEN IF m0.nd > 300 THEN GiveUp(m0) ELSE m0
      ELSE Take(u, id, e, CHOOSE r \in S : TRUE)
WhoIs(u, id) == IF id \in DOMAIN vm.ips THEN What([vm EXCEPT !.ip = vm.ips[id]]) ELSE "no such pointer"
Queues == [u \in DOMAIN vm.us |-> vm.us[u].q]

TurnEvent ==
  LET e == Ev[i] IN
  IF ~ Allowed(e.u, e.i) THEN Stop("BAD", [what |-> "turn", pointer |-> e.i, universe |-> e.u, queues |-> Queues, cov |-> vm.cov])
  ELSE LET m == TakeAny(e.u, e.i, e)
           d == Diff(m, e)
       IN  IF m.err = "giveup" THEN Stop("SILENT", [what |-> WhoIs(e.u, e.i), cov |-> vm.cov])
           ELSE IF d # {} THEN Stop("BAD", [what |-> WhoIs(e.u, e.i), differs |-> d, expected |-> Expected(m, d), cov |-> vm.cov])
           ELSE LET m1 == [After(m, e.u) EXCEPT !.out = "", !.val = <<"none", "none">>] IN
                vm' = m1 /\ snap' = m1.us /\ news' = << >> /\ i' = i + 1 /\ UNCHANGED sc
NewsEvent ==
  LET e == Ev[i] IN
  IF e.u \in DOMAIN snap /\ ~ NewsOk(vm, e)
  THEN Stop("BAD", [what |-> "load", differs |-> {"space or bounds of a universe"},
                    expected |-> [cells |-> ToString(vm.us[e.u].f.c), low |-> ToString(vm.us[e.u].f.mn),
                                  high |-> ToString(vm.us[e.u].f.mx), dim |-> ToString(vm.us[e.u].dim)],
                    observed |-> [cells |-> ToString(Apply(Cells0, e.c)), low |-> ToString(e.n), high |-> ToString(e.m), dim |-> ToString(e.dim)], cov |-> vm.cov])
  ELSE news' = Append(news, e) /\ i' = i + 1 /\ UNCHANGED <<sc, vm, snap>>
(* a pointer calls a library and waits *)
WaitEvent ==
  LET e == Ev[i]
      u == IF e.i \in DOMAIN vm.ips THEN vm.ips[e.i].u ELSE ""
      take(r) == Take(u, e.i, [k |-> << >>, e |-> 0, c |-> e.c], r)
      m0 == take(0)
      S == {r \in 1..(IF m0.nd > 300 THEN 300 ELSE m0.nd - 1) : take(r).err = m0.err /\ take(r).out = e.o}
      m == IF m0.nd = 1 \/ m0.out = e.o \/ S = {} THEN m0 ELSE take(CHOOSE r \in S : TRUE)
  IN  IF ~ Allowed(u, e.i) THEN Stop("BAD", [what |-> "turn", pointer |-> e.i, universe |-> u, queues |-> Queues, cov |-> vm.cov])
      ELSE IF m.err = "giveup" THEN Stop("SILENT", [what |-> WhoIs(u, e.i), cov |-> vm.cov])
      ELSE IF m.err # "call" THEN Stop("BAD", [what |-> WhoIs(u, e.i), differs |-> {"no call expected"}, cov |-> vm.cov])
      ELSE IF m.ip.lib.u # e.u THEN Stop("BAD", [what |-> WhoIs(u, e.i), differs |-> {"called universe"}, expected |-> m.ip.lib.u, cov |-> vm.cov])
      ELSE IF m.out # e.o THEN Stop("BAD", [what |-> WhoIs(u, e.i), differs |-> {"output"}, expected |-> m.out, cov |-> vm.cov])
      ELSE vm' = [Store(m) EXCEPT !.out = ""] /\ i' = i + 1 /\ UNCHANGED <<sc, snap, news>>

(* the end of the record *)
Texts(fs) == [n \in DOMAIN fs |-> Text(fs[n])]
RunnableUs == {u \in DOMAIN vm.us : LET q == Prune(vm, u).us[u].q IN vm.us[u].run /\ q # << >> /\ CanTurn(vm, u, q[1])}
NextErrs == {TakeTurn(vm, u, Prune(vm, u).us[u].q[1]).err : u \in RunnableUs}
            \cup {TakeTurn(vm, vm.ips[c].u, c).err : c \in {x \in vm.fl : CanTurn(vm, vm.ips[x].u, x)}}
Smells == FindSeq(Bytes(R.err), Codes("something smells fishy...")) >= 0
FinalDiff ==
  LET t(x, b) == IF b THEN {} ELSE {x} IN
  t("early exit", Over(vm)) \cup t("status " \o vm.us[vm.prime].code, R.exit = I(vm.us[vm.prime].code))
  \cup t("standard output", R.out = vm.all) \cup t("files", R.files = Texts(vm.fs)) \cup t("fishy message", Smells = vm.smell)
(* values with which one step can take minutes (the pointer far outside) *)
Far == \E c \in DOMAIN vm.ips :
         LET p == vm.ips[c] far(x) == WLt("1000000", x) \/ WLt(x, "-1000000") IN
         \/ \E d \in 1..VD : far(p.pos[d]) \/ far(p.dlt[d])
         \/ \E s \in 1..Len(p.ss) : \E j \in 1..Len(p.ss[s]) : far(p.ss[s][j])
Finish ==
  LET limited == Len(Ev) > 0 /\ Ev[Len(Ev)].t = "l"
      ok == Stop("OK", [cov |-> vm.cov, turns |-> Len(Ev)])
  IN  IF limited THEN ok
      ELSE IF R.sig # 0 \/ R.timeout
           THEN IF "giveup" \in NextErrs \/ (R.timeout /\ Far) THEN Stop("SILENT", [what |-> "end", cov |-> vm.cov])
                ELSE IF R.timeout /\ "diverge" \in NextErrs THEN ok
                ELSE Stop("BAD", [what |-> IF R.timeout THEN "hang" ELSE "crash", signal |-> R.sig, cov |-> vm.cov,
                                  differs |-> IF R.timeout THEN {"no end"} ELSE {"crash"}])
      ELSE IF FinalDiff # {} THEN Stop("BAD", [what |-> "end", differs |-> FinalDiff, cov |-> vm.cov,
                                              expected |-> [out |-> vm.all, files |-> Texts(vm.fs)]])
      ELSE ok

Init == sc \in 1..Len(Runs) /\ i = 0 /\ vm = Dead /\ snap = Dead /\ news = << >>
Next ==
  \/ /\ i = 0
     /\ LET b == Booted IN
        IF b[2] # 0
        THEN IF Len(Ev) = 0 /\ R.exit = b[2] THEN Stop("OK", [cov |-> {"refused"}, turns |-> 0])
             ELSE Stop("BAD", [what |-> "start", differs |-> {"refused start"}, expected |-> ToString(b[2]), cov |-> {}])
        ELSE vm' = b[1] /\ snap' = b[1].us /\ i' = 1 /\ UNCHANGED <<sc, news>>
  \/ /\ i > 0 /\ i <= Len(Ev)
     /\ CASE Ev[i].t = "i" -> TurnEvent
          [] Ev[i].t = "u" -> NewsEvent
          [] Ev[i].t = "w" -> WaitEvent
          [] Ev[i].t = "l" -> i' = i + 1 /\ UNCHANGED <<sc, vm, snap, news>>
  \/ /\ i = Len(Ev) + 1
     /\ Finish
View == <<sc, i>>
=============================================================================
