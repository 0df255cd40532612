------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* Every program of a small language, run by the specification in every    *)
(* order of turns it allows.  What the properties say about whole runs is  *)
(* checked in every reachable state and on every step, in terms of the     *)
(* history h of the turns taken so far and not of how a turn is specified. *)
(*                                                                         *)
(* Suite selects the programs and what is checked of them.  The state is   *)
(* the machine m, for debugged runs the machine d of the debugged twin,    *)
(* and h, a sequence of records: who took the turn in which universe, what *)
(* cell it began at, who was there before and after.                       *)
(***************************************************************************)
EXTENDS Funge
CONSTANTS Suite, MaxLen, Turns
VARIABLES m, d, h

NoUs == [u \in {} |-> << >>]
Seqs(S, k) == UNION {[1..n -> S] : n \in 1..k}
Plain(opts, fs, inp, lib) == Boot(NewMachine(NoUs, fs, inp, lib, "lib/"), opts, << >>)[1]
File(q) == "p" :> q
Cs(S) == {Ord(c) : c \in S}
RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN << >> ELSE Codes(q[1]) \o Flat(Tail(q))
None == [x \in {} |-> << >>]

-----------------------------------------------------------------------------
(* The programs of a suite: <<machine, debugged twin>> *)
Conc == {"t", "1", "k", "q", "@", "r", "#", "z"}
StartsOf ==
  CASE Suite = "queue" -> {<<Plain(<<"-std=be98", "p">>, File(Flat(q)), << >>, None), None>> : q \in Seqs(Conc, MaxLen)}
    [] Suite = "native" -> {<<Plain(<<"-std=be98", "-fthreads=native", "p">>, File(Flat(q)), << >>, None), None>> : q \in Seqs({"t", "q", "@", "r", "z"}, MaxLen)}
    [] Suite = "grid" -> \* two lines, so that pointers turn off into each other
         {<<Plain(<<"-std=be98", "p">>, File(Flat(q) \o <<"10">> \o Flat(p)), << >>, None), None>> :
            q \in Seqs({"t", "v", "z", ">"}, MaxLen), p \in Seqs({"<", "^", "@", "1", "t"}, MaxLen)}
    [] Suite = "multi" -> \* two universes at first; U is the name of the other one
         {<<Plain(<<"-std=be98", "-lMVRS", "-lIIPC", "m.fmv">>,
                  "m.fmv" :> Codes("p\no\n") @@ "p" :> Flat(q) @@ "o" :> Codes(o), << >>, None), None>> :
            q \in Seqs({"0\"o\"", "0\"p\"", "0\"x\"", "J", "000B", "C", "N", "t", "q", "@"}, MaxLen), o \in {"z", "1t", "@"}}
    [] Suite = "iipc" ->
         {<<Plain(<<"-std=be98", "-lIIPC", "p">>, File(Codes("t") \o Flat(q)), << >>, None), None>> :
            q \in Seqs({"I", "A", "D", "0", "1", "5", "P", "G", "L", "t", "@"}, MaxLen)}
    [] Suite = "lib" ->
         {<<Plain(<<"-std=be98", "-lFOO", "p">>, File(Flat(q)), << >>, "FOO" :> (Codes("=A\n") \o Flat(a) \o Codes("@\n=B\n@\n"))), None>> :
            q \in Seqs({"A", "B", "1", "t", "2kA", "@"}, 3), a \in Seqs({"1", "2", "+", "t", "R", "F", "B", "X", "@", "z"}, MaxLen)}
    [] Suite = "debug" ->
         {<<Plain(<<"-std=be98", "p">>, File(Flat(q)), << >>, None),
            Plain(<<"-std=be98", "-g", "p">>, File(Flat(q)), Flat(s), None)>> :
            q \in Seqs({"1", "2+", "p", "t", "@", "Z", "k", " ", "r"}, MaxLen),
            s \in UNION {[1..n -> {"s\n", "r\n", "b 2\n", "w 1 0\n", "p\nd\npos\nstorage\n", "bt\nt\nl 1,1\n", "s\ns\ns\n", "get 0,0 1,1\nread 1\nu\n"}] : n \in 1..2}}

Ids(mm) == DOMAIN mm.ips
(* the first state leaves out the history *)
Init == \E s \in StartsOf : m = s[1] /\ d = s[2] /\ h = << >>

Alive(mm) == {id \in Ids(mm) : ~ mm.ips[id].stop}
Record(id, u, m0, m1) ==
  [id |-> id, u |-> u, cell |-> Get(m0.us[u].f, m0.ips[id].pos), st |-> m0.ips[id].st, before |-> Alive(m0), after |-> Alive(m1),
   there |-> {x \in Alive(m0) : m0.ips[x].u = u}, here |-> {x \in Alive(m1) : m1.ips[x].u = u}]
Clean1(mm) == [mm EXCEPT !.cov = {}, !.err = "none", !.out = "", !.ip = [id |-> ""], !.val = <<"none", "none">>]
(* one turn of id in universe u *)
Going(mm, u, id) == CanTurn(mm, u, id)
Taken(mm, u, id) == TakeTurn(mm, u, id)
Movers(mm) == {<<mm.ips[id].u, id>> : id \in Ids(mm)}
Step1(u, id) ==
  /\ Going(m, u, id)
  /\ LET r == Taken(m, u, id)
         m1 == IF r.err = "call" THEN Clean1([Store(r) EXCEPT !.cov = {}]) ELSE Clean1(After(r, u))
     IN  /\ r.err \in {"none", "call"}
         /\ m' = m1
         /\ h' = Append(h, [Record(id, u, m, m1) EXCEPT !.st = IF r.err = "call" THEN "call" ELSE @])
         /\ IF Suite # "debug" THEN d' = d
            ELSE /\ Going(d, u, id)
                 /\ LET rd == Taken(d, u, id) IN rd.err # "giveup" /\ d' = Clean1(After(rd, u))
Back(id) ==
  /\ CanResume(m, id)
  /\ LET r == ResumeTurn(m, id)
         u == m.ips[id].u
         m1 == IF r.err = "call" THEN Clean1([Store(r) EXCEPT !.cov = {}]) ELSE Clean1(After(r, u)) IN
     /\ r.err \in {"none", "call"}
     /\ m' = m1
     /\ h' = Append(h, [Record(id, u, m, m1) EXCEPT !.st = "back"])
     /\ d' = d
Next == /\ Len(h) < Turns
        /\ \/ \E x \in Movers(m) : Step1(x[1], x[2])
           \/ \E id \in Ids(m) : Back(id)

-----------------------------------------------------------------------------
(* What holds of every state *)
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
QueuesSum(mm, id) == FoldLeft(LAMBDA a, u : a + Count(mm.us[u].q, id), 0, SetToSeq(DOMAIN mm.us))
Places(mm) == \* every pointer is in one queue, its universe's, or on its way
  \A id \in Ids(mm) :
    IF id \in mm.fl THEN QueuesSum(mm, id) = 0
    ELSE mm.ips[id].stop \/ (QueuesSum(mm, id) = 1 /\ Count(mm.us[mm.ips[id].u].q, id) = 1)
NoStrays(mm) == \A u \in DOMAIN mm.us : \A i \in 1..Len(mm.us[u].q) : mm.us[u].q[i] \in Ids(mm)
Fresh(mm) == \A id \in Ids(mm) : WLt(id, W(mm.next))
Bounded(mm) == \A u \in DOMAIN mm.us : LET f == mm.us[u].f IN
                 \A v \in DOMAIN f.c : f.c[v] # SP => \A i \in 1..VD : WLe(f.mn[i], v[i]) /\ WLe(v[i], f.mx[i])
Stacks(mm) == \A id \in Ids(mm) : LET r == mm.ips[id] IN Len(r.ss) >= 1 /\ r.sel >= 0 /\ r.sel < Len(r.ss)
Sound == Places(m) /\ NoStrays(m) /\ Fresh(m) /\ Bounded(m) /\ Stacks(m)

(* the program is over exactly when no pointer can go on *)
Ends == Over(m) <=> ~ (\/ \E x \in Movers(m) : Going(m, x[1], x[2])
                       \/ \E id \in Alive(m) : CanResume(m, id))
(* whatever can take its turn gets one with a specified outcome *)
Total == \A x \in Movers(m) : Going(m, x[1], x[2]) => Taken(m, x[1], x[2]).err \in {"none", "call", "diverge"}

(* C10: after a q nobody of that universe takes a turn; while pointers are alive it goes on *)
IsQuit(e) == e.cell = Ord("q") /\ e.st = "normal"
Quitters == {i \in 1..Len(h) : IsQuit(h[i])}
AfterQuit == \A i \in Quitters : ~ m.us[h[i].u].run /\ \A j \in (i + 1)..Len(h) : h[j].u # h[i].u
MayQuit(e) == IsQuit(e) \/ (e.cell \in Cs({"k", " "}) /\ e.st = "normal")
NoEarlyEnd == \A u \in DOMAIN m.us : m.us[u].run \/ \E i \in 1..Len(h) : h[i].u = u /\ MayQuit(h[i])

(* C09: between two turns of a pointer every other one of its universe that *)
(* was there all the time takes exactly one; one that came or left          *)
(* meanwhile at most one; a child goes before its parent goes again         *)
LastBefore(i) == LET S == {j \in 1..(i - 1) : h[j].id = h[i].id} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
TurnsOf(x, i, j) == Cardinality({k \in (i + 1)..(j - 1) : h[k].id = x})
RoundRobin ==
  LET j == Len(h) i == IF j = 0 THEN 0 ELSE LastBefore(j) IN
  i = 0 \/ h[i].u # h[j].u \/ h[i].st \in {"call", "back"} \/ h[j].st = "back"
  \/ /\ \A x \in (h[i].there \cap h[j].there) \ {h[j].id} : TurnsOf(x, i, j) = 1
     /\ \A x \in UNION {h[k].before : k \in i..j} \ {h[j].id} : TurnsOf(x, i, j) <= 1
     /\ \A x \in (h[i].here \ h[i].there) \cap h[j].there : TurnsOf(x, i, j) = 1
(* pointers appear only by t, and vanish only by their own turn or a q *)
Births == \A i \in 1..Len(h) : \A x \in h[i].after \ h[i].before : h[i].cell \in Cs({"t", "k", " ", "B"}) \/ h[i].st \in {"call", "back"} \/ Suite \in {"lib", "multi"}
Deaths == \A i \in 1..Len(h) : \A x \in h[i].before \ h[i].after :
            x = h[i].id \/ h[i].cell \in Cs({"q", "k", " "}) \/ Suite \in {"lib", "multi"}

(* what a turn of another pointer may not touch (no fingerprint reaches it) *)
Private(r) == [r EXCEPT !.stop = FALSE]
Isolated == \A id \in Ids(m) : (id \in Ids(m') /\ id # h'[Len(h')].id) => Private(m.ips[id]) = Private(m'.ips[id])

(* C26: spaces, modes and queues of other universes *)
Others == LET e == h'[Len(h')] IN \A u \in DOMAIN m.us : u # e.u =>
               /\ u \in DOMAIN m'.us
               /\ m'.us[u].f = m.us[u].f
               /\ m'.us[u].mode = m.us[u].mode
               /\ m'.us[u].run = m.us[u].run
               /\ {m'.us[u].q[i] : i \in 1..Len(m'.us[u].q)} \ {m.us[u].q[i] : i \in 1..Len(m.us[u].q)} \subseteq {W(m.next)}
(* new universes are named apart, empty of others' pointers *)
Created == DOMAIN m.us \subseteq DOMAIN m'.us /\ Cardinality(DOMAIN m'.us \ DOMAIN m.us) <= 1

(* C23: what a turn of one pointer does to the others *)
Stack1(r) == r.ss[Len(r.ss) - r.sel]
Told == LET e == h'[Len(h')]
               me == m.ips[e.id]
               ch == Ch(e.cell)
               changed == {x \in Ids(m) \cap Ids(m') : x # e.id /\ m.ips[x] # m'.ips[x]}
               st == Stack1(me)
               top == IF st = << >> THEN "0" ELSE st[Len(st)]
               val == IF Len(st) < 2 THEN "0" ELSE st[Len(st) - 1]
           IN  /\ \A x \in changed : ch \in {"P", "G", " "} /\ ((ch # " ") => x = top)
               \* the receiver has the value, the one asked has lost it, and the others nothing
               /\ (ch = "P" /\ top \in changed) => Stack1(m'.ips[top]) = Append(Stack1(m.ips[top]), val)
               /\ (ch = "G" /\ top \in changed /\ Stack1(m.ips[top]) # << >>)
                    => Append(Stack1(m'.ips[top]), Stack1(m'.ips[e.id])[Len(Stack1(m'.ips[e.id]))]) = Stack1(m.ips[top])
               /\ (ch = "P" /\ e.id # top /\ top \in e.there) => top \in changed
(* a pointer that D put to sleep stays where it is until it is told something *)
Asleep == LET e == h'[Len(h')] id == e.id me == m.ips[id] IN
             (id \in Ids(m') /\ me.fst.IIPC.dorm /\ ~ me.fst.IIPC.touched) => Private(m'.ips[id]) = Private(me)
Woken == LET e == h'[Len(h')] id == e.id me == m.ips[id] IN
             (id \in Ids(m') /\ me.fst.IIPC.dorm /\ me.fst.IIPC.touched /\ Get(m.us[e.u].f, me.pos) = Ord("D"))
                => m'.ips[id].pos # me.pos /\ m'.ips[id].ss = me.ss /\ ~ m'.ips[id].fst.IIPC.dorm

(* C28: who waits for a library does nothing; it sees the library's stacks; *)
(* it goes on exactly when the library's pointers are gone                  *)
Waiting(mm) == {id \in Ids(mm) : mm.ips[id].lib.id # ""}
Waits == \A id \in Waiting(m) : ~ Going(m, m.ips[id].u, id)
Shares == \A id \in Waiting(m) : LET l == m.ips[id].lib.id IN
            (l \in Ids(m) /\ ~ m.ips[l].stop) => m.ips[id].ss = m.ips[l].ss
Resumes == \A id \in Waiting(m) : (id \in Ids(m') /\ m'.ips[id].lib # m.ips[id].lib)
               => \A i \in 1..Len(m.us[m.ips[id].lib.u].q) : m.us[m.ips[id].lib.u].q[i] \notin Alive(m)
(* the library's own space and the caller's stay apart *)
LibApart == \A u \in DOMAIN m.us : m.us[u].creator # "" => m'.us[u].f = m.us[u].f

(* C24: the debugged twin is the same program *)
Undebug(u) == [u EXCEPT !.mode = @ \ {"debug"}, !.brk = {}, !.wat = {}, !.thr = None, !.last = "0"]
Quitted == \E u \in DOMAIN d.us : ~ d.us[u].run /\ d.us[u].code = "1"
Twins == Suite = "debug" => (Quitted \/ (d.ips = m.ips /\ [u \in DOMAIN d.us |-> Undebug(d.us[u])] = [u \in DOMAIN m.us |-> Undebug(m.us[u])] /\ d.fs = m.fs))

Suited ==
  CASE Suite = "queue" -> AfterQuit /\ NoEarlyEnd /\ RoundRobin /\ Births /\ Deaths
       [] Suite = "grid" -> AfterQuit /\ NoEarlyEnd /\ RoundRobin /\ Births /\ Deaths
       [] Suite = "native" -> AfterQuit /\ NoEarlyEnd /\ Births /\ Deaths
       [] Suite = "multi" -> AfterQuit /\ NoEarlyEnd
       [] Suite = "iipc" -> NoEarlyEnd /\ RoundRobin
       [] Suite = "lib" -> Waits /\ Shares
       [] Suite = "debug" -> Twins
Steps == [][CASE Suite \in {"queue", "grid", "native"} -> Isolated
              [] Suite = "multi" -> Others /\ Created
              [] Suite = "iipc" -> Told /\ Asleep /\ Woken
              [] Suite = "lib" -> Resumes /\ LibApart
              [] Suite = "debug" -> TRUE]_<<m, d, h>>
=============================================================================
