------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* The state of a running interpreter and the small operators everything   *)
(* else is written with.                                                   *)
(*                                                                         *)
(* A machine m is a record                                                 *)
(*   us    the universes, by name.  A universe is a record                 *)
(*           f     its Funge-space            dim   its dimension          *)
(*           mode  set of "hover","invert","queue","switch","dive","debug" *)
(*           std   93, 98, -1 (><>) or -2 ( *><>)                           *)
(*           topo  "torus" or "lahey"                                      *)
(*           strs  "multispace", "sgml" or "c"                             *)
(*           conc, exec, fsys, fing, ihl   what the options allow          *)
(*           args, env  byte sequences     fings  fingerprints preloaded   *)
(*           fd    the dimension its space was loaded with                 *)
(*           q     its pointers, in the order of their turns               *)
(*           run   FALSE once it was quit  code  its exit code             *)
(*           creator  the pointer a library universe works for, or ""      *)
(*           planes   the letters defined by a library file                *)
(*   ips   the instruction pointers, by identifier (except the current)    *)
(*   ip    the current one, a record                                       *)
(*           id, u (its universe), pos, dlt, sto (the storage offset)      *)
(*           ss    its stacks, bottom to top, each from front to back      *)
(*           sel   how many stacks lie above the one in use                *)
(*           st    "normal" or "string"; send, sprev: the string's end     *)
(*                 character and the previous character                    *)
(*           stop  TRUE once it ended                                      *)
(*           std, idim   the instruction set it was created with           *)
(*           sem   letter -> layers of fingerprint instructions            *)
(*           loaded, avail, fst   fingerprints loaded in order, ever       *)
(*                 loaded, and their private state                         *)
(*           par   its parent's identifier or ""                           *)
(*           ink   how many k are executing it                             *)
(*           libu  the universe of each library fingerprint it loaded      *)
(*           lib   the library pointer it waits for (id, u) and what is    *)
(*                 left of the k instructions around the call (cont)       *)
(*           fi    the ><> interpreter's private state                     *)
(*   fl    pointers on their way to another universe                       *)
(*   next  the next identifier                                             *)
(*   inp   standard input still unread, out  what the current turn printed *)
(*   fs    the files, by name                                              *)
(*   err   how the current instruction ended                               *)
(*   ora, nd   resolution of nondeterminism and how much of it there was   *)
(*   val, nval   a value supplied by the environment (clocks, last bits of *)
(*         transcendental functions), and how many were used               *)
(*   clk   the clock during the current turn, in nanoseconds               *)
(*   refc  the references handed out by REFC                               *)
(*   cwd   the working directory, as a list of names                       *)
(*   all   everything on standard output, including what other programs    *)
(*         (run by = and PERL) print;  smell  something smelled fishy      *)
(*   lib, libdir   the Funge-lib files, by name, and where they live       *)
(*   cov   the instructions executed so far                                *)
(***************************************************************************)
EXTENDS Float64, Vectors

U(m) == m.us[m.ip.u]
Mode(m, x) == x \in m.us[m.ip.u].mode
Dim(m) == m.us[m.ip.u].dim
Field(m) == m.us[m.ip.u].f
SetField(m, f) == [m EXCEPT !.us[m.ip.u].f = f]
Err(m, e) == [m EXCEPT !.err = e]
Fail(m) == [m EXCEPT !.err = "unspec"]
GiveUp(m) == [m EXCEPT !.err = "giveup"]
Bool(b) == IF b THEN "1" ELSE "0"
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Out(m, s) == [m EXCEPT !.out = @ \o s, !.all = @ \o s]

(* a choice among n alternatives *)
Draw(m, n) == m.ora % n
Drawn(m, n) == [m EXCEPT !.ora = @ \div n, !.nd = IF @ > 100000 THEN @ ELSE @ * n]

-----------------------------------------------------------------------------
(* Stacks.  With the queue mode values come from the front, with the       *)
(* invert mode they go to the front.                                       *)
T(m) == Len(m.ip.ss) - m.ip.sel
SGet(m, k, i) ==
  LET s == m.ip.ss[k] IN
  IF i < 1 \/ i > Len(s) THEN "0" ELSE IF Mode(m, "queue") THEN s[i] ELSE s[Len(s) - i + 1]
SDrop(m, k, n) ==
  IF n = 0 THEN m ELSE
  [m EXCEPT !.ip.ss[k] = IF n >= Len(@) THEN << >>
                         ELSE IF Mode(m, "queue") THEN SubSeq(@, n + 1, Len(@))
                         ELSE SubSeq(@, 1, Len(@) - n)]
SPush(m, k, w) == [m EXCEPT !.ip.ss[k] = IF Mode(m, "invert") THEN <<w>> \o @ ELSE Append(@, w)]
SPushAll(m, k, q) == [m EXCEPT !.ip.ss[k] = IF Mode(m, "invert") THEN Rev(q) \o @ ELSE @ \o q]

A(m, i) == SGet(m, T(m), i)          \* the i-th value from the end values are popped from
D(m, n) == SDrop(m, T(m), n)         \* without the first n of them
P(m, w) == SPush(m, T(m), w)
PL(m, q) == SPushAll(m, T(m), q)
Size(m) == Len(m.ip.ss[T(m)])
R1(m, n, w) == P(D(m, n), w)         \* pop n values, push one
AI(m, i) == Val(A(m, i))

(* vectors: the last component is on top.  VecAt(m, off, n): the n-vector  *)
(* found below the first off values                                        *)
VecAtS(m, k, off, n) == VOf([j \in 1..n |-> SGet(m, k, off + n - j + 1)])
VecAt(m, off, n) == VecAtS(m, T(m), off, n)
VecSeq(v, n) == [j \in 1..n |-> v[j]]
PushVec(m, v) == PL(m, VecSeq(v, Dim(m)))

(* 0-terminated strings: StrLen(m, off) characters follow the first off values *)
StrLen(m, off) == LET RECURSIVE G(_)
                      G(n) == IF A(m, off + n + 1) = "0" THEN n ELSE G(n + 1)
                  IN  G(0)
StrAt(m, off) == [i \in 1..StrLen(m, off) |-> WByte(A(m, off + i))]
(* pushing a string of bytes: its terminator first; bytes are signed *)
StrCells(q) == <<"0">> \o Rev([i \in 1..Len(q) |-> WChar(q[i])])

(* a word usable as a small count *)
Small(w) == Fits(w) /\ I(w) <= 10000 /\ I(w) >= -10000

-----------------------------------------------------------------------------
(* The pointer *)
Here(m) == Get(Field(m), m.ip.pos)
Step(m, p, d) == IF U(m).topo = "torus" THEN StepTorus(p, d) ELSE StepLahey(Field(m), p, d, Dim(m))
Nx(m) == IF m.ip.stop THEN m ELSE [m EXCEPT !.ip.pos = Step(m, m.ip.pos, m.ip.dlt)]
Reflect(m) == [m EXCEPT !.ip.dlt = VNeg(@)]
(* a change of direction; in hover mode it adds up.  The *><> fisherman and *)
(* the FISH fingerprint remember the direction last taken.                  *)
SetDelta(m, v) ==
  LET d == IF Mode(m, "hover") THEN VAdd(m.ip.dlt, v) ELSE v
      m1 == [m EXCEPT !.ip.dlt = d]
      hor == VD > 1 /\ d[1] # "0" /\ (VD = 1 \/ d[2] = "0")
      m2 == IF hor /\ m.ip.std = -2 THEN [m1 EXCEPT !.ip.fi.last = d] ELSE m1
  IN  IF hor /\ "FISH" \in DOMAIN m.ip.fst THEN [m2 EXCEPT !.ip.fst.FISH.last = d] ELSE m2
SetPos(m, v) == [m EXCEPT !.ip.pos = v]

(* other pointers; the current one is among them *)
HasIp(m, i) == i = m.ip.id \/ i \in DOMAIN m.ips
GetIp(m, i) == IF i = m.ip.id THEN m.ip ELSE m.ips[i]
SetIp(m, i, r) == IF i = m.ip.id THEN [m EXCEPT !.ip = r] ELSE [m EXCEPT !.ips[i] = r]
=============================================================================
