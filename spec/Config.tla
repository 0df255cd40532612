------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The command line: from arguments, environment and files to the machine  *)
(* that starts to run, or to the status of a refused start.                *)
(*                                                                         *)
(* Arguments are strings (bytes that are not printable are written \xHH);  *)
(* file names too.  A file's content is a byte sequence.  A name ending in *)
(* "/" is a directory.                                                     *)
(***************************************************************************)
EXTENDS Loader

EIO == 5
EINVAL == 22

Cfg0 == [name |-> "", args |-> << >>, env |-> << >>, fings |-> << >>, dims |-> 0, std |-> 0,
         topo |-> "lahey", strs |-> "sgml", ch |-> FALSE, native |-> FALSE, mode |-> {},
         conc |-> TRUE, exec |-> TRUE, fsys |-> TRUE, fing |-> TRUE, ihl |-> FALSE]

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* the value after the "=": the text up to the next "=" *)
OptVal(a, n) == LET t == SubSeq(a, n + 1, Len(a))
                    eqs == {i \in 1..Len(t) : SubSeq(t, i, i) = "="}
                IN  IF eqs = {} THEN t
                    ELSE SubSeq(t, 1, (CHOOSE i \in eqs : \A j \in eqs : i <= j) - 1)

StdOf == [une93 |-> <<1, 93>>, une98 |-> <<1, 98>>, be93 |-> <<2, 93>>, be98 |-> <<2, 98>>,
          tre98 |-> <<3, 98>>, fish |-> <<2, -1>>, sfish |-> <<2, -2>>]
SetStd(c, v) ==
  LET s == StdOf[v]
      c1 == [c EXCEPT !.dims = s[1], !.std = s[2], !.topo = "lahey", !.strs = "multispace", !.ch = FALSE]
  IN  CASE s[2] = 93 -> [c1 EXCEPT !.topo = "torus", !.ch = TRUE]
        [] s[2] = 98 -> [c1 EXCEPT !.strs = "sgml"]
        [] OTHER     -> c1
(* a fingerprint name as a word *)
FingWord(s) == WInt32(FoldLeft(LAMBDA a, b : WAdd(WMul(a, "256"), b), "0", Codes(s)))

(* one option; bad is TRUE if its value is not one *)
Opt(c, a) ==
  LET bad == [c |-> c, bad |-> TRUE]
      ok(x) == [c |-> x, bad |-> FALSE]
  IN
  IF StartsWith(a, "-std=") THEN
    LET v == OptVal(a, 5) IN IF v \in DOMAIN StdOf THEN ok(SetStd(c, v)) ELSE bad
  ELSE IF StartsWith(a, "-ftopo=") THEN
    LET v == OptVal(a, 7) IN IF v \in {"torus", "lahey"} THEN ok([c EXCEPT !.topo = v]) ELSE bad
  ELSE IF StartsWith(a, "-fstrings=") THEN
    LET v == OptVal(a, 10) IN IF v \in {"multispace", "sgml", "c"} THEN ok([c EXCEPT !.strs = v]) ELSE bad
  ELSE IF StartsWith(a, "-fcells=") THEN
    LET v == OptVal(a, 8) IN IF v \in {"char", "int"} THEN ok([c EXCEPT !.ch = (v = "char")]) ELSE bad
  ELSE IF StartsWith(a, "-fthreads=") THEN
    LET v == OptVal(a, 10) IN IF v \in {"native", "funge"} THEN ok([c EXCEPT !.native = (v = "native")]) ELSE bad
  ELSE CASE a = "-fconcurrent"    -> ok([c EXCEPT !.conc = TRUE])
         [] a = "-fno-concurrent" -> ok([c EXCEPT !.conc = FALSE])
         [] a = "-fexecute"       -> ok([c EXCEPT !.exec = TRUE])
         [] a = "-fno-execute"    -> ok([c EXCEPT !.exec = FALSE])
         [] a = "-ffilesystem"    -> ok([c EXCEPT !.fsys = TRUE])
         [] a = "-fno-filesystem" -> ok([c EXCEPT !.fsys = FALSE])
         [] a = "-finvert-hl"     -> ok([c EXCEPT !.ihl = TRUE])
         [] a = "-g"              -> ok([c EXCEPT !.mode = {"debug"}])
         [] OTHER -> IF StartsWith(a, "-l") THEN ok([c EXCEPT !.fings = Append(@, FingWord(SubSeq(a, 3, Len(a))))])
                     ELSE ok(c)

RECURSIVE Options(_,_,_)
Options(c, args, i) ==
  IF i > Len(args) \/ (i <= Len(args) /\ ~ StartsWith(args[i], "-")) THEN [c |-> c, bad |-> FALSE, i |-> i]
  ELSE LET o == Opt(c, args[i]) IN
       IF o.bad THEN [c |-> c, bad |-> TRUE, i |-> i] ELSE Options(o.c, args, i + 1)

-----------------------------------------------------------------------------
LastOf(s, ch) == LET S == {i \in 1..Len(s) : SubSeq(s, i, i) = ch} IN
                 IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
BaseName(s) == SubSeq(s, LastOf(s, "/") + 1, Len(s))
DirName(s) == LET k == LastOf(s, "/") IN IF k = 0 THEN "" ELSE SubSeq(s, 1, k - 1)
(* the file name extension with its dot; none if the only dot is leading *)
Ext(s) == LET b == BaseName(s) k == LastOf(b, ".") IN
          IF k <= 1 THEN "" ELSE SubSeq(b, k, Len(b))

(* a name without the "./" and duplicate separators it starts with *)
RECURSIVE Clean(_)
Clean(s) == IF StartsWith(s, "./") THEN Clean(SubSeq(s, 3, Len(s)))
            ELSE IF StartsWith(s, "/") THEN Clean(SubSeq(s, 2, Len(s))) ELSE s
FileName(s) == IF StartsWith(s, "./") THEN Clean(s) ELSE s

AutoStd(c, ext) ==
  IF c.std # 0 THEN c
  ELSE CASE ext = ".bf"   -> [c EXCEPT !.std = 93]
         [] ext = ".fish" -> [c EXCEPT !.std = -1, !.dims = 2, !.strs = "multispace"]
         [] ext = ".sf"   -> [c EXCEPT !.std = -2, !.dims = 2, !.strs = "multispace"]
         [] OTHER         -> [c EXCEPT !.std = 98]

(* a name not in use: the name itself, or with the first free number *)
RECURSIVE FreeNumber(_,_,_)
FreeNumber(us, n, k) == IF (n \o "." \o ToString(k)) \in DOMAIN us THEN FreeNumber(us, n, k + 1) ELSE k
FreeName(us, n) == IF n \notin DOMAIN us THEN n ELSE n \o "." \o ToString(FreeNumber(us, n, 1))

NewUniverse(c, f, dim, fd, planes, creator) ==
  [f |-> f, dim |-> dim, fd |-> fd, mode |-> c.mode, std |-> c.std, topo |-> c.topo, strs |-> c.strs,
   conc |-> c.conc, exec |-> c.exec, fsys |-> c.fsys, fing |-> c.fing, ihl |-> c.ihl, nat |-> c.native,
   args |-> c.args, env |-> c.env, fings |-> c.fings, q |-> << >>, run |-> TRUE, code |-> "0",
   creator |-> creator, planes |-> planes,
   brk |-> {}, wat |-> {}, thr |-> [x \in {} |-> << >>], last |-> "0"]

(* the universe a file makes *)
LoadUniverse(c, fmt, bytes, creator) ==
  LET f0 == NewSpace(c.ch) IN
  CASE fmt = "bf" -> LET r == ParseText(f0, Zero, bytes, c.dims, FALSE)
                         d == IF c.dims = 0 THEN r.f.nd ELSE c.dims
                     IN  NewUniverse(c, r.f, d, d, << >>, creator)
    [] fmt = "beq" -> LET r == ParseBeq(f0, bytes)
                          d == IF c.dims # 0 THEN c.dims ELSE IF r.dims = 0 THEN r.f.nd ELSE r.dims
                      IN  NewUniverse(c, r.f, d, d, << >>, creator)
    [] OTHER -> LET r == ParseLib(f0, bytes)
                    d == IF c.dims # 0 THEN c.dims ELSE 3
                IN  NewUniverse(c, r.f, d, 3, r.planes, creator)
=============================================================================
