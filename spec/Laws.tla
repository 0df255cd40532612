-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The listed properties, as laws the specification is checked against:    *)
(* each law says independently of how an instruction is specified what has *)
(* to hold of it, and TLC tries it on every case of a bounded set.  Law    *)
(* names the property; a case x is a record with the field k, the kind of  *)
(* case.                                                                   *)
(***************************************************************************)
EXTENDS Funge
CONSTANT Law
VARIABLE x

(* the machine that starts to run program text q, and the current pointer at its first turn *)
None == [u \in {} |-> << >>]
MachineOf(opts, q) == BeginTurn(Boot(NewMachine(None, "p" :> q, << >>, None, ""), Append(opts, "p"), << >>)[1], "p", "0")
OfText(opts, s) == MachineOf(opts, Codes(s))
M98 == OfText(<<"-std=be98">>, "z")
MFish == OfText(<<"-std=fish">>, "z")
MStar == OfText(<<"-std=sfish">>, "z")
With(m, st) == [m EXCEPT !.ip.ss = <<st>>]
Top(m) == m.ip.ss[T(m)]
Run(m, ch) == Exec([m EXCEPT !.err = "none"], Ord(ch))
RECURSIVE Runs(_,_), Turns(_,_)
Runs(m, q) == IF q = << >> THEN m ELSE Runs(Run(m, q[1]), Tail(q))
Fp(m, fp, c) == FpExec([m EXCEPT !.err = "none", !.ip.fst = (fp :> NewState(fp)) @@ @], fp, c)
Ended(m) == ~ U(m).run \/ m.ip.stop
(* n turns of a lone pointer *)
Turns(m, n) == IF n = 0 \/ m.ip.stop THEN m ELSE Turns(Turn([m EXCEPT !.err = "none"]), n - 1)
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
(* what a law may not change: everything but the stacks *)
Rest(m) == [m EXCEPT !.ip.ss = << >>]
Same(a, b) == [a EXCEPT !.cov = {}, !.err = "none"] = [b EXCEPT !.cov = {}, !.err = "none"]
Pad(n) == [i \in 1..n |-> "0"]
Max0(a) == IF a > 0 THEN a ELSE 0
Ch1(s) == SubSeq(s, 1, 1)
CharsOf(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

-----------------------------------------------------------------------------
(* C01: an instruction takes its arguments from the end of its stack, an    *)
(* empty stack gives zeros, and what lies below and beside is untouched.    *)
Arity == ("0" :> <<0, 1>>) @@ ("9" :> <<0, 1>>) @@ ("f" :> <<0, 1>>) @@ ("+" :> <<2, 1>>) @@ ("-" :> <<2, 1>>) @@ ("*" :> <<2, 1>>)
         @@ ("/" :> <<2, 1>>) @@ ("%" :> <<2, 1>>) @@ ("`" :> <<2, 1>>) @@ ("!" :> <<1, 1>>) @@ (":" :> <<1, 2>>) @@ ("$" :> <<1, 0>>)
         @@ ("\\" :> <<2, 2>>) @@ ("g" :> <<2, 1>>) @@ ("p" :> <<3, 0>>) @@ ("." :> <<1, 0>>) @@ ("," :> <<1, 0>>) @@ ("_" :> <<1, 0>>)
         @@ ("|" :> <<1, 0>>) @@ ("w" :> <<2, 0>>) @@ ("x" :> <<2, 0>>) @@ ("j" :> <<1, 0>>) @@ ("'" :> <<0, 1>>) @@ ("s" :> <<1, 0>>)
         @@ ("z" :> <<0, 0>>) @@ ("r" :> <<0, 0>>) @@ ("q" :> <<1, 0>>) @@ ("[" :> <<0, 0>>) @@ ("#" :> <<0, 0>>)
StackVals == {"0", "1", "-1", "7"}
C01Cases == {[k |-> "arity", op |-> o, st |-> s, qi |-> b] : o \in DOMAIN Arity, s \in SeqsUpTo(StackVals, 3), b \in BOOLEAN}
            \cup {[k |-> "many", op |-> o, st |-> s] : o \in DOMAIN Arity, s \in SeqsUpTo({"1", "-1"}, 2)}
            \cup {[k |-> "clear", st |-> s] : s \in SeqsUpTo(StackVals, 4)}
Base01 == OfText(<<"-std=be98">>, "zab")
QI(m) == [m EXCEPT !.us["p"].mode = {"queue", "invert"}]
C01 ==
  CASE x.k = "arity" ->
         LET m0 == With(Base01, x.st)
             m1 == Run(m0, x.op)
             pops == Arity[x.op][1] pushes == Arity[x.op][2]
             keep == Max0(Len(x.st) - pops)
             padded == Run(With(Base01, Pad(3) \o x.st), x.op)
         IN  /\ Len(Top(m1)) = keep + pushes
             /\ SubSeq(Top(m1), 1, keep) = SubSeq(x.st, 1, keep)
             /\ Top(padded) = Pad(3 + Len(x.st) - pops - keep) \o Top(m1)      \* missing values are zeros
             /\ Same(Rest(padded), Rest(m1))
             \* the other way round with both modes on
             /\ x.qi => Top(Run(QI(With(Base01, Rev(x.st))), x.op)) = Rev(Top(m1))
    [] x.k = "many" -> \* other stacks, below and above, are untouched
         LET m0 == [Base01 EXCEPT !.ip.ss = <<<<"5">>, x.st, <<"6", "6">>>>, !.ip.sel = 1]
             m1 == Run(m0, x.op)
         IN  m1.ip.ss = <<<<"5">>, Top(Run(With(Base01, x.st), x.op)), <<"6", "6">>>> /\ m1.ip.sel = 1
    [] x.k = "clear" -> Top(Run(With(Base01, x.st), "n")) = << >>

-----------------------------------------------------------------------------
(* C02: 64-bit two's complement arithmetic *)
Words == {MinWord, WAdd(MinWord, "1"), "-4294967296", "-2147483649", "-3", "-1", "0", "1", "2", "7", "2147483648", "4294967295",
          "3037000500", WSub(MaxWord, "1"), MaxWord}
Op2(b, ch, a) == LET m == Run(With(M98, <<"5", b, a>>), ch) IN Top(m)[2]
SgnOf(w) == IF w = "0" THEN 0 ELSE IF WLt(w, "0") THEN -1 ELSE 1
NegAbs(w) == IF WLt(w, "0") THEN w ELSE WNeg(w)
C02Cases == {[k |-> "two", a |-> a, b |-> b] : a \in Words, b \in Words} \cup {[k |-> "three", a |-> a, b |-> b, c |-> c] : a \in Words, b \in Words, c \in {"2", "-1", MaxWord}}
            \cup {[k |-> "text", a |-> a] : a \in Words}
C02 ==
  CASE x.k = "two" ->
         LET a == x.a b == x.b q == Op2(b, "/", a) r == Op2(b, "%", a) IN
         /\ Op2(b, "+", a) = Op2(a, "+", b) /\ Op2(b, "*", a) = Op2(a, "*", b)
         /\ Op2(Op2(b, "-", a), "+", a) = b /\ Op2(b, "-", a) = Op2(b, "+", Op2("0", "-", a))
         /\ IF a = "0" THEN q = "0" /\ r = "0"
            ELSE /\ Op2(Op2(q, "*", a), "+", r) = b              \* division with remainder
                 /\ WLt(NegAbs(a), NegAbs(r))                     \* |r| < |a|
                 /\ (r = "0" \/ SgnOf(r) = SgnOf(b))                  \* truncating
         /\ Op2(b, "`", a) = Bool(WLt(a, b)) /\ (Op2(b, "`", a) = "1" => Op2(a, "`", b) = "0")
         /\ (Op2(b, "`", a) = "0" /\ Op2(a, "`", b) = "0") = (a = b)
    [] x.k = "three" -> /\ Op2(Op2(x.a, "+", x.b), "*", x.c) = Op2(Op2(x.a, "*", x.c), "+", Op2(x.b, "*", x.c))
                        /\ Op2(Op2(x.a, "+", x.b), "+", x.c) = Op2(x.a, "+", Op2(x.b, "+", x.c))
                        /\ Op2(Op2(x.a, "*", x.b), "*", x.c) = Op2(x.a, "*", Op2(x.b, "*", x.c))
    [] x.k = "text" -> \* a non-negative number that is printed and read is the same
         LET p == Run(With(M98, <<x.a>>), ".") 
             r == Run([p EXCEPT !.inp = Bytes(p.out)], "&")
         IN  /\ Top(Run(Run(With(M98, <<x.a>>), "!"), "!")) = <<IF x.a = "0" THEN "0" ELSE "1">>
             /\ WLe("0", x.a) => Top(r) = <<x.a>> /\ r.inp = <<"32">>

-----------------------------------------------------------------------------
(* C03: Lahey space *)
Corners == {<<W(a), W(b)>> : a \in -1..1, b \in {-2, 0, 1}}
Hulls == {h \in {[mn |-> a, mx |-> b] : a \in {<<"-2", "0">>, <<"0", "0">>, <<"1", "-1">>}, b \in {<<"0", "0">>, <<"3", "2">>, <<"1", "4">>}} :
            \A d \in 1..2 : WLe(h.mn[d], h.mx[d])}
Small2(lo, hi) == {<<W(a), W(b)>> : a \in lo..hi, b \in lo..hi}
Deltas == Small2(-2, 2) \cup {<<"3", "-1">>, <<"5", "0">>, <<"0", "-7">>, <<"-4", "3">>}
Mul(d, k) == <<WMul(d[1], W(k)), WMul(d[2], W(k))>>
C03Cases == {[k |-> "lahey", f |-> h, p |-> p, d |-> d] : h \in Hulls, p \in Small2(-3, 5), d \in Deltas}
Along(p, d, k) == VAdd(p, Mul(d, k))
C03 ==
  LET f == x.f p == x.p d == x.d
      in(q) == InHullDef(f, q, 2)
      q == StepLahey(f, p, d, 2)
  IN  IF d = <<"0", "0">> THEN q = p
      ELSE /\ \E k \in -20..20 : q = Along(p, d, k)                               \* on the line of flight
           /\ in(p) => in(q)                                                      \* never leaves
           /\ in(Along(p, d, 1)) => q = Along(p, d, 1)
           /\ in(p) /\ ~ in(Along(p, d, 1)) => ~ in(VSub(q, d))                   \* comes back at the far end
           /\ in(p) => StepLahey(f, q, VNeg(d), 2) = p                            \* a reflected pointer retraces its path
           \* from outside: to the next cell when that may lead inside, else to the far end of the line if it meets the used space
           /\ (~ in(p) /\ \E k \in 1..12 : in(Along(p, d, k))) => q = Along(p, d, 1)
           /\ (~ in(p) /\ (\A k \in 1..12 : ~ in(Along(p, d, k))) /\ (\E k \in -12..0 : in(Along(p, d, k))))
                 => (in(q) /\ ~ in(VSub(q, d))) \/ q = Along(p, d, 1)

(* C04: the torus *)
Page == {<<W(a), W(b)>> : a \in {0, 1, 40, 78, 79}, b \in {0, 1, 12, 23, 24}}
OnPage(p) == WLe("0", p[1]) /\ WLe(p[1], "79") /\ WLe("0", p[2]) /\ WLe(p[2], "24")
C04Cases == {[k |-> "torus", p |-> p, d |-> d] : p \in Page, d \in Deltas \cup {<<"100", "0">>, <<"-200", "77">>}}
            \cup {[k |-> "round", p |-> p, d |-> d] : p \in Page, d \in {<<"1", "0">>, <<"-1", "0">>, <<"0", "1">>, <<"0", "-1">>}}
RECURSIVE Steps(_,_,_)
Steps(p, d, n) == IF n = 0 THEN p ELSE Steps(StepTorus(p, d), d, n - 1)
Unit1(d) == d[1] \in {"-1", "0", "1"} /\ d[2] \in {"-1", "0", "1"}
C04 ==
  CASE x.k = "torus" -> /\ OnPage(StepTorus(x.p, x.d))
                        /\ Unit1(x.d) => StepTorus(StepTorus(x.p, x.d), VNeg(x.d)) = x.p
                        /\ OnPage(VAdd(x.p, x.d)) => StepTorus(x.p, x.d) = VAdd(x.p, x.d)
    [] x.k = "round" -> LET n == IF x.d[1] # "0" THEN 80 ELSE 25 IN
                        /\ Steps(x.p, x.d, n) = x.p
                        /\ \A k \in 1..n - 1 : Steps(x.p, x.d, k) # x.p

-----------------------------------------------------------------------------
(* C05: directions *)
Grid == OfText(<<"-std=be98">>, "z1;2;3k4\n 56 7;8;\n9    ab")
At(m, p, d) == [m EXCEPT !.ip.pos = p, !.ip.dlt = d]
Places == {<<W(a), W(b)>> : a \in 0..7, b \in 0..2}
C05Cases == {[k |-> "turn", d |-> d] : d \in Small2(-2, 2)}
            \cup {[k |-> "jump", p |-> p, d |-> d, n |-> n] : p \in Places, d \in {<<"1", "0">>, <<"0", "1">>, <<"-1", "0">>, <<"2", "1">>}, n \in -3..3}
            \cup {[k |-> "again", op |-> o, n |-> n, st |-> s] : o \in {"1", "+", "!", ":", "$", "-", "r", "z", "]"}, n \in 0..4, s \in SeqsUpTo({"0", "3"}, 2)}
            \cup {[k |-> "cmp", a |-> a, b |-> b, d |-> d] : a \in Words, b \in {"0", MinWord, MaxWord, "1"}, d \in {<<"1", "0">>, <<"0", "-2">>}}
            \cup {[k |-> "away", d |-> d] : d \in Small2(-1, 1)}
C05 ==
  CASE x.k = "turn" ->
         LET m == At(M98, Zero, x.d) dlt(q) == Runs(m, q).ip.dlt IN
         /\ dlt(<<"[", "]">>) = x.d /\ dlt(<<"]", "[">>) = x.d /\ dlt(<<"[", "[", "[", "[">>) = x.d
         /\ dlt(<<"[", "[">>) = dlt(<<"r">>) /\ dlt(<<"]", "]", "]">>) = dlt(<<"[">>)
         /\ dlt(<<"r", "r">>) = x.d /\ dlt(<<"r">>) = VNeg(x.d)
         /\ Run(With(m, <<x.d[1], x.d[2]>>), "x").ip.dlt = x.d
         /\ \A st \in {<<"1">>, <<"0">>} : Run(With(m, st), "_").ip.dlt = (IF st[1] = "0" THEN dlt(<<">">>) ELSE dlt(<<"<">>))
         /\ \A st \in {<<"1">>, <<"0">>} : Run(With(m, st), "|").ip.dlt = (IF st[1] = "0" THEN dlt(<<"v">>) ELSE dlt(<<"^">>))
         /\ dlt(<<"<">>) = VNeg(dlt(<<">">>)) /\ dlt(<<"^">>) = VNeg(dlt(<<"v">>))
         /\ dlt(<<">", "]">>) = dlt(<<"v">>) /\ dlt(<<">", "[">>) = dlt(<<"^">>)
    [] x.k = "jump" -> \* j 0 is nothing, j 1 is #, and there is the way back
         LET m == At(Grid, x.p, x.d) j(y, n) == Run(With(y, <<W(n)>>), "j") IN
         InHullDef(Field(m), x.p, 2) =>
           /\ j(m, 0).ip.pos = x.p
           /\ j(m, 1).ip.pos = Run(m, "#").ip.pos
           /\ x.d # <<"2", "1">> => j(j(m, x.n), -x.n).ip.pos = x.p
           /\ j(m, x.n).ip.dlt = x.d
           /\ \A k \in 1..3 : x.n = k => j(m, k).ip.pos = Run(j(m, k - 1), "#").ip.pos
    [] x.k = "again" -> \* n k executes the next instruction n times, at k's own position
         LET text == "k " \o x.op
             m == With(OfText(<<"-std=be98">>, text), Append(x.st, W(x.n)))
             after == Turn(m)
             base == [m EXCEPT !.ip.ss = <<x.st>>]
             n == x.n
             times == FoldLeft(LAMBDA y, i : Run(y, x.op), base, [i \in 1..n |-> i])
         IN  /\ after.ip.ss = times.ip.ss /\ after.ip.dlt = times.ip.dlt
             /\ after.ip.pos = (IF n = 0 THEN <<"0", "0">> ELSE Nx(times).ip.pos)
    [] x.k = "cmp" ->
         LET m == Run(With(At(M98, Zero, x.d), <<x.b, x.a>>), "w") IN
         m.ip.dlt = (IF x.a = x.b THEN x.d ELSE IF WLt(x.b, x.a) THEN TurnLeft(x.d) ELSE TurnRight(x.d))
    [] x.k = "away" -> \* every cardinal direction, and no other
         LET m == At(M98, Zero, x.d) IN
         {Run([m EXCEPT !.ora = r], "?").ip.dlt : r \in 0..3} = {<<"1", "0">>, <<"-1", "0">>, <<"0", "1">>, <<"0", "-1">>}

-----------------------------------------------------------------------------
(* C06: Funge-space remembers what was stored last, and its bounds cover    *)
(* every cell that is not a space.  The case grows by one p at a time.      *)
Spots == {<<"0", "0">>, <<"-1", "0">>, <<"2", "0">>, <<"0", "-2">>, <<"2", "1">>}
Put06(m, v, w) == Run(With(m, <<w, v[1], v[2]>>), "p")
C06Cases == {[k |-> "space", m |-> OfText(<<"-std=be98">>, t), h |-> [v \in Spots |-> "?"], n |-> 0] : t \in {"z", "", " z\n z"}}
C06Next == /\ x.n < 4
           /\ \E v \in Spots, w \in {"32", "65", MinWord} :
                x' = [x EXCEPT !.m = Put06(@, v, w), !.h[v] = w, !.n = @ + 1]
C06 == /\ \A v \in Spots : x.h[v] # "?" => Top(Run(With(x.m, <<v[1], v[2]>>), "g")) = <<x.h[v]>>
       /\ SoundBounds(Field(x.m))
       /\ Top(Run(With(x.m, <<"77", "-50">>), "g")) = <<"32">>
       /\ Run(With(x.m, <<"1", "1">>), "g").us = x.m.us
       \* the bounds are those of the cells (the origin's first, while it is empty)
       /\ \A d \in 1..2 : LET ext == {v[d] : v \in {u \in DOMAIN Field(x.m).c : Field(x.m).c[u] # SP}} IN
            ext # {} => /\ \A w \in ext : WLe(Field(x.m).mn[d], w) /\ WLe(w, Field(x.m).mx[d])

-----------------------------------------------------------------------------
(* C07: blocks *)
C07Cases == {[k |-> "block", st |-> s, n |-> n, sto |-> o, low |-> l, sel |-> 0] : s \in SeqsUpTo({"3", "4"}, 3), n \in -2..4, o \in {<<"0", "0">>, <<"5", "-2">>}, l \in SeqsUpTo({"8"}, 1)}
            \cup {[k |-> "under", st |-> s, n |-> n, low |-> l] : s \in SeqsUpTo({"3", "4"}, 3), n \in -3..3, l \in SeqsUpTo({"8", "9"}, 3)}
C07 ==
  CASE x.k = "block" ->
         LET m0 == [M98 EXCEPT !.ip.ss = <<x.low, x.st \o <<W(x.n)>>>>, !.ip.sto = x.sto, !.ip.pos = <<"4", "1">>, !.ip.dlt = <<"1", "0">>]
             m1 == Run(m0, "{")
             m2 == Run([m1 EXCEPT !.ip.ss[3] = Append(@, W(x.n))], "}")
             m3 == Run([m1 EXCEPT !.ip.ss[3] = Append(@, "0")], "}")
         IN  /\ Len(m1.ip.ss) = 3 /\ m1.ip.sto = <<"5", "1">>                     \* the cell that is executed next
             /\ m1.ip.ss[1] = x.low
             /\ Len(m1.ip.ss[3]) = Max0(x.n)
             /\ Len(m2.ip.ss) = 2 /\ m2.ip.sto = x.sto /\ m2.ip.ss[1] = x.low
             /\ m2.ip.ss[2] = (IF x.n <= Len(x.st) THEN x.st ELSE Pad(x.n - Len(x.st)) \o x.st)
             /\ x.n >= 0 => m3.ip.ss[2] = SubSeq(x.st, 1, Max0(Len(x.st) - x.n))
    [] x.k = "under" ->
         LET m0 == [M98 EXCEPT !.ip.ss = <<x.low, x.st \o <<W(x.n)>>>>]
             m1 == Run(m0, "u")
             m2 == Run([m1 EXCEPT !.ip.ss[2] = Append(@, W(-x.n))], "u")
             total(m) == Len(m.ip.ss[1]) + Len(m.ip.ss[2])
         IN  /\ (0 <= x.n /\ x.n <= Len(x.low)) \/ (x.n < 0 /\ -x.n <= Len(x.st))
                  => m2.ip.ss = <<x.low, x.st>> /\ total(m1) = Len(x.low) + Len(x.st)
             /\ Len(x.low) + x.n >= 0 /\ x.n > 0 /\ x.n <= Len(x.low)
                  => m1.ip.ss[2] = x.st \o Rev(SubSeq(x.low, Len(x.low) - x.n + 1, Len(x.low)))
             /\ Run([M98 EXCEPT !.ip.ss = <<x.st>>], "u").err = "unspec"          \* nothing under the only stack
             /\ Run([M98 EXCEPT !.ip.ss = <<x.st>>], "}").err = "unspec"

-----------------------------------------------------------------------------
(* C08: strings *)
Texts08 == SeqsUpTo({"97", "32", "9", "92", "110", "48"}, 4)
C08Cases == {[k |-> "string", q |-> q, s |-> s] : q \in Texts08, s \in {"multispace", "sgml", "c"}}
            \cup {[k |-> "fetch", c |-> c] : c \in {"0", "32", "34", "97", "200", "255"}}
(* the characters that do not continue white space *)
Collapse(q) == LET S == {i \in 1..Len(q) : i = 1 \/ ~ (IsSpaceW(q[i]) /\ IsSpaceW(q[i - 1]))}
                   is == SetToSortSeq(S, <) IN [i \in 1..Len(is) |-> q[is[i]]]
RECURSIVE Unescape(_)
Unescape(q) == IF q = << >> THEN << >>
               ELSE IF q[1] # "92" \/ Len(q) = 1 THEN <<q[1]>> \o Unescape(Tail(q))
               ELSE <<CASE q[2] = "110" -> "10" [] q[2] = "97" -> "7" [] q[2] = "48" -> "0" [] OTHER -> q[2]>> \o Unescape(SubSeq(q, 3, Len(q)))
RECURSIVE EndsInBackslash(_)
EndsInBackslash(q) == q # << >> /\ (IF q[1] = "92" THEN Len(q) = 1 \/ EndsInBackslash(SubSeq(q, 3, Len(q))) ELSE EndsInBackslash(Tail(q)))
C08 ==
  CASE x.k = "string" ->
         LET m0 == MachineOf(<<"-std=be98", "-fstrings=" \o x.s>>, <<"34">> \o x.q \o <<"34", "64">>)
             want == CASE x.s = "multispace" -> x.q [] x.s = "sgml" -> Collapse(x.q) [] x.s = "c" -> Unescape(x.q)
             m1 == Turns(m0, Len(want) + 2)
         IN  (x.s = "c" /\ EndsInBackslash(x.q)) \/
             (/\ Top(m1) = want /\ m1.ip.st = "normal"
              /\ Here(m1) = "64"                              \* one turn for each character, and one for each quote
              /\ Turn(m1).ip.stop)
    [] x.k = "fetch" -> LET m == Run(MachineOf(<<"-std=be98">>, <<"39", x.c, "64">>), "'") IN Top(m) = <<x.c>> /\ m.ip.pos = <<"1", "0">>

-----------------------------------------------------------------------------
(* C11: what is not an instruction reflects and changes nothing else        *)
Cells11 == {W(c) : c \in -2..300} \cup {MinWord, MaxWord, "4294967297"}
C11Cases == {[k |-> "cell", w |-> w, std |-> s, st |-> t] : w \in Cells11, s \in {"une93", "une98", "be93", "be98"}, t \in {<< >>, <<"1", "2", "3">>}}
(* what the languages have *)
Listed(std) == "0123456789+-*/%!`<>?_\":\\$.,#gp&~@ " \o (IF std \in {"be93", "be98"} THEN "^v|" ELSE "")
               \o (IF std \in {"une98", "be98"} THEN "abcdefjkqstxyzriou={}()'n;" ELSE "") \o (IF std = "be98" THEN "[]w" ELSE "")
C11 ==
  LET m0 == With(OfText(<<"-std=" \o x.std>>, "zzzz"), x.st)
      m == SetField(m0, Put(Field(m0), <<"1", "0">>, x.w))
      at == [m EXCEPT !.ip.pos = <<"1", "0">>]
      w == Here(at)
      known == w = "9" \/ \E i \in 1..Len(Listed(x.std)) : w = Ord(SubSeq(Listed(x.std), i, i))
      r == Turn(at)
      e == Exec(at, w)
  IN  IF known THEN e.err # "unimp"
      ELSE /\ e.err = "unimp" /\ [e EXCEPT !.err = "none"] = at
           /\ r.ip.dlt = VNeg(at.ip.dlt) /\ r.ip.pos = Step(at, at.ip.pos, VNeg(at.ip.dlt))
           /\ r.ip.ss = at.ip.ss /\ r.us = at.us /\ r.out = "" /\ r.fs = at.fs

-----------------------------------------------------------------------------
(* C12: y *)
Sys(st) == With(M98, st)
C12Cases == {[k |-> "pick", n |-> n, st |-> s] : n \in 1..60, s \in SeqsUpTo({"3", "4"}, 2)}
            \cup {[k |-> "flag", o |-> o] : o \in {"concurrent", "execute", "filesystem"}}
            \cup {[k |-> "all", st |-> s, low |-> l] : s \in SeqsUpTo({"3"}, 3), l \in SeqsUpTo({"3"}, 2)}
C12 ==
  CASE x.k = "pick" -> \* the nth value y pushes, or the one that many below
         LET all == Run(Sys(x.st \o <<"0">>), "y") one == Run(Sys(x.st \o <<W(x.n)>>), "y") IN
         /\ Top(one) = Append(x.st, A(all, x.n))
         /\ Same(Rest(one), Rest(all))
    [] x.k = "flag" -> LET m == OfText(<<"-std=be98", "-fno-" \o x.o>>, "z")
                           f(y) == A(Run(With(y, <<"1">>), "y"), 1)
                           bits == CASE x.o = "concurrent" -> "1" [] x.o = "filesystem" -> "6" [] OTHER -> "8"
                       IN  WXor(f(m), f(M98)) = bits /\ WAnd(f(m), bits) = "0"
    [] x.k = "all" -> LET m == [M98 EXCEPT !.ip.ss = <<x.low, x.st \o <<"0">>>>]
                          r == Run(m, "y")
                          t(i) == A(r, i)
                      IN  /\ r.ip.ss[1] = x.low /\ SubSeq(r.ip.ss[2], 1, Len(x.st)) = x.st
                          /\ t(2) = "8" /\ t(7) = "2"                                    \* bytes per cell, dimensions
                          /\ <<t(11), t(10)>> = m.ip.pos /\ <<t(13), t(12)>> = m.ip.dlt /\ <<t(15), t(14)>> = m.ip.sto
                          /\ <<t(17), t(16)>> = Field(m).mn /\ VAdd(<<t(17), t(16)>>, <<t(19), t(18)>>) = Field(m).mx
                          /\ t(22) = "2" /\ t(23) = W(Len(x.st)) /\ t(24) = W(Len(x.low)) \* stacks, then their sizes, top first

-----------------------------------------------------------------------------
(* C13: fingerprints.  x.h: for each fingerprint in use, oldest first, what *)
(* the letters meant before it.                                             *)
Fps == <<"BOOL", "BITW", "FRTH">>
IdOf(fp) == FingWord(fp)
LoadFp(m, fp, op) == Run(With(m, Rev(Codes(fp)) \o <<"4">>), op)
Clean13(m) == [c \in {l \in DOMAIN m.ip.sem : m.ip.sem[l] # << >>} |-> m.ip.sem[c]]
C13Cases == {[k |-> "fing", m |-> M98, h |-> << >>, n |-> 0]}
C13Next == /\ x.n < 5
           /\ \/ \E i \in 1..3 : x' = [x EXCEPT !.m = LoadFp(@, Fps[i], "("), !.h = Append(@, <<Fps[i], Clean13(x.m)>>), !.n = @ + 1]
              \/ x.h # << >> /\ x' = [x EXCEPT !.m = LoadFp(@, x.h[Len(x.h)][1], ")"), !.h = SubSeq(@, 1, Len(@) - 1), !.n = @ + 1]
Uses(fp, c) == \E i \in 1..Len(Letters[fp]) : SubSeq(Letters[fp], i, i) = c
C13 == /\ x.m.err = "none"
       /\ \A i \in 1..26 :
            LET c == SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i, i)
                S == {j \in 1..Len(x.h) : Uses(x.h[j][1], c)} IN
            \* the youngest fingerprint in use that has the letter decides what it does
            TopLayer(x.m.ip, c) = (IF S = {} THEN <<"none">> ELSE <<x.h[CHOOSE j \in S : \A y \in S : y <= j][1], c>>)
       /\ \A j \in 1..3 : \* loading and unloading is as if nothing had happened
            Clean13(LoadFp(LoadFp(x.m, Fps[j], "("), Fps[j], ")")) = Clean13(x.m)
       /\ LoadFp(x.m, "ZZZZ", "(").err = "unspec" /\ Clean13(LoadFp(x.m, "ZZZZ", "(")) = Clean13(x.m)
       /\ Top(LoadFp(x.m, "BOOL", "(")) = <<IdOf("BOOL"), "1">>

-----------------------------------------------------------------------------
(* C14: modes *)
ModeLetter == ("H" :> "hover") @@ ("I" :> "invert") @@ ("Q" :> "queue") @@ ("S" :> "switch")
C14Cases == {[k |-> "toggle", a |-> a, b |-> b, g |-> g] : a \in DOMAIN ModeLetter, b \in DOMAIN ModeLetter, g \in SUBSET {"hover", "invert", "queue", "switch"}}
            \cup {[k |-> "stack", g |-> g, q |-> q] : g \in SUBSET {"invert", "queue"}, q \in SeqsUpTo({"1", "2", "3"}, 3)}
            \cup {[k |-> "hover", a |-> a, b |-> b] : a \in {"<", ">", "^", "v", "_", "|"}, b \in {"<", ">", "^", "v"}}
            \cup {[k |-> "switch", a |-> a] : a \in {"[", "]", "{", "}", "(", ")"}}
            \cup {[k |-> "dive", a |-> a] : a \in {"1", "+", ".", "p", "@", "q", "<", "v", "r", "["}}
Moded(g) == [M98 EXCEPT !.us["p"].mode = g]
PopAll(m) == [i \in 1..Size(m) |-> A(m, i)]
C14 ==
  CASE x.k = "toggle" -> LET m == Moded(x.g) f(y, c) == Fp(y, "MODE", c) IN
                         /\ f(f(m, x.a), x.a).us = m.us
                         /\ f(f(m, x.a), x.b).us = f(f(m, x.b), x.a).us
                         /\ (ModeLetter[x.a] \in f(m, x.a).us["p"].mode) # (ModeLetter[x.a] \in x.g)
    [] x.k = "stack" -> LET m == FoldLeft(P, Moded(x.g), x.q) IN
                        PopAll(m) = (IF Cardinality(x.g) = 1 THEN x.q ELSE Rev(x.q))       \* one of them makes a queue
    [] x.k = "hover" -> LET m == Moded({"hover"}) d(y, c) == Run(y, c).ip.dlt plain(c) == Run(With(Moded({}), <<"0">>), c).ip.dlt IN
                        /\ Runs(With(m, <<"0">>), <<x.a, x.b>>).ip.dlt = VAdd(VAdd(m.ip.dlt, plain(x.a)), plain(x.b))
                        /\ Run(With(m, <<"4", "9">>), "x").ip.dlt = VAdd(m.ip.dlt, <<"4", "9">>)
    [] x.k = "switch" -> LET m == With(SetField(Moded({"switch"}), Put(Field(M98), M98.ip.pos, Ord(x.a))), <<"1">>)
                             other == CASE x.a = "[" -> "]" [] x.a = "]" -> "[" [] x.a = "{" -> "}" [] x.a = "}" -> "{" [] x.a = "(" -> ")" [] OTHER -> "("
                         IN  /\ Get(Field(Run(m, x.a)), m.ip.pos) = Ord(other)
                             /\ DOMAIN Field(Run(m, x.a)).c = DOMAIN Field(m).c
    [] x.k = "dive" -> LET m == With(Moded({"dive"}), <<"1", "2">>) r == Run(m, x.a) IN
                       IF x.a \in {"<", "v", "r"} THEN r.err = "none" ELSE r.err = "skip" /\ [r EXCEPT !.err = "none"] = m

-----------------------------------------------------------------------------
(* C15: text *)
Texts15 == SeqsUpTo({"97", "32", "10", "13", "12"}, 5)
C15Cases == {[k |-> "text", q |-> q, fd |-> d, at |-> o] : q \in Texts15, d \in {0, 2}, o \in {<<"0", "0">>, <<"3", "-1">>}}
(* line ends made one line feed *)
RECURSIVE Ends(_)
Ends(q) == IF q = << >> THEN << >>
           ELSE IF q[1] = "13" THEN <<"10">> \o Ends(IF Len(q) > 1 /\ q[2] = "10" THEN SubSeq(q, 3, Len(q)) ELSE Tail(q))
           ELSE <<q[1]>> \o Ends(Tail(q))
C15 ==
  LET two == x.fd = 2
      q == SelectSeq(Ends(x.q), LAMBDA b : two => b # "12")
      ff == \E i \in 1..Len(q) : q[i] = "12"
      lines(i) == {j \in 1..i - 1 : q[j] = "10"}
      lastnl(i) == IF lines(i) = {} THEN 0 ELSE CHOOSE j \in lines(i) : \A y \in lines(i) : y <= j
      pos(i) == VAdd(x.at, <<W(i - 1 - lastnl(i)), W(Cardinality(lines(i)))>>)
      want == {i \in 1..Len(q) : q[i] # "10" /\ q[i] # "32"}
      r == ParseText(NewSpace(FALSE), x.at, x.q, x.fd, FALSE)
      far(d) == LET S == {WSub(pos(i)[d], x.at[d]) : i \in 1..Len(q) + 1} IN CHOOSE w \in S : \A y \in S : WLe(y, w)
  IN  ff \/ (/\ DOMAIN r.f.c = {pos(i) : i \in want}
             /\ \A i \in want : r.f.c[pos(i)] = q[i]
             /\ r.size = <<far(1), far(2)>>
             /\ SoundBounds(r.f))

-----------------------------------------------------------------------------
(* C16: what o writes, i reads back *)
Boxes == {<<W(a), W(b)>> : a \in 0..2, b \in 0..1}
C16Cases == {[k |-> "round", S |-> S, w |-> w, h |-> h, bin |-> b] : S \in SUBSET Boxes, w \in 1..3, h \in 1..2, b \in BOOLEAN}
C16 ==
  LET name == <<"0", "102">>                                     \* "f"
      f == [v \in x.S |-> IF v[1] = "1" THEN "66" ELSE "65"]
      m0 == SetField(M98, FoldLeft(LAMBDA a, v : Put(a, v, f[v]), NewSpace(FALSE), SetToSeq(x.S)))
      out == Run(With(m0, <<W(x.w), W(x.h), "0", "0", IF x.bin THEN "1" ELSE "0">> \o name), "o")
      in == Run(With(SetField(out, NewSpace(FALSE)), <<"10", "20", "0">> \o name), "i")
      box == {v \in x.S : WLt(v[1], W(x.w)) /\ WLt(v[2], W(x.h))}
      c == Field(in).c
  IN  /\ out.err = "none" /\ out.us = m0.us /\ Top(out) = << >> /\ DOMAIN out.fs = {"p", "f"}
      /\ in.err = "none"
      /\ {v \in DOMAIN c : c[v] # SP} = {VAdd(v, <<"10", "20">>) : v \in box}
      /\ \A v \in box : c[VAdd(v, <<"10", "20">>)] = f[v]
      /\ SubSeq(Top(in), 3, 4) = <<"10", "20">> /\ Len(Top(in)) = 4
      /\ WLe(Top(in)[1], W(x.w)) /\ Top(in)[2] = W(x.h)

-----------------------------------------------------------------------------
(* C17: options.  Those of different groups commute; of a group the last    *)
(* counts; nothing but its own setting is changed.                          *)
Group == <<{"-std=be93", "-std=be98", "-std=fish"}, {"-fconcurrent", "-fno-concurrent"}, {"-fexecute", "-fno-execute"},
           {"-ffilesystem", "-fno-filesystem"}, {"-fthreads=native", "-fthreads=funge"}, {"-g"}, {"-finvert-hl"}, {"-lBOOL"}, {"--odd"}>>
After17 == <<{"-ftopo=torus", "-ftopo=lahey"}, {"-fstrings=c", "-fstrings=sgml"}, {"-fcells=char", "-fcells=int"}>>   \* -std sets these, too
AllOpts == UNION {Group[i] : i \in 2..Len(Group)} \cup UNION {After17[i] : i \in 1..3}
SameGroup(a, b) == \E i \in 1..Len(Group) : {a, b} \subseteq Group[i] \/ (i <= 3 /\ {a, b} \subseteq After17[i])
C17Cases == {[k |-> "pair", a |-> a, b |-> b, s |-> s] : a \in AllOpts, b \in AllOpts, s \in Group[1]}
            \cup {[k |-> "order", a |-> a, s |-> s, t |-> t] : a \in AllOpts, s \in Group[1], t \in Group[1]}
            \cup {[k |-> "bad", a |-> a] : a \in {"-std=", "-std=x", "-ftopo=", "-ftopo=flat", "-fcells=long", "-fthreads=", "-fstrings=C"}}
Cfg17(q) == Options(Cfg0, q, 1)
C17 ==
  CASE x.k = "pair" -> LET ab == Cfg17(<<x.s, x.a, x.b>>) ba == Cfg17(<<x.s, x.b, x.a>>) IN
                       /\ ~ ab.bad
                       /\ IF SameGroup(x.a, x.b) /\ x.a # "-lBOOL" THEN ab.c = Cfg17(<<x.s, x.b>>).c ELSE ab.c = ba.c
    [] x.k = "order" -> LET tail == UNION {After17[i] : i \in 1..3} IN
                        x.a \in tail \/ Cfg17(<<x.s, x.a, x.t>>).c = Cfg17(<<x.t, x.a>>).c
    [] x.k = "bad" -> Cfg17(<<"-g", x.a, "p">>).bad /\ Boot(NewMachine(None, "p" :> << >>, << >>, None, ""), <<x.a, "p">>, << >>)[2] = EINVAL

-----------------------------------------------------------------------------
(* C18, C19: ><> and *><> *)
Reals == {DOfW("0"), DOfW("1"), DOfW("-2"), DOfW("5"), DDiv(DOfW("1"), DOfW("2"))}
FishTwice == {<<"r", "r">>, <<"{", "}">>, <<"}", "{">>, <<"$", "$">>, <<"@", "@", "@">>, <<":", "~">>, <<"&", "&">>, <<"l", "[", "]">>, <<"l", "~">>}
C18Cases == {[k |-> "same", q |-> q, st |-> s] : q \in FishTwice, s \in SeqsUpTo(Reals, 3)}
            \cup {[k |-> "arith", a |-> a, b |-> b] : a \in Reals, b \in Reals}
            \cup {[k |-> "need", op |-> o, st |-> s] : o \in {"+", "-", "*", ",", "%", "=", ")", "(", ":", "~", "$", "@", "{", "}", "o", "n", "g", "p", ".", "&", "?"}, s \in SeqsUpTo({DOfW("1")}, 2)}
Need == ("+" :> 2) @@ ("-" :> 2) @@ ("*" :> 2) @@ ("," :> 2) @@ ("%" :> 2) @@ ("=" :> 2) @@ (")" :> 2) @@ ("(" :> 2) @@ (":" :> 1) @@ ("~" :> 1)
        @@ ("$" :> 2) @@ ("@" :> 3) @@ ("{" :> 1) @@ ("}" :> 1) @@ ("o" :> 1) @@ ("n" :> 1) @@ ("g" :> 2) @@ ("p" :> 3) @@ ("." :> 2) @@ ("&" :> 1)
        @@ ("?" :> 1)
NeedF(q) == CASE q[1] = "r" -> 0 [] q[1] = "l" -> 0 [] OTHER -> Need[q[1]]
C18 ==
  CASE x.k = "same" -> LET r == Runs(With(MFish, x.st), x.q) IN
                       Len(x.st) < NeedF(x.q) \/ (r.err = "none" /\ r.ip.ss = <<x.st>> /\ r.us = MFish.us)
    [] x.k = "arith" -> LET f(b, o, a) == Top(Run(With(MFish, <<b, a>>), o)) a == x.a b == x.b IN
                        /\ f(b, "+", a) = f(a, "+", b) /\ f(b, "*", a) = f(a, "*", b)
                        /\ f(f(b, "-", a)[1], "+", a) = <<b>>
                        /\ (DIsZero(a) \/ f(f(b, ",", a)[1], "*", a) = <<b>>)
                        /\ Cardinality({o \in {"=", ")", "("} : f(b, o, a) = <<DOfW("1")>>}) = 1
                        /\ f(b, ")", a) = f(a, "(", b)
    [] x.k = "need" -> \* too few values: the whole program ends with status 1
         LET m == With(MFish, x.st) SetHere == SetField(m, Put(Field(m), Zero, Ord(x.op))) r == Turn(SetHere) IN
         IF Len(x.st) >= Need[x.op] THEN Run(m, x.op).err = "none" ELSE r.smell /\ r.ip.stop /\ ~ r.us["p"].run /\ r.us["p"].code = "1"
C19Cases == {[k |-> "call", p |-> p, st |-> s] : p \in Small2(0, 2), s \in SeqsUpTo({DOfW("1"), DOfW("2")}, 2)}
            \cup {[k |-> "select", n |-> n, sel |-> s] : n \in 1..3, s \in 0..2}
            \cup {[k |-> "under", op |-> o] : o \in {"1", "+", "n", "C", "R", "I", "D", "S", "h", "F", ";", "<", "v", "/", "`", "O"}}
            \cup {[k |-> "hook", d |-> d, up |-> u] : d \in {<<"1", "0">>, <<"-1", "0">>, <<"0", "1">>, <<"0", "-1">>}, u \in BOOLEAN}
C19 ==
  CASE x.k = "call" -> \* a call and its return: back where it was, with the stack as it is then
         LET m0 == [With(MStar, x.st \o <<DOfW(x.p[1]), DOfW(x.p[2])>>) EXCEPT !.ip.pos = <<"7", "3">>]
             m1 == Run(m0, "C") m2 == Run(Run(m1, "5"), "R")
         IN  /\ m1.err = "none" /\ m1.ip.pos = x.p /\ Len(m1.ip.ss) = 2 /\ Top(m1) = x.st
             /\ m2.err = "none" /\ m2.ip.pos = <<"7", "3">> /\ m2.ip.ss = <<x.st \o <<DOfW("5")>>>>
             /\ Run(With(MStar, x.st), "R").err = "unspec"
    [] x.k = "select" -> LET m == [MStar EXCEPT !.ip.ss = [i \in 1..x.n |-> <<DOfW(W(i))>>], !.ip.sel = IF x.sel < x.n THEN x.sel ELSE 0] IN
                         /\ m.ip.sel > 0 => Runs(m, <<"I", "D">>) = m
                         /\ m.ip.sel = 0 <=> Run(m, "I").err = "unspec"
                         /\ m.ip.sel < x.n - 1 => Runs(m, <<"D", "I">>) = m
                         /\ m.ip.sel = x.n - 1 <=> Run(m, "D").err = "unspec"
    [] x.k = "under" -> LET m == With(Run(MStar, "u"), <<DOfW("1"), DOfW("1")>>) r == Run(m, x.op) IN
                        /\ IF x.op \in {"<", "v", "/", "`", "O"} THEN r.err = "none" /\ r.ip.ss = m.ip.ss ELSE r.err = "skip" /\ [r EXCEPT !.err = "none"] = m
                        /\ Run(m, "O").us = MStar.us
    [] x.k = "hook" -> \* the hook alternates between the vertical directions and returns to the last horizontal one
         LET m == [MStar EXCEPT !.ip.dlt = x.d, !.ip.fi.up = x.up]
             r == Run(m, "`")
         IN  IF x.d[2] = "0" THEN r.ip.dlt = (IF x.up THEN <<"0", "1">> ELSE <<"0", "-1">>) /\ r.ip.fi.up = ~ x.up
             ELSE r.ip.dlt = m.ip.fi.last /\ r.ip.fi.up = x.up

-----------------------------------------------------------------------------
(* C20: computing fingerprints *)
FpTop(st, fp, c) == Top(Fp(With(M98, st), fp, c))
C20Cases == {[k |-> "base", n |-> n, b |-> W(b)] : n \in {v \in Words : WLe("0", v)}, b \in 2..32}
            \cup {[k |-> "bits", a |-> a, b |-> b] : a \in Words, b \in Words}
            \cup {[k |-> "shift", a |-> a, n |-> W(n)] : a \in Words, n \in 0..63}
            \cup {[k |-> "complex", a |-> a, b |-> b, c |-> c, d |-> d] : a \in {"-3", "0", "2"}, b \in {"1", "-7"}, c \in {"0", "5", MaxWord}, d \in {"4", "-1"}}
            \cup {[k |-> "frth", st |-> s, n |-> n] : s \in SeqsUpTo({"1", "2", "3"}, 4), n \in -4..4}
C20 ==
  CASE x.k = "base" -> LET m == Fp(With(M98, <<x.n, x.b>>), "BASE", "N")
                           r == Fp(With([m EXCEPT !.inp = Bytes(m.out)], <<x.b>>), "BASE", "I") IN
                       Top(m) = << >> /\ Top(r) = <<x.n>>                          \* what is printed reads back
    [] x.k = "bits" -> LET f(c, st) == FpTop(st, "BITW", c)[1] a == x.a b == x.b no(v) == f("N", <<v>>) IN
                       /\ f("A", <<a, b>>) = f("A", <<b, a>>) /\ f("O", <<a, b>>) = f("O", <<b, a>>)
                       /\ no(no(a)) = a /\ no(f("A", <<a, b>>)) = f("O", <<no(a), no(b)>>)
                       /\ f("X", <<a, b>>) = f("A", <<f("O", <<a, b>>), no(f("A", <<a, b>>))>>)
                       /\ f("X", <<f("X", <<a, b>>), b>>) = a
                       /\ WAdd(f("A", <<a, b>>), f("O", <<a, b>>)) = WAdd(a, b)
                       /\ no(a) = WSub(WNeg(a), "1")
    [] x.k = "shift" -> LET f(c, st) == FpTop(st, "BITW", c)[1] IN
                        /\ f("L", <<x.a, "0">>) = x.a /\ f("R", <<x.a, "0">>) = x.a
                        /\ x.n # "0" => f("L", <<x.a, x.n>>) = WMul(f("L", <<x.a, WSub(x.n, "1")>>), "2")
                        /\ x.n # "0" => LET p == f("R", <<x.a, WSub(x.n, "1")>>) q == f("R", <<x.a, x.n>>) IN
                                        WSub(p, WMul(q, "2")) \in {"0", "1"}
    [] x.k = "complex" -> LET f(c, p, q) == FpTop(p \o q, "CPLI", c) u == <<x.a, x.b>> v == <<x.c, x.d>> w == <<"1", "1">> IN
                          /\ f("A", u, v) = f("A", v, u) /\ f("M", u, v) = f("M", v, u)
                          /\ f("S", f("A", u, v), v) = u
                          /\ f("M", f("A", u, v), w) = f("A", f("M", u, w), f("M", v, w))
                          /\ f("M", f("M", u, v), w) = f("M", u, f("M", v, w))
                          /\ f("M", <<"0", "1">>, <<"0", "1">>) = <<"-1", "0">>
    [] x.k = "frth" -> LET f(c, st) == FpTop(st, "FRTH", c) n == Len(x.st) k == x.n IN
                       /\ f("D", x.st) = Append(x.st, W(n))
                       /\ (n >= 3 => f("R", f("R", f("R", x.st))) = x.st)
                       /\ (n >= 1 => f("P", x.st \o <<"0">>) = Append(x.st, x.st[n]))
                       /\ (k >= 0 /\ k < n => f("P", x.st \o <<W(k)>>) = Append(x.st, x.st[n - k]))
                       /\ (k > -n /\ k < n => f("L", Append(f("L", Append(x.st, W(k))), W(-k))) = x.st)
                       /\ (n >= 3 => f("L", x.st \o <<"2">>) = f("R", x.st))
                       /\ (n >= 2 => f("O", x.st) = Append(x.st, x.st[n - 1]))

-----------------------------------------------------------------------------
(* C21: strings and formats *)
Strs == SeqsUpTo({"97", "98"}, 3)
C21Cases == {[k |-> "str", s |-> s, t |-> t, n |-> n] : s \in Strs, t \in Strs, n \in 0..4} \cup {[k |-> "num", n |-> w] : w \in Words}
C21 ==
  CASE x.k = "str" ->
         LET c(q) == StrCells(q) f(st, l) == FpTop(st, "STRN", l) n == W(x.n) s == x.s t == x.t IN
         /\ f(c(t) \o c(s), "A") = c(s \o t)
         /\ f(c(s), "N") = c(s) \o <<W(Len(s))>>
         /\ f(c(s \o t) \o <<W(Len(s))>>, "L") = c(s) /\ f(c(s \o t) \o <<W(Len(t))>>, "R") = c(t)
         /\ LET l == f(c(s) \o <<n>>, "L") r == f(c(s) \o <<W(Max0(Len(s) - x.n))>>, "R") IN f(r \o l, "A") = c(s)
         /\ (x.n <= Len(s) => f(c(s) \o <<n, W(Len(s))>>, "M") = f(c(s) \o <<W(Len(s) - x.n)>>, "R"))
         /\ LET r == f(c(t) \o c(s), "C") o == f(c(s) \o c(t), "C") IN (r = <<"0">>) = (s = t) /\ (WLt(r[1], "0") = WLt("0", o[1]))
         /\ LET r == f(c(t) \o c(s), "F") IN \* the rest of s from the first t on
              r = c(<< >>) \/ \E i \in 0..Len(s) : r = c(SubSeq(s, i + 1, Len(s))) /\ SubSeq(s, i + 1, i + Len(t)) = t
                                                /\ \A j \in 0..i - 1 : SubSeq(s, j + 1, j + Len(t)) # t
         /\ LET m == Fp(With(M98, c(s) \o <<"4", "5">>), "STRN", "P") IN Top(Fp(With(m, <<"4", "5">>), "STRN", "G")) = c(s)
         /\ Fp(With(M98, c(s)), "STRN", "D").out = Text(s)
         /\ Fp(With([M98 EXCEPT !.inp = s \o <<"10">> \o t], << >>), "STRN", "I").inp = t
         /\ FpTop(c(Codes("<%s>")) \o c(s), "FPRT", "S") = c(<<"60">> \o s \o <<"62">>)
    [] x.k = "num" -> LET n == x.n f(st, l) == FpTop(st, "STRN", l) IN
                      /\ f(f(<<n>>, "S"), "V") = <<n>>
                      /\ FpTop(StrCells(Codes("%ld")) \o <<WShr(n, "32"), WAnd(n, "4294967295")>>, "FPRT", "L") = f(<<n>>, "S")
                      /\ (WInt32(n) = n => FpTop(StrCells(Codes("%d")) \o <<n>>, "FPRT", "I") = f(<<n>>, "S"))

-----------------------------------------------------------------------------
(* C22: fingerprints on Funge-space *)
Patch == {<<W(a), W(b)>> : a \in 0..1, b \in 0..1}
C22Cases == {[k |-> "copy", S |-> S, d |-> d, o |-> o, g |-> g] : S \in SUBSET Patch, d \in {<<"5", "0">>, <<"1", "1">>, <<"-1", "0">>, <<"0", "1">>},
                 o \in {"C", "K", "M", "V"}, g \in {<<"2", "2">>, <<"-2", "-2">>, <<"0", "2">>}}
            \cup {[k |-> "jstr", q |-> q, d |-> d] : q \in SeqsUpTo({"65", "66"}, 3), d \in {<<"1", "0">>, <<"-2", "1">>}}
            \cup {[k |-> "subr", st |-> s, n |-> n, p |-> p] : s \in SeqsUpTo({"1", "2"}, 3), n \in 0..3, p \in Small2(0, 2)}
            \cup {[k |-> "slide", n |-> n, o |-> o] : n \in -3..3, o \in {"J", "O"}}
            \cup {[k |-> "fish", d |-> d, c |-> c] : d \in Small2(-1, 1), c \in {"H", "V", "M", "N"}}
PatchField(S) == FoldLeft(LAMBDA a, v : Put(a, v, WAdd("65", WAdd(v[1], WMul("2", v[2])))), NewSpace(FALSE), SetToSeq(S))
Solid(f) == [v \in {u \in DOMAIN f.c : f.c[u] # SP} |-> f.c[v]]
C22 ==
  CASE x.k = "copy" ->
         LET src == IF x.g[1] = "-2" THEN <<"1", "1">> ELSE <<"0", "0">>
             m == SetField(M98, PatchField(x.S))
             dst == VAdd(src, x.d)
             r == Fp(With(m, src \o x.g \o dst), "TOYS", x.o)
             f == Field(m) g == Field(r)
             box == IF x.g[1] = "0" THEN {} ELSE Patch
             disjoint == x.d = <<"5", "0">>
             moving == x.o \in {"M", "V"}
         IN  /\ Top(r) = << >>
             /\ (disjoint => \A v \in box : Get(g, VAdd(v, x.d)) = Get(f, v) /\ Get(g, v) = (IF moving THEN SP ELSE Get(f, v)))
             \* overlapping: the low-order ones are right when moving down, the high-order ones when moving up
             /\ (x.g = <<"2", "2">> /\ ((x.o \in {"C", "M"} /\ x.d = <<"-1", "0">>) \/ (x.o \in {"K", "V"} /\ x.d \in {<<"1", "1">>, <<"0", "1">>}))
                   => \A v \in box : Get(g, VAdd(v, x.d)) = Get(f, v))
             /\ \A v \in DOMAIN f.c \ (box \cup {VAdd(v, x.d) : v \in box}) : Get(g, v) = Get(f, v)
             /\ DOMAIN Solid(g) \subseteq DOMAIN f.c \cup {VAdd(v, x.d) : v \in box}
    [] x.k = "jstr" -> LET n == W(Len(x.q)) args == x.d \o <<"3", "4", n>>
                           m == Fp(With(M98, Rev(x.q) \o args), "JSTR", "P")
                       IN  /\ Top(m) = << >>
                           /\ Top(Fp(With(m, args), "JSTR", "G")) = <<"0">> \o x.q
                           /\ \A i \in 1..Len(x.q) : Get(Field(m), VAdd(<<"3", "4">>, Mul(x.d, i - 1))) = x.q[i]
    [] x.k = "subr" -> \* a call and its return: back at the same place and direction, the n arguments passed both ways
         LET m0 == [With(M98, x.st \o <<x.p[1], x.p[2], W(x.n)>>) EXCEPT !.ip.pos = <<"9", "8">>, !.ip.dlt = <<"0", "-1">>]
             m1 == Fp(m0, "SUBR", "C")
             m2 == Fp([m1 EXCEPT !.ip.ss[1] = Append(@, W(x.n))], "SUBR", "R")
         IN  x.n <= Len(x.st) => /\ m2.ip.ss = <<x.st>> /\ m2.ip.pos = <<"9", "8">> /\ m2.ip.dlt = <<"0", "-1">>
                                 /\ Nx(m1).ip.pos = x.p \/ ~ InHullDef(Field(m1), x.p, 2)
    [] x.k = "slide" -> LET m == SetField(M98, PatchField(Patch)) f == Field(m)
                            g == Field(Fp(With(m, <<W(x.n)>>), "TOYS", x.o))
                            by == IF x.o = "O" THEN <<W(x.n), "0">> ELSE <<"0", W(x.n)>>
                            line(v) == IF x.o = "O" THEN v[2] = "0" ELSE v[1] = "0"
                        IN  /\ \A v \in Patch : ~ line(v) => Get(g, v) = Get(f, v)
                            /\ \A v \in Patch : line(v) => Get(g, VAdd(v, by)) = Get(f, v)
                            /\ Cardinality(DOMAIN Solid(g)) = 4
    [] x.k = "fish" -> LET f(d) == Fp(At(M98, Zero, d), "FISH", x.c).ip.dlt IN
                       /\ f(f(x.d)) = x.d
                       /\ f(VNeg(x.d)) = VNeg(f(x.d))

-----------------------------------------------------------------------------
(* C30: directories are a tree that M and R grow and prune and C walks;     *)
(* marks measure the time since M; what is disabled is not run.  A case     *)
(* grows by an instruction at a time.                                       *)
Paths30 == ("a" :> <<"a">>) @@ ("b" :> <<"b">>) @@ ("a/b" :> <<"a", "b">>) @@ (".." :> <<"..">>) @@ ("f" :> <<"f">>) @@ ("./b/" :> <<"b">>) @@ ("" :> << >>)
SetFile(m) == [m EXCEPT !.fs = @ @@ ("f" :> <<"65">>)]
C30Cases == {[k |-> "tree", m |-> SetFile(M98), T |-> {<< >>}, at |-> << >>, n |-> 0], [k |-> "time", m |-> M98, now |-> "5000", mk |-> "none", n |-> 0]}
            \cup {[k |-> "off", o |-> o, s |-> s, c |-> c] : o \in BOOLEAN, s \in {"1", "1+2", "300"}, c \in {"E", "I", "S"}}
(* HRTI keeps its mark from one instruction to the next *)
Hrti(m, c) == FpExec([m EXCEPT !.err = "none", !.ip.fst = IF "HRTI" \in DOMAIN @ THEN @ ELSE @ @@ ("HRTI" :> NewState("HRTI"))], "HRTI", c)
(* the tree: T the directories, at where we are *)
Goal30(y, q) == IF q = "" THEN "no" ELSE LET ps == Paths30[q] IN
               IF ps = <<"..">> THEN SubSeq(y.at, 1, Len(y.at) - 1) ELSE y.at \o ps
Up30(g) == SubSeq(g, 1, Len(g) - 1)
Isf(g) == g = <<"f">>
Tree30(y, c, q) ==      \* <<it works, the tree, where we are>>
  IF q = "" THEN <<FALSE, y.T, y.at>> ELSE
  LET g == Goal30(y, q) IN
  CASE c = "C" -> IF g \in y.T THEN <<TRUE, y.T, g>> ELSE <<FALSE, y.T, y.at>>
    [] c = "M" -> IF g \in y.T THEN <<TRUE, y.T, y.at>>
                  ELSE IF Up30(g) \in y.T /\ ~ Isf(g) THEN <<TRUE, y.T \cup {g}, y.at>> ELSE <<FALSE, y.T, y.at>>
    [] c = "R" -> IF g \in y.T /\ \A t \in y.T : ~ (Len(t) > Len(g) /\ SubSeq(t, 1, Len(g)) = g) THEN <<TRUE, y.T \ {g}, y.at>> ELSE <<FALSE, y.T, y.at>>
(* not described: leaving the place the program began at, removing where we are *)
Known30(y, c, q) == IF q = "" THEN TRUE ELSE ((Paths30[q] = <<"..">> => y.at # << >> /\ c = "C") /\ (c = "R" => LET g == Goal30(y, q) IN ~ (Len(g) <= Len(y.at) /\ SubSeq(y.at, 1, Len(g)) = g)))
Do30(m, c, q) == Fp(With(m, <<"0">> \o Rev(Codes(q))), "DIRF", c)
C30Next ==
  \/ /\ x.k = "tree" /\ x.n < 5
     /\ \E c \in {"C", "M", "R"}, q \in DOMAIN Paths30 :
          /\ Known30(x, c, q)
          /\ LET r == Tree30(x, c, q) IN x' = [x EXCEPT !.m = Do30(@, c, q), !.T = r[2], !.at = r[3], !.n = @ + 1]
  \/ /\ x.k = "time" /\ x.n < 5
     /\ \/ \E t \in {"1", "999", "1000", "1000000"} : x' = [x EXCEPT !.now = WAdd(@, t), !.n = @ + 1, !.m.clk = WAdd(x.now, t)]
        \/ x' = [x EXCEPT !.m = Hrti([@ EXCEPT !.clk = x.now], "M"), !.mk = x.now, !.n = @ + 1]
        \/ x' = [x EXCEPT !.m = Hrti([@ EXCEPT !.clk = x.now], "E"), !.mk = "none", !.n = @ + 1]
C30 ==
  CASE x.k = "tree" ->
         /\ \A q \in DOMAIN Paths30, c \in {"C", "M", "R"} : Known30(x, c, q) =>
              LET r == Tree30(x, c, q) m == Do30(x.m, c, q) IN (m.err = "none") = r[1] /\ Top(m) = << >>
         /\ x.m.cwd = x.at
         /\ \A t \in x.T : IsDirL(x.m, t)
         /\ DOMAIN x.m.fs \subseteq {"p", "f"} \cup {DirOf(t) : t \in x.T}
         /\ x.m.fs["f"] = <<"65">>
    [] x.k = "time" ->
         LET do(c) == Hrti(With([x.m EXCEPT !.clk = x.now], <<"9">>), c) IN
         /\ IF x.mk = "none" THEN do("T").err = "unspec" /\ Top(do("T")) = <<"9">>
            ELSE do("T").err = "none" /\ Top(do("T")) = <<"9", WDiv(WSub(x.now, x.mk), "1000")>>
         /\ Top(do("M")) = <<"9">> /\ Top(do("E")) = <<"9">> /\ Len(Top(do("G"))) = 2 /\ Len(Top(do("S"))) = 2
         /\ Hrti(do("E"), "T").err = "unspec"
         /\ WLe("0", Top(do("S"))[2]) /\ WLt(Top(do("S"))[2], "1000000")
    [] x.k = "off" ->
         LET m0 == With(OfText(<<"-std=be98">> \o (IF x.o THEN <<"-fno-execute">> ELSE << >>), "z"), <<"5", "0">> \o Rev(Codes(x.s)))
             m == Fp(m0, "PERL", x.c)
             w == IF x.s = "1" THEN "1" ELSE IF x.s = "1+2" THEN "3" ELSE "44"
         IN  CASE x.c = "S" -> m.err = "none" /\ Len(Top(m)) = Len(Top(m0)) + 1
               [] x.o -> m.err \notin {"none", "giveup"} /\ m.ip.ss = m0.ip.ss
               [] x.c = "I" -> Top(m) = <<"5", w>>
               [] OTHER -> Top(m) = <<"5", "0">> \o Rev(Codes(w))

-----------------------------------------------------------------------------
Cases == CASE Law = "C01" -> C01Cases [] Law = "C02" -> C02Cases [] Law = "C03" -> C03Cases [] Law = "C04" -> C04Cases
           [] Law = "C05" -> C05Cases [] Law = "C06" -> C06Cases [] Law = "C07" -> C07Cases [] Law = "C08" -> C08Cases
           [] Law = "C11" -> C11Cases [] Law = "C12" -> C12Cases [] Law = "C13" -> C13Cases [] Law = "C14" -> C14Cases
           [] Law = "C15" -> C15Cases [] Law = "C16" -> C16Cases [] Law = "C17" -> C17Cases [] Law = "C18" -> C18Cases
           [] Law = "C19" -> C19Cases [] Law = "C20" -> C20Cases [] Law = "C21" -> C21Cases [] Law = "C22" -> C22Cases [] Law = "C30" -> C30Cases
Init == x \in Cases
Next == CASE Law = "C06" -> C06Next [] Law = "C13" -> C13Next [] Law = "C30" -> C30Next [] OTHER -> UNCHANGED x
Holds == CASE Law = "C01" -> C01 [] Law = "C02" -> C02 [] Law = "C03" -> C03 [] Law = "C04" -> C04
           [] Law = "C05" -> C05 [] Law = "C06" -> C06 [] Law = "C07" -> C07 [] Law = "C08" -> C08
           [] Law = "C11" -> C11 [] Law = "C12" -> C12 [] Law = "C13" -> C13 [] Law = "C14" -> C14
           [] Law = "C15" -> C15 [] Law = "C16" -> C16 [] Law = "C17" -> C17 [] Law = "C18" -> C18
           [] Law = "C19" -> C19 [] Law = "C20" -> C20 [] Law = "C21" -> C21 [] Law = "C22" -> C22 [] Law = "C30" -> C30
=============================================================================
