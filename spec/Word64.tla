------------------------------- MODULE Word64 -------------------------------
(***************************************************************************)
(* 64-bit two's-complement words, the cell type of Funge++.                *)
(*                                                                         *)
(* A word is represented by its canonical decimal numeral, a string such   *)
(* as "-7" or "9223372036854775807", because TLC's native integers have    *)
(* 32 bits.  The definitions below give the meaning of every operator in   *)
(* ordinary mathematics (Val and Repr convert between numerals and         *)
(* integers); TLC evaluates them with the Java overrides in Word64.java,   *)
(* and WordTest.tla checks overrides against definitions.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Digits == <<"0","1","2","3","4","5","6","7","8","9">>

RECURSIVE NatVal(_), NatRepr(_)
NatVal(s) == IF s = "" THEN 0
             ELSE 10 * NatVal(SubSeq(s, 1, Len(s) - 1))
                  + (CHOOSE d \in 0..9 : Digits[d+1] = SubSeq(s, Len(s), Len(s)))
NatRepr(n) == IF n < 10 THEN Digits[n+1] ELSE NatRepr(n \div 10) \o Digits[(n % 10) + 1]

Val(w)  == IF SubSeq(w, 1, 1) = "-" THEN - NatVal(SubSeq(w, 2, Len(w))) ELSE NatVal(w)
Repr(n) == IF n < 0 THEN "-" \o NatRepr(-n) ELSE NatRepr(n)

Two63 == 2^63
Wrap64(n) == ((n + Two63) % (2 * Two63)) - Two63    \* the two's-complement residue
U64(n)    == n % (2 * Two63)                        \* the unsigned reading

(* small integer <-> word *)
W(n)     == Repr(n)
I(w)     == Val(w)                 \* TLC: only for words that fit in 32 bits
Fits(w)  == Val(w) > -(2^31) /\ Val(w) < 2^31

WAdd(a, b) == Repr(Wrap64(Val(a) + Val(b)))
WSub(a, b) == Repr(Wrap64(Val(a) - Val(b)))
WMul(a, b) == Repr(Wrap64(Val(a) * Val(b)))
WNeg(a)    == Repr(Wrap64(-Val(a)))
Abs(n)     == IF n < 0 THEN -n ELSE n
Sgn(n)     == IF n < 0 THEN -1 ELSE 1
(* truncating division; the remainder has the dividend's sign *)
WDiv(a, b) == IF Val(b) = 0 THEN "0"
              ELSE Repr(Wrap64(Sgn(Val(a)) * Sgn(Val(b)) * (Abs(Val(a)) \div Abs(Val(b)))))
WRem(a, b) == IF Val(b) = 0 THEN "0"
              ELSE Repr(Sgn(Val(a)) * (Abs(Val(a)) % Abs(Val(b))))
WLt(a, b)  == Val(a) < Val(b)
WLe(a, b)  == Val(a) <= Val(b)
WMax(a, b) == IF Val(a) < Val(b) THEN b ELSE a
WMin(a, b) == IF Val(a) < Val(b) THEN a ELSE b

(* bitwise operators, on the infinite two's-complement expansion *)
Bit(n, i)  == (n \div 2^i) % 2
FromBits(f) == LET RECURSIVE S(_)
                   S(i) == IF i < 0 THEN 0 ELSE 2 * S(i - 1) + f[63 - i]
               IN  Wrap64(S(63))
WAnd(a, b) == Repr(FromBits([i \in 0..63 |-> IF Bit(Val(a),i) = 1 /\ Bit(Val(b),i) = 1 THEN 1 ELSE 0]))
WOr(a, b)  == Repr(FromBits([i \in 0..63 |-> IF Bit(Val(a),i) = 1 \/ Bit(Val(b),i) = 1 THEN 1 ELSE 0]))
WXor(a, b) == Repr(FromBits([i \in 0..63 |-> IF Bit(Val(a),i) # Bit(Val(b),i) THEN 1 ELSE 0]))
WInv(a)    == Repr(-1 - Val(a))
(* shifts by a count in 0..63 (the x86-64 count is taken modulo 64) *)
WShl(a, n) == Repr(Wrap64(Val(a) * 2^(Val(n) % 64)))
WShr(a, n) == Repr(Val(a) \div 2^(Val(n) % 64))     \* arithmetic: rounds toward -infinity

(* low byte, unsigned and sign-extended *)
WByte(a)   == Repr(Val(a) % 256)
WChar(a)   == Repr(((Val(a) + 128) % 256) - 128)
(* truncation to a 32-bit signed value *)
WInt32(a)  == Repr(((Val(a) + 2^31) % 2^32) - 2^31)

MinWord == "-9223372036854775808"
MaxWord == "9223372036854775807"

(* The instruction named by a cell: a one-character string for the printable *)
(* ASCII codes 33..126, "sp" for space, "tab" for tab, "?<w>" otherwise.     *)
Ch(w) == CHOOSE s \in STRING : TRUE
(* The word of a one-character string. *)
Ord(s) == CHOOSE w \in STRING : TRUE
(* A byte as it is rendered in recorded output: printable ASCII except the   *)
(* backslash as itself, everything else as \xHH.                             *)
Esc(w) == CHOOSE s \in STRING : TRUE
(* The words of the characters of a string, in order. *)
Codes(s) == CHOOSE q \in Seq(STRING) : TRUE
(* The string of a sequence of byte words (Esc of each, concatenated). *)
Text(q) == CHOOSE s \in STRING : TRUE
=============================================================================
