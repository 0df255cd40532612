----------------------------- MODULE Word64Ref ------------------------------
(* The definitions of Word64.tla that TLC can evaluate on small numbers,    *)
(* under names that have no Java override.                                  *)
EXTENDS Integers, Sequences
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE NatVal(_), NatRepr(_)
NatVal(s) == IF s = "" THEN 0
             ELSE 10 * NatVal(SubSeq(s, 1, Len(s) - 1))
                  + (CHOOSE d \in 0..9 : Digits[d+1] = SubSeq(s, Len(s), Len(s)))
NatRepr(n) == IF n < 10 THEN Digits[n+1] ELSE NatRepr(n \div 10) \o Digits[(n % 10) + 1]
Val(w)  == IF SubSeq(w, 1, 1) = "-" THEN - NatVal(SubSeq(w, 2, Len(w))) ELSE NatVal(w)
Repr(n) == IF n < 0 THEN "-" \o NatRepr(-n) ELSE NatRepr(n)
Abs(n)     == IF n < 0 THEN -n ELSE n
Sgn(n)     == IF n < 0 THEN -1 ELSE 1
DivRef(a, b) == IF Val(b) = 0 THEN "0" ELSE Repr(Sgn(Val(a)) * Sgn(Val(b)) * (Abs(Val(a)) \div Abs(Val(b))))
RemRef(a, b) == IF Val(b) = 0 THEN "0" ELSE Repr(Sgn(Val(a)) * (Abs(Val(a)) % Abs(Val(b))))
Bit(n, i)  == (n \div 2^i) % 2
RECURSIVE Sum(_,_)
(* two's complement on 16 bits, enough for the small operands *)
Sum(f, i) == IF i < 0 THEN 0 ELSE Sum(f, i - 1) + (IF i = 15 THEN - f[i] ELSE f[i]) * 2^i
AndRef(a, b) == Repr(Sum([i \in 0..15 |-> IF Bit(Val(a),i) = 1 /\ Bit(Val(b),i) = 1 THEN 1 ELSE 0], 15))
OrRef(a, b)  == Repr(Sum([i \in 0..15 |-> IF Bit(Val(a),i) = 1 \/ Bit(Val(b),i) = 1 THEN 1 ELSE 0], 15))
XorRef(a, b) == Repr(Sum([i \in 0..15 |-> IF Bit(Val(a),i) # Bit(Val(b),i) THEN 1 ELSE 0], 15))
=============================================================================
