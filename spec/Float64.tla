------------------------------- MODULE Float64 ------------------------------
(***************************************************************************)
(* IEEE-754 binary64 (and binary32) arithmetic on bit patterns held in     *)
(* 64-bit words, as used by ><> and by FPDP/FPSP.  The operators are       *)
(* uninterpreted here: their meaning is the IEEE-754 standard's, and TLC   *)
(* evaluates them with java.lang.Double, which implements it.              *)
(***************************************************************************)
EXTENDS Word64

Undef == CHOOSE s \in STRING : TRUE
DOfW(a)     == Undef     \* the double nearest to the integer value of a word
DToW(a)     == Undef     \* truncation of a double to a word (C conversion)
DRoundW(a)  == Undef     \* round half away from zero, then to a word
DAdd(a, b)  == Undef
DSub(a, b)  == Undef
DMul(a, b)  == Undef
DDiv(a, b)  == Undef
DPow(a, b)  == Undef
DSqrt(a)    == Undef
DNegate(a)  == Undef
DAbs(a)     == Undef
DEq(a, b)   == a = b
DLt(a, b)   == a = b
DIsZero(a)  == a = "0"
DIsInt(a)   == a = "0"   \* value equals its truncation to a word
DShow6(a)   == Undef     \* C++ default ostream rendering (%g, 6 digits)
DShowF6(a)  == Undef     \* fixed, 6 decimals
DNum(n, d)  == Undef     \* the double nearest n/d for small integers n, d
DFun(f, a)  == Undef     \* correctly-spelled libm functions: "sin","cos",...
FOfW(a)     == Undef     \* binary32 versions: bit pattern in the low 32 bits
FToW(a)     == Undef
FAdd(a, b)  == Undef
FSub(a, b)  == Undef
FMul(a, b)  == Undef
FDiv(a, b)  == Undef
FSqrt(a)    == Undef
FNegate(a)  == Undef
FAbs(a)     == Undef
FShowF6(a)  == Undef
DNear(a, b, n) == a = b  \* both NaN, or at most n representable doubles apart
FNear(a, b, n) == a = b  \* the same for binary32
FOfD(a)     == Undef     \* rounding to binary32
DOfF(a)     == Undef
(* FIXP: degrees and ratios scaled by 10000, the result rounded to a word; *)
(* k = -1, 0, 1 perturbs the exact value by less than 1e-6 of a unit       *)
FxFun(f, a, k) == Undef
PowW(a, b)  == Undef     \* pow() of two words, truncated to a word; "?" if the rounding is unclear
SqrtW(a)    == Undef     \* sqrt() of a word, truncated
PiW(a)      == Undef     \* a times pi, truncated
HypotW(a, b) == Undef    \* rounded length of (a, b); "?" if large
(* real and imaginary part of (a+bi)/(c+di), rounded half away from zero: <<re, re2, im, im2>> where *)
(* re2 differs from re if the quotient lies half-way; "?" if large *)
CDivW(a, b, c, d) == Undef
=============================================================================
