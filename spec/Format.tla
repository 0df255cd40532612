------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* Text conversions of the C and C++ libraries that the interpreter uses   *)
(* as they are: the decimal and other renderings of numbers, printf's      *)
(* conversions and the numerals strtoll and strtod accept.  They are       *)
(* uninterpreted here (their meaning is the ISO C standard's); TLC         *)
(* evaluates them with Format.java.                                        *)
(***************************************************************************)
EXTENDS Word64

(* no answer, where a sequence of words or of points is expected *)
NoSeq == <<"?">>
NoPoints == <<<<"?">>>>
UndefF == CHOOSE s \in STRING : TRUE
(* the bytes of an escaped string (the inverse of Text) *)
Bytes(s) == UndefF
(* the digits of |w| (as an unsigned number) in base b > 1, most significant first, as words *)
UDigits(w, b) == UndefF
(* what snprintf makes of format q (bytes) with one argument x of kind "int", "double", "float" *)
(* or "string" (then a byte sequence), as bytes; NoSeq where this description is silent *)
Printf(q, kind, x) == UndefF
(* strtoll of a byte sequence: a word, or "bad" if there is no numeral or it is out of range *)
ParseLL(q) == UndefF
(* strtod: a double's bits, "bad", or "?" where this description is silent *)
ParseD(q) == UndefF
(* the position of byte sequence p in q from 0, or -1 *)
FindSeq(q, p) == UndefF
(* lexicographic comparison of byte sequences: -1, 0, 1 *)
CmpSeq(q, p) == UndefF
(* all integer points of a box, in the order the first component varies fastest; a and b inclusive corners; *)
(* NoPoints if there are more than max *)
BoxPoints(a, b, max) == UndefF
(* bits of a mode word *)
HasBit(n, k) == (n \div 2^k) % 2 = 1
=============================================================================
