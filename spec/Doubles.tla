------------------------------ MODULE Doubles ------------------------------
(* IEEE-754 double arithmetic for trace validation.  A double is a TLA+    *)
(* string in decimal ("1e-8", "-0.5", "Infinity", "NaN"); the operators    *)
(* are evaluated by the Java module override Doubles.java (TLC only).      *)
(* The definitions below only fix the arity; TLC never evaluates them.     *)
EXTENDS Integers, Sequences
DAdd(a, b) == CHOOSE x \in STRING : TRUE
DSub(a, b) == CHOOSE x \in STRING : TRUE
DMul(a, b) == CHOOSE x \in STRING : TRUE
DDiv(a, b) == CHOOSE x \in STRING : TRUE
DPow(a, b) == CHOOSE x \in STRING : TRUE
DMax(a, b) == CHOOSE x \in STRING : TRUE
DMin(a, b) == CHOOSE x \in STRING : TRUE
DAbs(a) == CHOOSE x \in STRING : TRUE
DNeg(a) == CHOOSE x \in STRING : TRUE
DSqrt(a) == CHOOSE x \in STRING : TRUE
DLog(a) == CHOOSE x \in STRING : TRUE
DLt(a, b) == FALSE
DLe(a, b) == FALSE
DEq(a, b) == FALSE          \* numerically equal (0.0 = -0.0; NaN = NaN)
DFinite(a) == FALSE
DOfInt(i) == CHOOSE x \in STRING : TRUE
DNear(a, b, rel, abs) == FALSE   \* |a-b| <= abs + rel*max(|a|,|b|), or both equal/NaN
DSumSeq(s) == CHOOSE x \in STRING : TRUE
DDot(s, t) == CHOOSE x \in STRING : TRUE
DAmaxSeq(s) == CHOOSE x \in STRING : TRUE
=============================================================================
