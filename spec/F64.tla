-------------------------------- MODULE F64 --------------------------------
(* IEEE-754 binary64 arithmetic as a primitive data type.

   A double is the pair <<hi, lo>> of the two 32-bit halves of its bit pattern
   (as signed TLC integers), so two doubles are bit-for-bit equal exactly when
   the TLA+ values are equal.  The operators below are primitives: TLC takes
   their meaning from spec/java/F64.java (the same mechanism by which TLC
   realises Naturals and Integers), every one of them is a single correctly
   rounded IEEE operation or comparison of the JVM.  Everything else in the
   specification is ordinary TLA+ on top of them. *)
EXTENDS Integers

LOCAL Prim == CHOOSE x \in {} : TRUE

FAdd(a, b)  == Prim            \* a + b
FSub(a, b)  == Prim            \* a - b
FMul(a, b)  == Prim            \* a * b
FDiv(a, b)  == Prim            \* a / b
FNeg(a)     == Prim            \* -a
FAbs(a)     == Prim            \* |a|
FSqrt(a)    == Prim            \* square root
FExp(a)     == Prim            \* e^a
FLog(a)     == Prim            \* ln a
FLt(a, b)   == Prim            \* a < b   (false if unordered)
FLe(a, b)   == Prim            \* a <= b  (false if unordered)
FEq(a, b)   == Prim            \* a = b   (IEEE: -0 = 0, NaN # NaN)
FIsNaN(a)   == Prim
FIsFinite(a) == Prim
FInt(n)     == Prim            \* exact conversion of a TLA+ integer
FDec(str)   == Prim            \* nearest double of a decimal literal given as a string
FShow(a)    == Prim            \* shortest decimal string (diagnostics only)
FRound(a)   == Prim            \* nearest integer (ties up) as a TLA+ integer; a must be small
=============================================================================
