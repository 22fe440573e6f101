-------------------------------- MODULE Fixed --------------------------------
(* Fixed point numbers in units of 2^-20, within the 32 bits that TLC has.    *)
(* Products are right to a few units when both factors are below 1000.        *)
EXTENDS Integers
Unit == 1048576
FHi(x) == x \div 1024
FLo(x) == x % 1024
FMul(x, y) == FHi(x) * FHi(y) + ((FHi(x) * FLo(y) + FLo(x) * FHi(y) + 512) \div 1024)
NaNF == 2147000001
\* what is not a number of this range
Wild(x) == x >= 2147000000 \/ x <= -2147000000
FAbs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == ~Wild(x) /\ ~Wild(y) /\ FAbs(x - y) <= tol
=============================================================================
