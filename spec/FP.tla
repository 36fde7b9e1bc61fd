---------------------------------- MODULE FP ----------------------------------
(* IEEE-754 arithmetic for the specification.                                 *)
(*                                                                            *)
(* A number is a pair <<hi, lo>> of 32-bit integers: the bits of a double.    *)
(* TLC evaluates these operators with the Java class FP (FP.java, next to     *)
(* this file); the TLA+ bodies below only declare names and arities.          *)
(*                                                                            *)
(* The specification fixes WHAT is computed, not how it is rounded: every     *)
(* rounded operator takes a rounding mode m as its first argument:            *)
(*   0     "F" operators round to single, "D" operators to double precision,  *)
(*         to nearest;                                                        *)
(*   1     everything is computed in double precision;                        *)
(*   2..   each inexact operation is rounded up or down, pseudo-randomly but  *)
(*         as a pure function of operation, operands and m; in the odd ones   *)
(*         from 5 on, to either neighbour of the nearest number.              *)
(* A trace specification runs the same specification in several modes: where  *)
(* they agree the result is determined by the mathematics, where they spread  *)
(* (ill-conditioned values, ties that rounding decides) the specification     *)
(* allows a correspondingly wide set of outcomes.                             *)
EXTENDS Integers

FPAdd(m, a, b) == <<0, 0>>      \* single precision
FPSub(m, a, b) == <<0, 0>>
FPMul(m, a, b) == <<0, 0>>
FPDiv(m, a, b) == <<0, 0>>
FPHypot(m, a, b) == <<0, 0>>
FPAcos(m, a) == <<0, 0>>
FPRnd(m, a) == <<0, 0>>         \* conversion from double to single precision
FPDAdd(m, a, b) == <<0, 0>>     \* double precision
FPDSub(m, a, b) == <<0, 0>>
FPDMul(m, a, b) == <<0, 0>>
FPDDiv(m, a, b) == <<0, 0>>
FPDSqrt(m, a) == <<0, 0>>
FPDHypot(m, a, b) == <<0, 0>>

NNeg(a) == <<0, 0>>              \* exact operations
NAbs(a) == <<0, 0>>
Ceil(a) == <<0, 0>>
Fmod(a, b) == <<0, 0>>
NMax(a, b) == <<0, 0>>           \* std::max / std::min (first argument if unordered)
NMin(a, b) == <<0, 0>>
Fmax(a, b) == <<0, 0>>          \* fmax / fmin (the other argument if one is NaN)
Fmin(a, b) == <<0, 0>>
Lt(a, b) == FALSE
Le(a, b) == FALSE
Eq(a, b) == FALSE               \* numeric equality (0 = -0, NaN # NaN)
Same(a, b) == FALSE             \* equality of bits, all NaNs being the same and 0 = -0
IsNaN(a) == FALSE
IsFin(a) == FALSE
OfInt(n) == <<0, 0>>
ToInt(a) == 0                   \* truncation, clipped to the 32-bit range, 0 for NaN
OfRat(p, q) == <<0, 0>>         \* the double nearest p / q
AsF(a) == <<0, 0>>              \* the nearest single (whatever the mode)
KPi == <<0, 0>>
TwoPi == <<0, 0>>
(* Scale(a, k) = a * 2^k, exactly (up to overflow) *)
Scale(a, k) == <<0, 0>>

(* Spread of a tuple of numbers around its first: the largest |x_k - x_1|;    *)
(* infinite if they disagree on finiteness, 0 if all are the same.            *)
Spread(xs) == <<0, 0>>
(* The same on the circle of circumference 2*pi.                              *)
SpreadA(xs) == <<0, 0>>
(* |a - b| <= tol, where two values of the same bits are always close.        *)
Close(a, b, tol) == FALSE
CloseA(a, b, tol) == FALSE
(* Decimal rendering, for messages only.                                      *)
Show(a) == ""
===============================================================================
