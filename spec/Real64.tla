------------------------------- MODULE Real64 -------------------------------
(* IEEE-754 binary64 numbers.  TLC has 32-bit integers only; calibration,     *)
(* georeferencing and illumination are about real numbers, so they are given  *)
(* here as operators on numbers written as strings (or as TLA+ integers),     *)
(* evaluated by spec/java/tlc2/module/Real64.java.  The bodies below are      *)
(* stand-ins that only fix the arity.                                         *)
EXTENDS Naturals, Integers

R(a) == a
RAdd(a, b) == a
RSub(a, b) == a
RMul(a, b) == a
RDiv(a, b) == a
RPow(a, b) == a
RSqrt(a) == a
RAbs(a) == a
RNeg(a) == a
RSin(a) == a
RCos(a) == a
RTan(a) == a
RAsin(a) == a
RAcos(a) == a
RAtan(a) == a
RAtan2(a, b) == a
RExp(a) == a
RLog(a) == a
RFloat(a) == a          \* rounded to binary32
RLt(a, b) == a # b
RLe(a, b) == a = b
REq(a, b) == a = b
RIsNaN(a) == FALSE
RIsFinite(a) == TRUE
RIsInt(a) == TRUE
RInt(a) == 0            \* nearest integer, ties to even, as a TLA+ integer
RFloor(a) == a
RRound(a) == a          \* nearest integer, ties away from zero
RClose(a, b, rel, abs) == a = b
RBits(a, b, c, e) == a  \* from the four 16-bit groups of binary64
RBits32(a, b) == a      \* from the two 16-bit groups of binary32

RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
Pi == R("3.141592653589793")
Rad(x) == RDiv(RMul(x, Pi), 180)
Deg(x) == RDiv(RMul(x, 180), Pi)

(* the stand-in bodies were replaced: evaluated by every trace specification *)
ASSUME RAdd(R("0.5"), 1) = R("1.5") /\ RLt(1, R("1.25"))
=============================================================================
