------------------------------- MODULE BigNat -------------------------------
(* TLC computes with 32 bit integers.  Products of two naturals below 2*10^8 *)
(* as pairs <<high, low>> in base 10^8, compared exactly.                    *)
EXTENDS Integers
LOCAL K == 10000
LOCAL B == 100000000
Mul(a, b) ==
  LET a1 == a \div K a0 == a % K b1 == b \div K b0 == b % K
      mid == (a1 * b0) + (a0 * b1)
      low == ((mid % K) * K) + (a0 * b0)
  IN <<(a1 * b1) + (mid \div K) + (low \div B), low % B>>
BAdd(x, y) == <<(x[1] + y[1]) + ((x[2] + y[2]) \div B), (x[2] + y[2]) % B>>
BLeq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
BLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
=============================================================================
