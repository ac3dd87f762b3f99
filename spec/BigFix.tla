------------------------------- MODULE BigFix -------------------------------
(***************************************************************************)
(* Arbitrary-size fixed-point numbers.                                     *)
(*                                                                         *)
(* TLC integers are 32 bit, so a number is a little-endian sequence of     *)
(* base-2^15 limbs headed by its sign:                                     *)
(*                                                                         *)
(*     <<0>>                       zero                                    *)
(*     <<s, d1, ..., dk>>          s * sum_i d_i * B^(i-1) * B^(-K)        *)
(*                                 with s in {-1,1}, 0 <= d_i < B, d_k > 0 *)
(*                                                                         *)
(* i.e. a signed magnitude with K = 80 fractional limbs (1200 bits, 361     *)
(* decimal digits).  Everything below is executable TLA+; BigFix.java       *)
(* overrides the same operators with java.math.BigInteger for speed, and   *)
(* BigFixAgree.tla (run by setup) checks on a grid of operands that the    *)
(* override and this text (instantiated as BigFixPure) agree.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 32768
K == 80

FZero == <<0>>
FSign(a) == a[1]
Mag(a) == SubSeq(a, 2, Len(a))

-----------------------------------------------------------------------------
(* Magnitudes: little-endian limb sequences without leading (last) zeros.  *)

RECURSIVE Trim(_)
Trim(m) == IF m = <<>> THEN m
           ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Limb(m, i) == IF i \in 1..Len(m) THEN m[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE CmpFrom(_, _, _)
CmpFrom(m, n, i) == IF i = 0 THEN 0
                    ELSE IF m[i] # n[i] THEN (IF m[i] > n[i] THEN 1 ELSE -1)
                    ELSE CmpFrom(m, n, i - 1)
MCmp(m, n) == IF Len(m) # Len(n) THEN (IF Len(m) > Len(n) THEN 1 ELSE -1)
              ELSE CmpFrom(m, n, Len(m))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(m, n, i, c) ==
  IF i > Max2(Len(m), Len(n)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Limb(m, i) + Limb(n, i) + c
       IN  <<s % B>> \o AddFrom(m, n, i + 1, s \div B)
MAdd(m, n) == AddFrom(m, n, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(m, n, i, c) ==            \* requires m >= n
  IF i > Len(m) THEN <<>>
  ELSE LET s == Limb(m, i) - Limb(n, i) - c
       IN  <<(s + B) % B>> \o SubFrom(m, n, i + 1, IF s < 0 THEN 1 ELSE 0)
MSub(m, n) == Trim(SubFrom(m, n, 1, 0))

RECURSIVE MulDigit(_, _, _, _)
MulDigit(m, d, i, c) ==
  IF i > Len(m) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET p == m[i] * d + c IN <<p % B>> \o MulDigit(m, d, i + 1, p \div B)
MMulDigit(m, d) == IF d = 0 THEN <<>> ELSE MulDigit(m, d, 1, 0)

RECURSIVE MMul(_, _)
MMul(m, n) == IF n = <<>> \/ m = <<>> THEN <<>>
              ELSE LET rest == MMul(m, Tail(n))
                   IN  MAdd(MMulDigit(m, Head(n)),
                            IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)

Zeros(k) == [i \in 1..k |-> 0]
MShl(m, k) == IF m = <<>> THEN m ELSE Zeros(k) \o m        \* * B^k
MShr(m, k) == IF Len(m) <= k THEN <<>> ELSE SubSeq(m, k + 1, Len(m))

(* largest d in lo..hi with n*d <= r (bisection) *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, n, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF MCmp(MMulDigit(n, mid), r) <= 0 THEN QDigit(r, n, mid, hi)
           ELSE QDigit(r, n, lo, mid - 1)
(* schoolbook long division, most significant limb first *)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(m, n, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET r1 == Trim(<<m[i]>> \o r)
           d  == QDigit(r1, n, 0, B - 1)
           r2 == MSub(r1, MMulDigit(n, d))
       IN  Append(DivFrom(m, n, i - 1, r2), d)
MDiv(m, n) == Trim(DivFrom(m, n, Len(m), <<>>))            \* floor(m / n)

(* floor of the square root by Newton's iteration from above *)
RECURSIVE SqrtIter(_, _)
SqrtIter(m, x) == LET y == MDiv(MAdd(x, MDiv(m, x)), <<2>>)
                  IN  IF MCmp(y, x) >= 0 THEN x ELSE SqrtIter(m, y)
MSqrt(m) == IF m = <<>> THEN m ELSE SqrtIter(m, MShl(<<1>>, (Len(m) + 2) \div 2))

RECURSIVE NatMag(_)
NatMag(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NatMag(n \div B)

RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
MShlBits(m, e) == MShl(MMulDigit(m, Pow2(e % 15)), e \div 15)
MShrBits(m, e) == MDiv(MShr(m, e \div 15), <<Pow2(e % 15)>>)

Signed(s, m) == IF m = <<>> THEN FZero ELSE <<s>> \o m

-----------------------------------------------------------------------------
(* The number operators (these are the ones BigFix.java overrides).        *)

FInt(i) == IF i = 0 THEN FZero
           ELSE Signed(IF i > 0 THEN 1 ELSE -1,
                       MShl(NatMag(IF i > 0 THEN i ELSE -i), K))
FNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Mag(a)
FAbs(a) == IF a[1] = 0 THEN a ELSE <<1>> \o Mag(a)
FAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Signed(a[1], MAdd(Mag(a), Mag(b)))
  ELSE LET c == MCmp(Mag(a), Mag(b))
       IN  IF c = 0 THEN FZero
           ELSE IF c > 0 THEN Signed(a[1], MSub(Mag(a), Mag(b)))
           ELSE Signed(b[1], MSub(Mag(b), Mag(a)))
FSub(a, b) == FAdd(a, FNeg(b))
(* products and quotients round toward zero *)
FMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN FZero
              ELSE Signed(a[1] * b[1], MShr(MMul(Mag(a), Mag(b)), K))
FDiv(a, b) == IF a[1] = 0 THEN FZero
              ELSE Signed(a[1] * b[1], MDiv(MShl(Mag(a), K), Mag(b)))
FMulI(a, i) == FMul(a, FInt(i))
FDivI(a, i) == FDiv(a, FInt(i))
FSqrt(a) == IF a[1] = 0 THEN a ELSE Signed(1, MSqrt(MShl(Mag(a), K)))   \* a >= 0
FCmp(a, b) == LET d == FSub(a, b) IN d[1]
(* s * (hi * 2^27 + lo) * 2^e : the exact value of an IEEE double *)
FDyadic(s, hi, lo, e) ==
  LET m == MAdd(MMul(NatMag(hi), NatMag(134217728)), NatMag(lo))
      t == e + 15 * K
  IN  IF s = 0 THEN FZero
      ELSE Signed(s, IF t >= 0 THEN MShlBits(m, t) ELSE MShrBits(m, -t))
=============================================================================
