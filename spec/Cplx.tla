-------------------------------- MODULE Cplx --------------------------------
(***************************************************************************)
(* Complex arithmetic on BigFix numbers, a pair <<re, im>>, and the few    *)
(* elementary functions Mie theory needs.  Cplx.java overrides the hot     *)
(* operators with the same values up to rounding of the last fractional    *)
(* bits (CplxAgree in AgreeBigFix.tla).                                    *)
(***************************************************************************)
EXTENDS BigFix, SequencesExt

CR(x)  == <<x, FZero>>                     \* real -> complex
CI(x)  == <<FZero, x>>                     \* i * real
CZero  == <<FZero, FZero>>
COne   == <<FInt(1), FZero>>
CIUnit == <<FZero, FInt(1)>>
Re(a)  == a[1]
Im(a)  == a[2]

CAdd(a, b)  == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
CSub(a, b)  == <<FSub(a[1], b[1]), FSub(a[2], b[2])>>
CNeg(a)     == <<FNeg(a[1]), FNeg(a[2])>>
CConj(a)    == <<a[1], FNeg(a[2])>>
CMul(a, b)  == <<FSub(FMul(a[1], b[1]), FMul(a[2], b[2])),
                 FAdd(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
CScale(x, a)  == <<FMul(x, a[1]), FMul(x, a[2])>>        \* real * complex
CMulI(a, i)   == <<FMulI(a[1], i), FMulI(a[2], i)>>      \* TLC integer * complex
CDivI(a, i)   == <<FDivI(a[1], i), FDivI(a[2], i)>>
CAbs2(a)      == FAdd(FMul(a[1], a[1]), FMul(a[2], a[2]))
CAbs(a)       == FSqrt(CAbs2(a))
CDiv(a, b)    == LET d == CAbs2(b)
                     p == CMul(a, CConj(b))
                 IN  <<FDiv(p[1], d), FDiv(p[2], d)>>
CInv(a)       == CDiv(COne, a)
CIsZero(a)    == a[1][1] = 0 /\ a[2][1] = 0
(* i * a, and i^n *)
CTimesI(a)    == <<FNeg(a[2]), a[1]>>
CIPow(n)      == CASE n % 4 = 0 -> COne [] n % 4 = 1 -> CIUnit
                   [] n % 4 = 2 -> CNeg(COne) [] OTHER -> CNeg(CIUnit)

Idx(n) == [i \in 1..n |-> i]               \* <<1, ..., n>>, to fold over
(* <<F(1), ..., F(n)>>, built eagerly (TLC keeps [i \in 1..n |-> F(i)] as an
   unevaluated function and recomputes F(i) at every application) *)
Map(n, F(_)) == FoldLeft(LAMBDA acc, i: Append(acc, F(i)), <<>>, Idx(n))
CSum(s) == FoldLeft(LAMBDA a, x: CAdd(a, x), CZero, s)
FSum(s) == FoldLeft(LAMBDA a, x: FAdd(a, x), FZero, s)

(* principal square root: Re >= 0, and Im of the sign of Im(a) (branch cut on
   the negative real axis, sqrt(-x + 0i) = +i sqrt(x)) *)
CSqrt(a) ==
  IF CIsZero(a) THEN CZero
  ELSE LET r == CAbs(a)
       IN  IF a[1][1] >= 0
           THEN LET u == FSqrt(FDivI(FAdd(r, a[1]), 2))
                IN  <<u, FDiv(FDivI(a[2], 2), u)>>
           ELSE LET w == FSqrt(FDivI(FSub(r, a[1]), 2))
                IN  IF a[2][1] < 0 THEN <<FDiv(FDivI(FNeg(a[2]), 2), w), FNeg(w)>>
                    ELSE <<FDiv(FDivI(a[2], 2), w), w>>

(* exp: Taylor on z / 2^k followed by k squarings *)
ExpTerms == 100
RECURSIVE HalvingsFor(_)
HalvingsFor(r) == IF FCmp(r, FDivI(FInt(1), 256)) < 0 THEN 0 ELSE 1 + HalvingsFor(FDivI(r, 2))
CExp(z) ==
  LET k == HalvingsFor(FAdd(FAbs(z[1]), FAbs(z[2])))
      w == FoldLeft(LAMBDA a, i: CDivI(a, 2), z, Idx(k))
      t == FoldLeft(LAMBDA acc, i:
                      LET term == CDivI(CMul(acc[2], w), i)
                      IN  <<CAdd(acc[1], term), term>>,
                    <<COne, COne>>, Idx(ExpTerms))[1]
  IN  FoldLeft(LAMBDA a, i: CMul(a, a), t, Idx(k))
(* cos z and sin z for complex z *)
CCosSin(z) ==
  LET p == CExp(CTimesI(z))            \* e^{iz}
      m == CInv(p)                     \* e^{-iz}
  IN  << CDivI(CAdd(p, m), 2), CDivI(CNeg(CTimesI(CSub(p, m))), 2) >>

(* pi by Machin's formula *)
AtanInv(q) ==                          \* arctan(1/q)
  FoldLeft(LAMBDA acc, i:
             LET pw == FDivI(FDivI(acc[2], q), -q)
             IN  <<FAdd(acc[1], FDivI(pw, 2*i + 1)), pw>>,
           LET a == FDivI(FInt(1), q) IN <<a, a>>, Idx(290))[1]
FPi == FSub(FMulI(AtanInv(5), 16), FMulI(AtanInv(239), 4))

FPow(x, n) == FoldLeft(LAMBDA a, i: FMul(a, x), FInt(1), Idx(n))
CPow(x, n) == FoldLeft(LAMBDA a, i: CMul(a, x), COne, Idx(n))
FMax(x, y) == IF FCmp(x, y) >= 0 THEN x ELSE y
FMin(x, y) == IF FCmp(x, y) <= 0 THEN x ELSE y
FTen(e)    == IF e >= 0 THEN FPow(FInt(10), e) ELSE FDiv(FInt(1), FPow(FInt(10), -e))
=============================================================================
