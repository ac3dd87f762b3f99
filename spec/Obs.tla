--------------------------------- MODULE Obs ---------------------------------
(***************************************************************************)
(* Reading recorded observations.  The harness records every number of the *)
(* implementation exactly, as the four integers <<s, hi, lo, e>> meaning   *)
(* s * (hi * 2^27 + lo) * 2^e  (s = 9: NaN, s = 8 / -8: infinite), and     *)
(* every array as [sh |-> shape, c |-> 1 if complex, d |-> flat numbers in *)
(* row-major order].  Complex numbers have eight integers.                 *)
(***************************************************************************)
EXTENDS Cplx

RealNum(x) == FDyadic(x[1], x[2], x[3], x[4])
IsFiniteNum(x) == x[1] \in {-1, 0, 1} /\ (Len(x) = 8 => x[5] \in {-1, 0, 1})
Num(x) == IF Len(x) = 4 THEN CR(RealNum(x))
          ELSE << RealNum(x), FDyadic(x[5], x[6], x[7], x[8]) >>

Prod(s) == FoldLeft(LAMBDA a, x: a * x, 1, s)
Size(a) == Len(a.d)
\* row-major position (1-based) of a 1-based index tuple
Flat(sh, ix) == 1 + FoldLeft(LAMBDA a, i: a * sh[i] + ix[i] - 1, 0, Idx(Len(sh)))
Raw(a, ix) == a.d[Flat(a.sh, ix)]
At(a, ix)  == Num(Raw(a, ix))
AllFinite(a) == \A i \in 1..Len(a.d) : IsFiniteNum(a.d[i])
Squeeze(sh) == SelectSeq(sh, LAMBDA d: d # 1)
WellFormed(a) == Len(a.d) = Prod(a.sh)
\* the same array with its dimensions of size 1 restored
Unsqueezed(a, sh) == [a EXCEPT !.sh = sh]

(* decimal exponent of a positive number, for reports: 10^k <= x < 10^(k+1), clipped to -200..200 *)
RECURSIVE Log10From(_, _)
Log10From(x, k) == IF FCmp(x, FInt(1)) < 0 THEN (IF k <= -170 THEN k ELSE Log10From(FMulI(x, 10), k - 1))
                   ELSE IF FCmp(x, FInt(10)) >= 0 THEN (IF k >= 200 THEN k ELSE Log10From(FDivI(x, 10), k + 1))
                   ELSE k
Log10(x) == IF x[1] = 0 THEN -999 ELSE Log10From(FAbs(x), 0)

(* |a - b| <= rel * |b| + abs *)
FLeq(x, y) == FCmp(x, y) <= 0
Near(a, b, rel, abs) == FLeq(CAbs(CSub(a, b)), FAdd(FMul(rel, CAbs(b)), abs))
NearF(a, b, rel, abs) == FLeq(FAbs(FSub(a, b)), FAdd(FMul(rel, FAbs(b)), abs))

\* one failed clause, for the report
Fail(name, at, lg) == << [clause |-> name, at |-> at, lg |-> lg] >>
Concat(s) == FoldLeft(LAMBDA a, x: a \o x, <<>>, s)
=============================================================================
