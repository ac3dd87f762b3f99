-------------------------------- MODULE JTrunc --------------------------------
(***************************************************************************)
(* The automatic truncation order: Wiscombe (1980) for the torch and scipy *)
(* solvers, Pena/Pal (2009) for the layer recursion; of the largest sphere *)
(* and wavenumber of the call.  A value within 1e-9 of a rounding or range *)
(* boundary may be rounded either way.                                     *)
(***************************************************************************)
EXTENDS JScatter
CubeRoot(x) == IF x[1] = 0 THEN x ELSE
  FoldLeft(LAMBDA t, i: FDivI(FAdd(FMulI(t, 2), FDiv(x, FMul(t, t))), 3), FAdd(x, FInt(1)), Idx(70))
Nearly == FTen(-9)
Half == FDivI(FInt(1), 2)
RoundSet(v) == { FFloor(FSub(FAdd(v, Half), Nearly)), FFloor(FAdd(FAdd(v, Half), Nearly)) }
StopSet(x) ==
  LET t == CubeRoot(x)
      v(c, a) == RoundSet(FAdd(FAdd(FInt(c), x), FDivI(FMulI(t, a), 100)))
  IN  (IF FLeq(x, FAdd(FInt(8), Nearly)) THEN v(1, 400) ELSE {})
      \cup (IF FLeq(FSub(FInt(8), Nearly), x) /\ FLeq(x, FAdd(FInt(4200), Nearly)) THEN v(2, 405) ELSE {})
      \cup (IF FLeq(FSub(FInt(4200), Nearly), x) THEN v(2, 400) ELSE {})
MaxOf(s) == FoldLeft(LAMBDA m, x: FMax(m, x), FZero, s)
Outer(R) == MaxOf(Concat(Map(Len(R.r), LAMBDA p: Map(R.nk, LAMBDA w: FMul(CAbs(CSqrt(R.env[w])), FMul(R.k[w], R.r[p][R.L]))))))
\* |k n_l r_l|; the outer radius of the layer below is smaller
Inner(R) == MaxOf(Concat(Map(Len(R.r), LAMBDA p: Concat(Map(R.nk, LAMBDA w: Map(R.L, LAMBDA l:
              FMul(CAbs(CSqrt(R.eps[p][l][w])), FMul(R.k[w], R.r[p][l]))))))))
PenaSet(R) == UNION { RoundSet(FAdd(FMax(FInt(s), Inner(R)), FInt(15))) : s \in StopSet(Outer(R)) }
TruncClauses(c, q) ==          \* q.n: order used by (or recommended for) call c; q.rule
  LET R == Resolve(c)
  IN  IF ~R.ok THEN <<>>
      ELSE LET S == IF q.rule = "pena" THEN PenaSet(R) ELSE StopSet(Outer(R))
           IN  IF q.n \in S THEN <<>> ELSE << [clause |-> "truncation order", at |-> q.n, expected |-> S] >>
(* everything recorded in call c is finite and not empty *)
FiniteClauses(c) ==
  IF c.obs.ok = 0 THEN Fail("refused", 0, 0)
  ELSE Concat(Map(Len(c.obs.names), LAMBDA i:
         LET nm == c.obs.names[i]
         IN  IF nm \notin DOMAIN c.obs.v THEN Fail("missing " \o nm, 0, 0)
             ELSE LET a == c.obs.v[nm] IN IF ~WellFormed(a) \/ a.d = <<>> THEN Fail("empty " \o nm, 0, 0)
                                          ELSE IF ~AllFinite(a) THEN Fail("not finite: " \o nm, 0, 0) ELSE <<>>))
=============================================================================
