------------------------------ MODULE Material ------------------------------
(***************************************************************************)
(* Materials: what a definition says the permittivity is.                  *)
(*   [kind "const", eps]                                                   *)
(*   [kind "index", n]               a number given as material: n^2        *)
(*   [kind "table", wl, n, k]        wavelengths (nm, increasing), index    *)
(*   [kind "sell", coef]             refractiveindex.info formula 1, um     *)
(***************************************************************************)
EXTENDS Layout
RowEps(d, i) == LET z == << RealNum(d.n.d[i]), RealNum(d.k.d[i]) >> IN CMul(z, z)
RowWl(d, i)  == RealNum(d.wl.d[i])
\* index of the last row with wavelength <= x, between rows lo and hi
RECURSIVE RowOf(_, _, _, _)
RowOf(d, x, lo, hi) == IF hi - lo <= 1 THEN lo
                       ELSE LET m == (lo + hi) \div 2 IN IF FCmp(RowWl(d, m), x) <= 0 THEN RowOf(d, x, m, hi) ELSE RowOf(d, x, lo, m)
TableEps(d, x) ==
  LET n == Len(d.wl.d)
  IN  IF FCmp(x, RowWl(d, 1)) <= 0 THEN RowEps(d, 1)
      ELSE IF FCmp(x, RowWl(d, n)) >= 0 THEN RowEps(d, n)
      ELSE LET i == RowOf(d, x, 1, n)
               t == FDiv(FSub(x, RowWl(d, i)), FSub(RowWl(d, i + 1), RowWl(d, i)))
               a == RowEps(d, i)  b == RowEps(d, i + 1)
           IN  CAdd(a, CScale(t, CSub(b, a)))
SellEps(d, x) ==
  LET c(i) == RealNum(d.coef.d[i])
      w == FDivI(x, 1000)  w2 == FMul(w, w)
  IN  CR(FAdd(FAdd(FInt(1), c(1)),
         FSum(Map(Len(d.coef.d) \div 2, LAMBDA j: FDiv(FMul(c(2*j), w2), FSub(w2, FMul(c(2*j + 1), c(2*j + 1))))))))
EpsAt(d, x) == CASE d.kind = "const" -> Num(d.eps)
                 [] d.kind = "index" -> CMul(Num(d.n), Num(d.n))
                 [] d.kind = "table" -> TableEps(d, x)
                 [] d.kind = "sell" -> SellEps(d, x)
\* materials compute in single precision: wavelengths are known to 1e-7
EpsTol(d, x, e) ==
  LET at(u) == CAbs(CSub(EpsAt(d, FMul(x, FAdd(FInt(1), u))), e))
  IN  FAdd(FMul(FMulI(FTen(-6), 2), FAdd(CAbs(e), FInt(1))), IF d.kind \in {"const", "index"} THEN FZero ELSE FAdd(at(FTen(-6)), at(FNeg(FTen(-6)))))
=============================================================================
