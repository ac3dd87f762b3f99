------------------------------- MODULE JEnergy -------------------------------
(***************************************************************************)
(* Conservation laws between the recorded outputs of one sphere (one       *)
(* particle and wavelength index): energy balance, passivity, the optical  *)
(* theorem, the angular integral and the symmetries of the amplitudes.     *)
(* No Mie solution enters, only the recorded numbers.                      *)
(*   rel.coef, rel.cs, rel.ang: positions of the three calls in the case   *)
(*   rel.m   number of Gauss nodes; the angles of rel.ang are              *)
(*           <<0, pi, node_1, ..., node_m>>                                *)
(*   rel.lossless = 1: no material absorbs;  rel.passive = 1: none gains   *)
(***************************************************************************)
EXTENDS JScatter

(* weight of the Gauss-Legendre node mu: 2 / ((1 - mu^2) P_m'(mu)^2), P_m' = pi_m.
   A node is a zero of P_m = ((1 - mu^2) stuff): tau_m and pi_m give
   m (m+1) P_m = 2 mu pi_m - (1 - mu^2) P_m'' and tau_m = mu pi_m - (1 - mu^2) P_m''
   hence P_m = (mu pi_m + tau_m) / (m (m+1)) *)
GaussWeight(mu, p) == FDiv(FInt(2), FMul(FSub(FInt(1), FMul(mu, mu)), FMul(p, p)))
LegendreP(m, mu, p, t) == FDivI(FAdd(FMul(mu, p), t), m * (m + 1))

EnergyOne(c, co, cs, an, R, p, w) ==
  LET N == NUsed(co)  Nc == NUsed(cs)
      s == Sphere(R, p, w)  kh == HostK(s)  k2 == FMul(kh, kh)
      v == cs.obs.v
      cell(nm) == RealNum(Raw(Arr(cs, nm, <<R.np, R.nk>>), <<p, w>>))
      mpole(nm, t, n) == RealNum(Raw(Arr(cs, nm, <<2, Nc, R.np, R.nk>>), <<t, n, p, w>>))
      coef(nm, n) == At(Arr(co, nm, <<N, R.np, R.nk>>), <<n, p, w>>)
      x(t, n) == IF t = 1 THEN coef("a_n", n) ELSE coef("b_n", n)
      geo == FMul(FPi, FMul(R.r[p][R.L], R.r[p][R.L]))
      \* size of the terms of the series
      big == FSum(Map(2*N, LAMBDA j: LET n == 1 + ((j-1) % N)  t == 1 + ((j-1) \div N) IN FMul(CsUnit(kh, n), CAbs(x(t, n)))))
      tight == FMul(FTen(-11), big)
      bigRe == FSum(Map(2*N, LAMBDA j: LET n == 1 + ((j-1) % N)  t == 1 + ((j-1) \div N) IN FMul(CsUnit(kh, n), FAbs(x(t, n)[1]))))
      loose == FAdd(FMul(FTen(-6), bigRe), FMul(FTen(-12), big))
      chk(name, at, ok) == IF ok THEN <<>> ELSE Fail(name, at, 0)
      eq(a, b, tol) == FLeq(FAbs(FSub(a, b)), FAdd(tol, FMul(FTen(-11), FAbs(b))))
      eachPole(F(_, _)) == First(Concat(Map(2 * Nc, LAMBDA j: F(1 + ((j-1) \div Nc), 1 + ((j-1) % Nc)))))
      pre(q) == Concat(<<
         chk(q \o ": ext = sca + abs", 0, eq(cell(q \o "_ext"), FAdd(cell(q \o "_sca"), cell(q \o "_abs")), IF q = "q" THEN FDiv(tight, geo) ELSE tight)),
         eachPole(LAMBDA t, n: chk(q \o " multipole: ext = sca + abs", <<t, n>>,
             eq(mpole(q \o "_ext_multipoles", t, n), FAdd(mpole(q \o "_sca_multipoles", t, n), mpole(q \o "_abs_multipoles", t, n)),
                IF q = "q" THEN FDiv(tight, geo) ELSE tight))),
         Concat(Map(3, LAMBDA i: LET nm == q \o "_" \o CsTotals[i][1] IN
             chk(nm \o ": sum of multipoles", 0,
                 eq(cell(nm), FSum(Map(2*Nc, LAMBDA j: mpole(nm \o "_multipoles", 1 + ((j-1) \div Nc), 1 + ((j-1) % Nc)))),
                    IF q = "q" THEN FDiv(tight, geo) ELSE tight)))) >>)
      \* rounding of a coefficient: relative, and of the coefficient of an opaque sphere of this size
      loss == IF co.backend = "pena" THEN 1 ELSE 30
      Z == Riccati(IF N = 1 THEN 2 ELSE N, CR(FMul(kh, R.r[p][R.L])))
      nat == Map(N, LAMBDA n: CAbs(CDiv(Z.psi[n+1], Xi(Z.psi[n+1], Z.chi[n+1]))))
      eps(n, y) == FAdd(FTen(-60), FMulI(FAdd(FMul(FTen(-10), CAbs(y)), FMul(FTen(-12), nat[n])), loss))
      epsT == FMulI(FAdd(FMul(FTen(-10), big), FMul(FTen(-12), FSum(Map(N, LAMBDA n: FMul(CsUnit(kh, n), nat[n]))))), loss)
      passive == IF c.passive # 1 THEN <<>> ELSE
         Concat(Map(2, LAMBDA t: First(Concat(Map(N, LAMBDA n: LET y == x(t, n) IN
            chk("passive: Re x >= |x|^2", <<t, n>>, FLeq(CAbs2(y), FAdd(y[1], eps(n, y))))
            \o (IF c.lossless = 1 THEN chk("lossless: Re x = |x|^2", <<t, n>>, FLeq(FAbs(FSub(CAbs2(y), y[1])), eps(n, y))) ELSE <<>>))))))
         \o chk("absorption >= 0", 0, FCmp(cell("cs_abs"), FNeg(epsT)) >= 0)
         \o chk("extinction >= 0", 0, FCmp(cell("cs_ext"), FNeg(epsT)) >= 0)
         \o (IF c.lossless = 1 THEN chk("lossless: no absorption", 0, FLeq(FAbs(cell("cs_abs")), epsT)) ELSE <<>>)
      scat == chk("scattering > 0", 0, cell("cs_sca")[1] >= 0)
  IN  pre("cs") \o pre("q") \o passive \o scat
      \o chk("series of the coefficients: ext", 0, eq(cell("cs_ext"), FSum(Map(2*N, LAMBDA j: LET n == 1 + ((j-1) % N)  t == 1 + ((j-1) \div N) IN CExtN(kh, n, x(t, n)))), FMul(FTen(-9), big)))
      \o chk("series of the coefficients: sca", 0, eq(cell("cs_sca"), FSum(Map(2*N, LAMBDA j: LET n == 1 + ((j-1) % N)  t == 1 + ((j-1) \div N) IN CScaN(kh, n, x(t, n)))), FMul(FTen(-9), big)))
      \o LET nt == c.m + 2   sh == <<R.np, R.nk, nt>>
             S(nm, t) == At(Arr(an, nm, sh), <<p, w, t>>)
             I(t) == FAdd(RealNum(Raw(Arr(an, "i_per", sh), <<p, w, t>>)), RealNum(Raw(Arr(an, "i_par", sh), <<p, w, t>>)))
             mus == Map(c.m, LAMBDA t: CCosSin(CR(RealNum(an.theta.d[t + 2])))[1][1])
             ps == Map(c.m, LAMBDA t: PiSeq(c.m, mus[t]))
             wts == Map(c.m, LAMBDA t: GaussWeight(mus[t], ps[t][c.m + 1]))
             int == FSum(Map(c.m, LAMBDA t: FMul(wts[t], I(t + 2))))
             tolS == FMul(FTen(-6), FSum(Map(2*N, LAMBDA j: LET n == 1 + ((j-1) % N)  t == 1 + ((j-1) \div N) IN FMulI(CAbs(x(t, n)), 2*n + 1))))
         IN  chk("optical theorem: C_ext = 4 pi/k^2 Re S1(0)", 0,
                 eq(cell("cs_ext"), FDiv(FMulI(FMul(FPi, S("S1", 1)[1]), 4), k2), FMulI(loose, 10)))
             \o chk("forward: S1 = S2", 0, FLeq(CAbs(CSub(S("S1", 1), S("S2", 1))), tolS))
             \o chk("backward: S1 = -S2", 0, FLeq(CAbs(CAdd(S("S1", 2), S("S2", 2))), tolS))
             \o chk("Gauss weights (machinery)", 0, FLeq(FAbs(FSub(FSum(wts), FInt(2))), FTen(-9)))
             \o chk("C_sca = pi/k^2 int (i_per + i_par) dmu", 0,
                 eq(cell("cs_sca"), FDiv(FMul(FPi, int), k2), FAdd(FMulI(FMul(FTen(-6), cell("cs_sca")), 4), FMul(FTen(-9), big))))

EnergyClauses(C, c) ==
  LET co == C[c.coef]  cs == C[c.cs]  an == C[c.ang]
      bad == SelectSeq(<<co, cs, an>>, LAMBDA q: q.obs.ok = 0)
  IN  IF bad # <<>> THEN Fail("refused: " \o bad[1].obs.err, 0, 0)
      ELSE LET R == Resolve(co)
               N == NUsed(co)  Nc == NUsed(cs)
               shm == <<2, Nc, R.np, R.nk>>  sht == <<R.np, R.nk>>
               sp == ShapeClauses(co, << <<"a_n", <<N, R.np, R.nk>> >>, <<"b_n", <<N, R.np, R.nk>> >> >>)
                  \o ShapeClauses(cs, Concat(Map(3, LAMBDA i: << <<"cs_" \o CsTotals[i][1], sht>>, <<"q_" \o CsTotals[i][1], sht>>,
                        <<"cs_" \o CsTotals[i][1] \o "_multipoles", shm>>, <<"q_" \o CsTotals[i][1] \o "_multipoles", shm>> >>)))
                  \o ShapeClauses(an, Map(4, LAMBDA i: << <<"S1", "S2", "i_per", "i_par">>[i], <<R.np, R.nk, c.m + 2>> >>))
           IN  Then(sp, Then(IF Nc # N THEN Fail("n_max of coefficients and cross sections", <<N, Nc>>, 0) ELSE <<>>,
                    EachPair(R, LAMBDA p, w: EnergyOne(c, co, cs, an, R, p, w))))
=============================================================================
