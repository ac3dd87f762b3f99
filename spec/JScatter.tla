------------------------------- MODULE JScatter -------------------------------
(***************************************************************************)
(* What a scattering call must return: operators that compare one recorded *)
(* call (arguments + observation) with the Mie specification.              *)
(*                                                                         *)
(* A call is a record with op, api ("ms" functions | "pt" Particle),       *)
(* arguments as in Layout, nmax (0 = automatic), backend, and obs:         *)
(*   [ok |-> 1, v |-> [name |-> array]]  or  [ok |-> 0, err |-> "..."].    *)
(* Each operator returns a sequence of failed clauses (<<>> = accepted).   *)
(***************************************************************************)
EXTENDS Layout, Mie

Sphere(R, p, w) ==
  [k |-> R.k[w], r |-> R.r[p], n |-> Map(R.L, LAMBDA l: CSqrt(R.eps[p][l][w])), nh |-> CSqrt(R.env[w])]

(* the same sphere with its wavenumber / indices / radii changed by the
   relative amount u: how far rounding of the inputs can move a result *)
Alt(l, u) == IF l % 2 = 1 THEN u ELSE FNeg(u)
ShiftK(s, u) == [s EXCEPT !.k = FAdd(@, FMul(@, u))]
ShiftN(s, u) == [s EXCEPT !.n = Map(Len(s.n), LAMBDA l: CAdd(s.n[l], CScale(Alt(l, u), s.n[l])))]
ShiftR(s, u) == [s EXCEPT !.r = Map(Len(s.r), LAMBDA l: FAdd(s.r[l], FMul(Alt(l, u), s.r[l])))]

(* accuracy class of a call: "d" double, "m" inputs or materials of single
   precision (complex64 permittivities), "s" single precision arithmetic *)
Acc(c)    == IF Given(c, "acc") THEN c.acc ELSE "d"
RelTol(c) == CASE Acc(c) = "d" -> (IF c.backend = "pena" THEN FTen(-10) ELSE FTen(-9))
               [] Acc(c) = "m" -> FTen(-6)
               [] OTHER -> FDivI(FInt(1), 500)
Unit(c)   == CASE Acc(c) = "d" -> FTen(-12) [] Acc(c) = "m" -> FTen(-6) [] OTHER -> FTen(-5)
TinyTol(c) == CASE Acc(c) = "d" -> FTen(-13) [] Acc(c) = "m" -> (IF c.backend = "pena" THEN FTen(-8) ELSE FTen(-6)) [] OTHER -> FTen(-6)

First(s) == IF Len(s) <= 3 THEN s ELSE SubSeq(s, 1, 3)      \* keep reports short

(* a family of numbers obs(i), i in 1..n, against ref(i): within
   rel * |ref| + abs(i), or within slack(i) more.  The slack is costly: of the numbers
   that need it, the two with the largest deviation (relative to the tolerance) count *)
Compare(name, n, obs(_), ref(_), rel, abs(_), slack(_)) ==
  LET off == Concat(Map(n, LAMBDA i:
               LET o == obs(i)  r == ref(i)  d == CAbs(CSub(o, r))
                   t == FAdd(FMul(rel, CAbs(r)), abs(i))
               IN  IF FLeq(d, t) THEN <<>> ELSE << <<i, d, t, r, FDiv(d, FAdd(t, FTen(-300)))>> >>))
      Worst(k) == FoldLeft(LAMBDA a, x: IF x[1] # k /\ (a = <<>> \/ FCmp(x[5], a[5]) = 1) THEN x ELSE a, <<>>, off)
      w1 == Worst(0)  w2 == IF Len(off) < 2 THEN <<>> ELSE Worst(w1[1])
      bad(x) == IF x = <<>> THEN <<>>
                ELSE IF FLeq(x[2], FAdd(x[3], slack(x[1]))) THEN <<>>
                ELSE Fail(name, x[1], Log10(FDiv(x[2], FAdd(CAbs(x[4]), FTen(-100)))))
  IN  IF off = <<>> THEN <<>> ELSE bad(w1) \o bad(w2)
CompareR(name, n, obs(_), ref(_), rel, abs(_), slack(_)) ==
  Compare(name, n, obs, LAMBDA i: CR(ref(i)), rel, abs, slack)
NoSlack(i) == FZero
\* sums over orders: the implementation forms the factors (2n+1)/(n(n+1)) in single precision
SumTol(c) == IF Acc(c) = "d" THEN FTen(-6) ELSE FMulI(RelTol(c), 2)

(* the recorded array `name` must have shape sh (the Particle methods drop
   dimensions of size one) and finite entries *)
ShapeOk(c, a, sh) == WellFormed(a) /\ (a.sh = sh \/ (c.api = "pt" /\ a.sh = Squeeze(sh)))
Arr(c, name, sh) == Unsqueezed(c.obs.v[name], sh)
ShapeClauses(c, specs) ==                 \* specs: sequence of <<name, shape>>
  Concat(Map(Len(specs), LAMBDA i:
    IF specs[i][1] \notin DOMAIN c.obs.v THEN Fail("missing " \o specs[i][1], 0, 0)
    ELSE LET a == c.obs.v[specs[i][1]]
         IN  IF ~ShapeOk(c, a, specs[i][2]) THEN Fail("shape of " \o specs[i][1], a.sh, 0)
             ELSE IF ~AllFinite(a) THEN Fail("not finite: " \o specs[i][1], 0, 0)
             ELSE <<>>))

IntOf(x) == IF x[1] = 0 THEN 0 ELSE FFloor(RealNum(x))
NUsed(c) == IntOf(c.obs.v.n_max.d[1])
NClauses(c) == IF c.nmax > 0 /\ NUsed(c) # c.nmax THEN Fail("n_max", NUsed(c), 0)
               ELSE IF NUsed(c) < 1 THEN Fail("n_max", NUsed(c), 0) ELSE <<>>

\* all particle/wavelength pairs
EachPair(R, F(_, _)) == Concat(Map(R.np * R.nk, LAMBDA i: F(1 + ((i - 1) \div R.nk), 1 + ((i - 1) % R.nk))))
Then(f, g) == IF f # <<>> THEN f ELSE g          \* g is evaluated lazily by TLC

CoefPairs(s, N) == Coefs(s, Tables(s, N), N)
\* sum of the shifts of the number F(sphere) over the perturbations
Wiggle(s, u, F(_), ref) ==
  FAdd(CAbs(CSub(F(ShiftK(s, u)), ref)), FAdd(CAbs(CSub(F(ShiftN(s, u)), ref)), CAbs(CSub(F(ShiftR(s, u)), ref))))

-----------------------------------------------------------------------------
(* Coefficients *)
ExternalClauses(c, R, N) ==
  LET a == Arr(c, "a_n", <<N, R.np, R.nk>>)  b == Arr(c, "b_n", <<N, R.np, R.nk>>)
  IN  EachPair(R, LAMBDA p, w:
        LET s == Sphere(R, p, w)
            ab == CoefPairs(s, N)  fl == CoefScales(s, Tables(s, N), N)
            sl(n, j) == Wiggle(s, Unit(c), LAMBDA q: CoefPairs(q, N)[n][j], ab[n][j])
        IN  Compare("a_n", N, LAMBDA n: At(a, <<n, p, w>>), LAMBDA n: ab[n][1], RelTol(c),
                    LAMBDA n: FMul(TinyTol(c), fl[n][1]), LAMBDA n: sl(n, 1))
            \o Compare("b_n", N, LAMBDA n: At(b, <<n, p, w>>), LAMBDA n: ab[n][2], RelTol(c),
                    LAMBDA n: FMul(TinyTol(c), fl[n][2]), LAMBDA n: sl(n, 2)))

(* core: c (magnetic), d (electric); shell: f (magnetic), g (electric) of the
   psi waves; v (magnetic), w (electric) of the z y_n = -chi waves.  For a homogeneous sphere only
   the core coefficients have a meaning. *)
InternalNames == << <<"c_n", "M", 1, 1>>, <<"d_n", "E", 1, 1>>, <<"f_n", "M", 2, 1>>,
                    <<"g_n", "E", 2, 1>>, <<"v_n", "M", 2, 2>>, <<"w_n", "E", 2, 2>> >>
InternalClauses(c, R, N) ==
  EachPair(R, LAMBDA p, w:
    LET s == Sphere(R, p, w)
        T == Tables(s, N)
        sol == Solve(s, T, N)
        sol2 == LET q == ShiftN(s, Unit(c)) IN Solve(q, Tables(q, N), N)
        sol3 == LET q == ShiftR(s, Unit(c)) IN Solve(q, Tables(q, N), N)
    IN  Concat(Map(IF R.L = 1 THEN 2 ELSE 6, LAMBDA i:
          LET q == InternalNames[i]
              get(S, n) == LET z == S[n][q[2]].amps[q[3]][q[4]] IN IF q[4] = 2 THEN CNeg(z) ELSE z
              \* a chi amplitude is psi u' - psi' u at the inner interface
              \* core waves below 1e-100 cannot be observed: finite is enough
              fl(n) == IF q[3] = 1 /\ Negligible(T[1][1], n) THEN FTen(100)
                       ELSE IF q[4] = 1 THEN FTen(-100)
                       ELSE LET Z == T[1][2] IN FMul(FMul(RelTol(c), CAbs(sol[n][q[2]].amps[2][1])), CAbs(CMul(Z.psi[n+1], Z.dpsi[n+1])))
          IN  Compare(q[1], N, LAMBDA n: At(Arr(c, q[1], <<N, R.np, R.nk>>), <<n, p, w>>),
                      LAMBDA n: get(sol, n), FMulI(RelTol(c), 10), LAMBDA n: fl(n),
                      LAMBDA n: FAdd(CAbs(CSub(get(sol2, n), get(sol, n))), CAbs(CSub(get(sol3, n), get(sol, n))))))))

CoefClauses(c, R) ==
  LET N == NUsed(c)  sh == <<N, R.np, R.nk>>
      ext == << <<"a_n", sh>>, <<"b_n", sh>> >>
      int == Map(IF R.L = 1 THEN 2 ELSE 6, LAMBDA i: <<InternalNames[i][1], sh>>)
      internal == Given(c, "internal") /\ c.internal = 1
  IN  Then(NClauses(c), Then(ShapeClauses(c, IF internal THEN ext \o int ELSE ext),
        ExternalClauses(c, R, N) \o (IF internal THEN InternalClauses(c, R, N) ELSE <<>>)))

-----------------------------------------------------------------------------
(* Cross sections.  Host wavenumber kh (hosts are lossless). *)
HostK(s) == FMul(s.k, s.nh[1])
CsTotals == << <<"ext", 1>>, <<"sca", 2>>, <<"abs", 3>> >>
(* <<ext, sca, abs>> of one coefficient of order n *)
CsOf(kh, n, x) == LET e == CExtN(kh, n, x)  q == CScaN(kh, n, x) IN <<e, q, FSub(e, q)>>
CsUnit(kh, n) == FDiv(FMulI(FPi, 2 * (2*n + 1)), FMul(kh, kh))
CsClauses(c, R) ==
  LET v == c.obs.v  N == NUsed(c)
      shm == <<2, N, R.np, R.nk>>  sht == <<R.np, R.nk>>
      specs == Concat(Map(3, LAMBDA i: << <<"cs_" \o CsTotals[i][1], sht>>, <<"q_" \o CsTotals[i][1], sht>>,
                 <<"cs_" \o CsTotals[i][1] \o "_multipoles", shm>>, <<"q_" \o CsTotals[i][1] \o "_multipoles", shm>> >>))
               \o << <<"cs_geo", <<1, R.np, R.nk>> >> >>
  IN  Then(NClauses(c), Then(ShapeClauses(c, specs),
        EachPair(R, LAMBDA p, w:
          LET s == Sphere(R, p, w)  kh == HostK(s)
              T == Tables(s, N)  ab == Coefs(s, T, N)  fl == CoefScales(s, T, N)
              geo == FMul(FPi, FMul(R.r[p][R.L], R.r[p][R.L]))
              mp == Map(2, LAMBDA t: Map(N, LAMBDA n: CsOf(kh, n, ab[n][t])))
              \* rounding: of the coefficient, of the terms it is formed of; ext - sca cancels
              tl == Map(2, LAMBDA t: Map(N, LAMBDA n:
                      LET x == CAbs(ab[n][t])
                          cf == FMul(FMulI(CsUnit(kh, n), 10), FMul(TinyTol(c),
                                  FMul(FAdd(x, fl[n][t]), FAdd(FInt(1), FMulI(x, 2)))))
                          m == mp[t][n]
                      IN  << FAdd(cf, FMul(RelTol(c), FAbs(m[1]))), FAdd(cf, FMul(RelTol(c), FAbs(m[2]))),
                             FAdd(FMulI(cf, 2), FMul(RelTol(c), FAdd(FAbs(m[1]), FAbs(m[2])))) >>))
              tot == Map(3, LAMBDA i: FAdd(FSum(Map(N, LAMBDA n: mp[1][n][i])), FSum(Map(N, LAMBDA n: mp[2][n][i]))))
              tlT == Map(3, LAMBDA i: FAdd(FSum(Map(N, LAMBDA n: tl[1][n][i])), FSum(Map(N, LAMBDA n: tl[2][n][i]))))
              wig1(n, t, i) == Wiggle(s, Unit(c), LAMBDA q: CR(CsOf(HostK(q), n, CoefPairs(q, N)[n][t])[i]), CR(mp[t][n][i]))
              wig(n, t, i) == IF i = 3 THEN FAdd(wig1(n, t, 1), wig1(n, t, 2)) ELSE wig1(n, t, i)
              one(pre, div) ==
                Concat(Map(3, LAMBDA i:
                  LET nm == pre \o CsTotals[i][1]
                      A == Arr(c, nm, sht)  M == Arr(c, nm \o "_multipoles", shm)
                  IN  CompareR(nm, 1, LAMBDA z: At(A, <<p, w>>), LAMBDA z: FDiv(tot[i], div), FZero,
                               LAMBDA z: FDiv(tlT[i], div),
                               LAMBDA z: FDiv(FSum(Map(2*N, LAMBDA j: LET n == 1 + ((j-1) % N)  t == 1 + ((j-1) \div N) IN wig(n, t, i))), div))
                      \o Concat(Map(2, LAMBDA t:
                         CompareR(nm \o "_multipoles", N, LAMBDA n: At(M, <<t, n, p, w>>), LAMBDA n: FDiv(mp[t][n][i], div),
                            FZero, LAMBDA n: FDiv(tl[t][n][i], div), LAMBDA n: FDiv(wig(n, t, i), div))))))
          IN  CompareR("cs_geo", 1, LAMBDA z: At(Arr(c, "cs_geo", <<1, R.np, R.nk>>), <<1, p, w>>), LAMBDA z: geo, RelTol(c), NoSlack, NoSlack)
              \o one("cs_", FInt(1)) \o one("q_", geo))))

(* wavelength and k0 reported with a spectrum *)
SpectrumClauses(c, R) ==
  Then(ShapeClauses(c, IF R.nk = 1 THEN << <<"k0", <<>> >>, <<"wavelength", <<>> >> >>
                       ELSE << <<"k0", <<R.nk>> >>, <<"wavelength", <<R.nk>> >> >>),
       CompareR("k0", R.nk, LAMBDA w: Num(c.obs.v.k0.d[w]), LAMBDA w: R.k[w], RelTol(c), NoSlack, NoSlack)
       \o CompareR("wavelength", R.nk, LAMBDA w: Num(c.obs.v.wavelength.d[w]),
                   LAMBDA w: FDiv(FMulI(FPi, 2), R.k[w]), RelTol(c), NoSlack, NoSlack))

-----------------------------------------------------------------------------
(* Angular scattering at the angles c.theta *)
AngClauses(c, R) ==
  LET v == c.obs.v  nt == Len(c.theta.d)  sh == <<R.np, R.nk, nt>>
      names == <<"S1", "S2", "i_per", "i_par", "i_unpol", "pol_degree">>
      N == c.obs.v_nmax            \* order used by the same configuration's coefficient call
      mus == Map(nt, LAMBDA t: CCosSin(CR(RealNum(c.theta.d[t])))[1][1])
  IN  Then(ShapeClauses(c, Map(5, LAMBDA i: <<names[i], sh>>)),
        EachPair(R, LAMBDA p, w:
          LET s == Sphere(R, p, w)
              T == Tables(s, N)  ab == Coefs(s, T, N)  fl == CoefScales(s, T, N)
              amp == Map(nt, LAMBDA t: Amplitudes(ab, mus[t]))
              \* rounding of the angle and of the terms of the sum
              \* pi_n, tau_n are bounded by n(n+1)/2
              bigT == FoldLeft(LAMBDA acc, n: FAdd(acc, FMulI(FAdd(CAbs(ab[n][1]), CAbs(ab[n][2])), n * (2*n + 1))), FZero, Idx(N))
              bigF == FoldLeft(LAMBDA acc, n: FAdd(acc, FMulI(FAdd(fl[n][1], fl[n][2]), n * (2*n + 1))), FZero, Idx(N))
              ta0 == FAdd(FMul(SumTol(c), FDivI(bigT, 10)), FMul(TinyTol(c), bigF))
              ta(j, t) == ta0
              sl(j, t) == Wiggle(s, Unit(c), LAMBDA q: Amplitudes(CoefPairs(q, N), mus[t])[j], amp[t][j])
              S(i, t) == At(Arr(c, names[i], sh), <<p, w, t>>)
              abs2(j, t) == CAbs2(amp[t][j])
              tol2(j, t) == FMul(FMulI(FAdd(CAbs(amp[t][j]), ta(j, t)), 3), FAdd(FMul(SumTol(c), CAbs(amp[t][j])), ta(j, t)))
              sl2(j, t) == FMul(FMulI(CAbs(amp[t][j]), 3), sl(j, t))
              \* degree of polarisation, where the intensities are not lost in rounding
              tot(t) == FAdd(abs2(1, t), abs2(2, t))
              polTol(t) == FDiv(FMulI(FAdd(tol2(1, t), tol2(2, t)), 4), tot(t))
          IN  Concat(Map(2, LAMBDA j:
                Compare(names[j], nt, LAMBDA t: S(j, t), LAMBDA t: amp[t][j], SumTol(c), LAMBDA t: ta(j, t), LAMBDA t: sl(j, t))
                \o CompareR(names[j + 2], nt, LAMBDA t: S(j + 2, t), LAMBDA t: abs2(j, t), FZero, LAMBDA t: tol2(j, t), LAMBDA t: sl2(j, t))))
              \o CompareR("i_unpol", nt, LAMBDA t: S(5, t), LAMBDA t: FDivI(tot(t), 2), FZero,
                   LAMBDA t: FAdd(tol2(1, t), tol2(2, t)), LAMBDA t: FAdd(sl2(1, t), sl2(2, t)))
              \o Concat(Map(nt, LAMBDA t:
                   IF FLeq(tot(t), FMulI(FMul(ta0, ta0), 100000)) THEN <<>>
                   ELSE IF ~IsFiniteNum(Raw(Arr(c, "pol_degree", sh), <<p, w, t>>)) THEN Fail("not finite: pol_degree", t, 0)
                   ELSE CompareR("pol_degree", 1, LAMBDA z: S(6, t), LAMBDA z: FDiv(FSub(abs2(1, t), abs2(2, t)), tot(t)),
                          SumTol(c), LAMBDA z: polTol(t), LAMBDA z: FDiv(FMulI(FAdd(sl2(1, t), sl2(2, t)), 4), tot(t)))))))

-----------------------------------------------------------------------------
(* Near fields at the points c.probe (Npos, 3), incident amplitude c.e0 *)
Point(a, i) == Map(3, LAMBDA j: RealNum(a.d[3*(i-1) + j]))
V3Of(a, p, w, i) == Map(3, LAMBDA j: At(a, <<p, w, i, j>>))
PosTol(c) == CASE Acc(c) = "d" -> FTen(-7) [] Acc(c) = "m" -> FTen(-6) [] OTHER -> FTen(-4)
FieldTol(c) == CASE Acc(c) = "d" -> FTen(-6) [] Acc(c) = "m" -> FDivI(FTen(-5), 2) [] OTHER -> FDivI(FInt(1), 200)

CompareV(name, i, o, r, tol, slack(_)) ==
  LET d == V3Abs(V3Sub(o, r))
  IN  IF FLeq(d, tol) THEN <<>> ELSE IF FLeq(d, FAdd(tol, slack(0))) THEN <<>>
      ELSE << [clause |-> name, at |-> i, lg |-> Log10(FDiv(d, FAdd(V3Abs(r), FTen(-100)))), ab |-> Log10(d)] >>

NearNames == <<"E_i", "H_i", "E_s", "H_s", "E_t", "H_t">>
NearClauses(c, R) ==
  LET np == Len(c.probe.d) \div 3  sh == <<R.np, R.nk, np, 3>>
      N == c.obs.v_nmax
      e0 == Num(c.e0)
      A(i) == Arr(c, NearNames[i], sh)
  IN  Then(ShapeClauses(c, Map(6, LAMBDA i: <<NearNames[i], sh>>)),
        EachPair(R, LAMBDA p, w:
          LET s == Sphere(R, p, w)
              sol == Solve(s, Tables(s, N), N)
              sl(pt, f, j) ==
                LET dl == FAdd(FMul(PosTol(c), Sph(pt).r), FDiv(FMul(PosTol(c), FDivI(FInt(1), 5)), s.k))
                    pm == Map(3, LAMBDA d: [pt EXCEPT ![d] = FAdd(@, dl)])
                    sK == ShiftK(s, Unit(c))  sN == ShiftN(s, Unit(c))  sR == ShiftR(s, Unit(c))
                    get(q) == IF j = 1 THEN q.E ELSE q.H
                    pick(q) == V3Abs(V3Sub(get(q), get(f)))
                IN  FAdd(FSum(Map(3, LAMBDA d: LET q == FieldIn(s, sol, pm[d], f.region) IN pick(q))),
                         FSum(Map(3, LAMBDA d: LET z == <<sK, sN, sR>>[d]
                                               IN pick(FieldIn(z, Solve(z, Tables(z, N), N), pt, f.region)))))
          IN  Concat(Map(np, LAMBDA i:
                LET pt0 == Point(c.probe, i)
                    zero == \A j \in 1..3 : pt0[j][1] = 0
                    pt == IF zero THEN <<FZero, FZero, FDiv(FTen(-8), s.k)>> ELSE pt0
                    f == Field(s, sol, pt)
                    ei == CMul(e0, Incident(s, pt0))
                    Ei == <<ei, CZero, CZero>>   Hi == <<CZero, CMul(s.nh, ei), CZero>>
                    Es == V3Mul(e0, f.E)         Hs == V3Mul(e0, f.H)
                    outside == f.region = R.L + 1
                    Et == IF outside THEN V3Add(Ei, Es) ELSE Es
                    Ht == IF outside THEN V3Add(Hi, Hs) ELSE Hs
                    tE == FMul(FMul(FieldTol(c), CAbs(e0)), FAdd(f.SE, FTen(-5)))
                    tH == FMul(FMul(FieldTol(c), CAbs(e0)), FAdd(f.SH, FTen(-5)))
                    iE == FMul(FieldTol(c), CAbs(e0))
                    iH == FMul(FieldTol(c), CAbs(CMul(s.nh, e0)))
                    slE(z) == FMul(CAbs(e0), sl(pt, f, 1))   slH(z) == FMul(CAbs(e0), sl(pt, f, 2))
                    slI(z) == FMul(FMulI(iH, 1), FAdd(FInt(1), FMul(s.k, Sph(pt).r)))
                IN  CompareV("E_i", i, V3Of(A(1), p, w, i), Ei, iE, slI) \o CompareV("H_i", i, V3Of(A(2), p, w, i), Hi, iH, slI)
                    \o CompareV("E_s", i, V3Of(A(3), p, w, i), Es, tE, slE) \o CompareV("H_s", i, V3Of(A(4), p, w, i), Hs, tH, slH)
                    \o CompareV("E_t", i, V3Of(A(5), p, w, i), Et, FAdd(tE, iE), LAMBDA z: FAdd(slE(z), slI(z)))
                    \o CompareV("H_t", i, V3Of(A(6), p, w, i), Ht, FAdd(tH, iH), LAMBDA z: FAdd(slH(z), slI(z)))))))

-----------------------------------------------------------------------------
(* accept / refuse: Resolve(c) is what the documented rules say *)
Judge(c, clauses(_)) ==
  LET R == Resolve(c)
  IN  IF ~R.ok THEN (IF c.obs.ok = 0 THEN <<>> ELSE Fail("should be refused: " \o R.why, 0, 0))
      ELSE IF c.obs.ok = 0 THEN Fail("refused: " \o c.obs.err, 0, 0)
      ELSE clauses(R)
=============================================================================
