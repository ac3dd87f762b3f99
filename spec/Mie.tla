--------------------------------- MODULE Mie ---------------------------------
(***************************************************************************)
(* Scattering of an x-polarised plane wave exp(i k z) by a sphere with     *)
(* concentric layers, time convention exp(-i w t), mu = 1.                 *)
(*                                                                         *)
(* The machine, for one order n and one polarisation: the radial function  *)
(* starts as psi_n in the core and is carried outwards; at each interface  *)
(* the tangential field components are continuous, inside each layer it is *)
(* A psi + B chi.  Its state is <<u, u'>> just inside the current          *)
(* interface.  Outside it must be psi - c xi; c is the Mie coefficient     *)
(* (a_n electric, b_n magnetic).                                           *)
(*   electric (TM): u and u'/n continuous;  magnetic (TE): u/n and u'.     *)
(* A sphere is [k |-> k0, r |-> <<r1..rL>>, n |-> <<n1..nL>>, nh |-> host] *)
(***************************************************************************)
EXTENDS SphBessel

NL(s) == Len(s.r)
IndexOut(s, l) == IF l = NL(s) THEN s.nh ELSE s.n[l+1]
ArgIn(s, l)    == CScale(FMul(s.k, s.r[l]), s.n[l])
ArgOut(s, l)   == CScale(FMul(s.k, s.r[l]), IndexOut(s, l))

(* tables of the radial functions on both sides of every interface *)
Tables(s, N) == Map(NL(s), LAMBDA l: << Riccati(N, ArgIn(s, l)), Riccati(N, ArgOut(s, l)) >>)

(* crossing interface l outwards: <<u,u'>> inside -> <<u,u'>> outside *)
Cross(s, l, pol, st) ==
  LET m == CDiv(IndexOut(s, l), s.n[l])
  IN  IF pol = "E" THEN << st[1], CMul(m, st[2]) >>
      ELSE << CMul(m, st[1]), st[2] >>
(* amplitudes of psi and chi from u,u' (Wronskian psi chi' - psi' chi = -1) *)
Amps(R, n, st) ==
  << CSub(CMul(st[2], R.chi[n+1]), CMul(st[1], R.dchi[n+1])),
     CSub(CMul(st[1], R.dpsi[n+1]), CMul(st[2], R.psi[n+1])) >>
Value(R, n, ab) ==
  << CAdd(CMul(ab[1], R.psi[n+1]),  CMul(ab[2], R.chi[n+1])),
     CAdd(CMul(ab[1], R.dpsi[n+1]), CMul(ab[2], R.dchi[n+1])) >>

(* regular solution at the core boundary; only its ratio matters once it is
   too small for the arithmetic: psi'/psi -> (n+1)/z *)
CoreState(s, T, n) ==
  LET R == T[1][1]
  IN  IF FCmp(CAbs(R.psi[n+1]), FTen(-280)) < 0 /\ FCmp(CAbs(R.dpsi[n+1]), FTen(-280)) < 0
      THEN << ArgIn(s, 1), CR(FInt(n + 1)) >> ELSE << R.psi[n+1], R.dpsi[n+1] >>
(* one order, one polarisation: amplitude pairs of every layer and the outgoing <<u,u'>> *)
March(s, T, pol, n) ==
  FoldLeft(LAMBDA acc, l:
     LET ab  == IF l = 1 THEN <<COne, CZero>> ELSE Amps(T[l-1][2], n, acc.st)
     IN  [amps |-> Append(acc.amps, ab), st |-> Cross(s, l, pol, IF l = 1 THEN CoreState(s, T, n) ELSE Value(T[l][1], n, ab))],
     [amps |-> <<>>, st |-> <<CZero, CZero>>], Idx(NL(s)))

(* orders so far above the size parameter that the coefficient is below 1e-190 *)
Negligible(R, n) == FCmp(CAbs(R.psi[n+1]), FTen(-100)) < 0 /\ FCmp(CAbs(R.dpsi[n+1]), FTen(-100)) < 0
Coef(R, n, st) ==              \* (psi u' - psi' u) / (xi u' - xi' u)
  IF Negligible(R, n) THEN CZero ELSE
  LET xi == Xi(R.psi[n+1], R.chi[n+1])   dxi == Xi(R.dpsi[n+1], R.dchi[n+1])
  IN  CDiv(CSub(CMul(R.psi[n+1], st[2]), CMul(R.dpsi[n+1], st[1])),
           CSub(CMul(xi, st[2]), CMul(dxi, st[1])))

(* size of the terms that form a coefficient: what a relative error of the
   terms can do to it when they cancel (index matching) *)
CoefScale(R, n, st) ==
  IF Negligible(R, n) THEN FTen(-100) ELSE
  LET xi == Xi(R.psi[n+1], R.chi[n+1])   dxi == Xi(R.dpsi[n+1], R.dchi[n+1])
  IN  FDiv(FAdd(CAbs(CMul(R.psi[n+1], st[2])), CAbs(CMul(R.dpsi[n+1], st[1]))),
           CAbs(CSub(CMul(xi, st[2]), CMul(dxi, st[1]))))
CoefScales(s, T, N) ==
  Map(N, LAMBDA n: << CoefScale(T[NL(s)][2], n, March(s, T, "E", n).st),
                      CoefScale(T[NL(s)][2], n, March(s, T, "M", n).st) >>)

(* <<a_n, b_n>> for n = 1..N *)
Coefs(s, T, N) ==
  Map(N, LAMBDA n: << Coef(T[NL(s)][2], n, March(s, T, "E", n).st),
                      Coef(T[NL(s)][2], n, March(s, T, "M", n).st) >>)

(* with the layer amplitudes scaled to unit incident amplitude:
   [E |-> [c, amps], M |-> [c, amps]] for n = 1..N *)
Scaled(s, T, pol, n) ==
  LET m  == March(s, T, pol, n)
      R  == T[NL(s)][2]
      c  == Coef(R, n, m.st)
      uo == CSub(R.psi[n+1],  CMul(c, Xi(R.psi[n+1],  R.chi[n+1])))
      vo == CSub(R.dpsi[n+1], CMul(c, Xi(R.dpsi[n+1], R.dchi[n+1])))
      f  == IF FCmp(CAbs2(m.st[1]), CAbs2(m.st[2])) > 0 THEN CDiv(uo, m.st[1]) ELSE CDiv(vo, m.st[2])
  IN  [c |-> c, amps |-> Map(NL(s), LAMBDA l: << CMul(f, m.amps[l][1]), CMul(f, m.amps[l][2]) >>)]
Solve(s, T, N) == Map(N, LAMBDA n: [E |-> Scaled(s, T, "E", n), M |-> Scaled(s, T, "M", n)])

-----------------------------------------------------------------------------
(* integrated quantities; ab = Coefs, k = host wavenumber (real) *)
CExtN(k, n, c)  == FDiv(FMulI(FMul(FMulI(FPi, 2), c[1]), 2*n + 1), FMul(k, k))
CScaN(k, n, c)  == FDiv(FMulI(FMul(FMulI(FPi, 2), CAbs2(c)), 2*n + 1), FMul(k, k))

(* scattering amplitudes: <<S1, S2>> at mu *)
Amplitudes(ab, mu) ==
  LET N == Len(ab)  p == PiSeq(N, mu)  t == TauSeq(N, mu, p)
      term(n, x, y) == CDivI(CMulI(CAdd(CScale(x, ab[n][1]), CScale(y, ab[n][2])), 2*n + 1), n * (n + 1))
  IN  << CSum(Map(N, LAMBDA n: term(n, p[n+1], t[n+1]))),
         CSum(Map(N, LAMBDA n: term(n, t[n+1], p[n+1]))) >>

-----------------------------------------------------------------------------
(* Fields.  A region is 1..L (layer) or L+1 (host).                        *)
RegionOf(s, r) == LET inside == {l \in 1..NL(s) : FCmp(r, s.r[l]) <= 0}
                  IN  IF inside = {} THEN NL(s) + 1 ELSE CHOOSE l \in inside : \A j \in inside : l <= j
IndexAt(s, l) == IF l = NL(s) + 1 THEN s.nh ELSE s.n[l]

(* spherical vector (r, theta, phi components) -> Cartesian *)
Sph(p) ==                                   \* geometry of a point <<x,y,z>> (reals, not the origin)
  LET s2 == FAdd(FMul(p[1], p[1]), FMul(p[2], p[2]))
      s  == FSqrt(s2)
      r  == FSqrt(FAdd(s2, FMul(p[3], p[3])))
  IN  [r |-> r, ct |-> FDiv(p[3], r), st |-> FDiv(s, r),
       cp |-> IF s[1] = 0 THEN FInt(1) ELSE FDiv(p[1], s),
       sp |-> IF s[1] = 0 THEN FZero  ELSE FDiv(p[2], s)]
ToCart(g, v) ==
  << CAdd(CAdd(CScale(FMul(g.st, g.cp), v[1]), CScale(FMul(g.ct, g.cp), v[2])), CNeg(CScale(g.sp, v[3]))),
     CAdd(CAdd(CScale(FMul(g.st, g.sp), v[1]), CScale(FMul(g.ct, g.sp), v[2])), CScale(g.cp, v[3])),
     CSub(CScale(g.ct, v[1]), CScale(g.st, v[2])) >>
(* vector spherical harmonics from a radial pair <<u, u'>> at argument rho *)
VshM(g, parity, p, t, u, rho) ==
  LET z == CDiv(u, rho)
  IN  IF parity = "o" THEN << CZero, CScale(FMul(g.cp, p), z), CNeg(CScale(FMul(g.sp, t), z)) >>
      ELSE << CZero, CNeg(CScale(FMul(g.sp, p), z)), CNeg(CScale(FMul(g.cp, t), z)) >>
VshN(g, parity, n, p, t, u, du, rho) ==
  LET z == CDiv(u, CMul(rho, rho))  d == CDiv(du, rho)  x == FMulI(FMul(g.st, p), n * (n + 1))
  IN  IF parity = "e" THEN << CScale(FMul(g.cp, x), z), CScale(FMul(g.cp, t), d), CNeg(CScale(FMul(g.sp, p), d)) >>
      ELSE << CScale(FMul(g.sp, x), z), CScale(FMul(g.sp, t), d), CScale(FMul(g.cp, p), d) >>

V3Add(a, b) == << CAdd(a[1], b[1]), CAdd(a[2], b[2]), CAdd(a[3], b[3]) >>
V3Sub(a, b) == << CSub(a[1], b[1]), CSub(a[2], b[2]), CSub(a[3], b[3]) >>
V3Mul(c, a) == << CMul(c, a[1]), CMul(c, a[2]), CMul(c, a[3]) >>
V3Abs(v) == FSqrt(FAdd(CAbs2(v[1]), FAdd(CAbs2(v[2]), CAbs2(v[3]))))
V3Zero == <<CZero, CZero, CZero>>
V3Sum(s) == FoldLeft(LAMBDA a, x: V3Add(a, x), V3Zero, s)

(* radial pair of order n in region l: inside A psi + B chi, outside the
   scattered part -c xi *)
Radial(sol, R, n, l, L, pol) ==
  LET q == sol[n][pol]
  IN  IF l = L + 1
      THEN << CNeg(CMul(q.c, Xi(R.psi[n+1], R.chi[n+1]))), CNeg(CMul(q.c, Xi(R.dpsi[n+1], R.dchi[n+1]))) >>
      ELSE Value(R, n, q.amps[l])

(* E and H (H in units where the incident wave has H = n_host E y) at point
   p for unit amplitude: inside the total field, outside the scattered one.
   Very close to the centre only the lowest orders contribute. *)
FieldIn(s, sol, p, l) ==
  LET L == NL(s)
      g == Sph(p)    nr == IndexAt(s, l)
      rho == CScale(FMul(s.k, g.r), nr)
      N == IF Len(sol) > 12 /\ FCmp(CAbs(rho), FDivI(FInt(1), 100)) < 0 THEN 12 ELSE Len(sol)
      R == Riccati(IF N = 1 THEN 2 ELSE N, rho)
      pp == PiSeq(N, g.ct)  tt == TauSeq(N, g.ct, pp)
      En(n) == CDivI(CMulI(CIPow(n), 2*n + 1), n * (n + 1))
      both == Map(N, LAMBDA n:
         LET um == Radial(sol, R, n, l, L, "M")
             ue == Radial(sol, R, n, l, L, "E")
             e == V3Sub(VshM(g, "o", pp[n+1], tt[n+1], um[1], rho),
                        V3Mul(CIUnit, VshN(g, "e", n, pp[n+1], tt[n+1], ue[1], ue[2], rho)))
             h == V3Add(VshM(g, "e", pp[n+1], tt[n+1], ue[1], rho),
                        V3Mul(CIUnit, VshN(g, "o", n, pp[n+1], tt[n+1], um[1], um[2], rho)))
         IN  << V3Mul(En(n), e), V3Mul(En(n), h) >>)
  IN  [region |-> l,           \* SE, SH: sizes of the sums (for error bounds)
       SE |-> FSum(Map(N, LAMBDA n: V3Abs(both[n][1]))),
       SH |-> FMul(CAbs(nr), FSum(Map(N, LAMBDA n: V3Abs(both[n][2])))),
       E |-> ToCart(g, V3Sum(Map(N, LAMBDA n: both[n][1]))),
       H |-> ToCart(g, V3Mul(CNeg(nr), V3Sum(Map(N, LAMBDA n: both[n][2]))))]
Field(s, sol, p) == FieldIn(s, sol, p, RegionOf(s, Sph(p).r))
(* incident wave at p (unit amplitude) *)
Incident(s, p) == CExp(CTimesI(CScale(FMul(s.k, p[3]), s.nh)))
=============================================================================
