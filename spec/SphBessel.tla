------------------------------ MODULE SphBessel ------------------------------
(***************************************************************************)
(* Riccati-Bessel and spherical Bessel functions of integer order and      *)
(* complex argument, from their definitions:                               *)
(*   psi_n(z) =  z j_n(z)   power series at the two highest orders, then    *)
(*                          the three-term recurrence downwards; for       *)
(*                          |z| >= 200 from psi_0 = sin z upwards (loses   *)
(*                          nothing that 1200 bits would notice)           *)
(*   chi_n(z) = -z y_n(z)   chi_0 = cos z, chi_1 = cos z / z + sin z and    *)
(*                          the recurrence upwards (chi is dominant)       *)
(*   xi_n     =  psi_n - i chi_n = z h^(1)_n(z)                             *)
(* Sequences are indexed order + 1:  s[n+1] is order n.                    *)
(***************************************************************************)
EXTENDS Cplx

(* truncation of a BigFix number to an integer (moderate magnitudes only) *)
FFloor(a) == IF Len(a) <= K + 1 THEN 0
             ELSE LET d(i) == IF K + 1 + i <= Len(a) THEN a[K + 1 + i] ELSE 0
                  IN  (a[1]) * (d(1) + B * (IF d(2) > 60000 THEN 60000 ELSE d(2)))

SeriesTerms(z) == 100 + 2 * FFloor(CAbs(z))

(* psi_n(z) = z^(n+1)/(2n+1)!! * sum_k (-z^2/2)^k / (k! (2n+3)(2n+5)...(2n+2k+1)) *)
PsiSeries(n, z) ==
  LET lead == FoldLeft(LAMBDA a, j: CDivI(CMul(a, z), 2*j + 1), z, Idx(n))
      q    == CDivI(CNeg(CMul(z, z)), 2)
  IN  FoldLeft(LAMBDA acc, k:
                 LET t == CDivI(CMul(acc[2], q), k * (2*n + 2*k + 1))
                 IN  <<CAdd(acc[1], t), t>>,
               <<lead, lead>>, Idx(SeriesTerms(z)))[1]

(* psi_0 .. psi_N, z # 0, N >= 1 *)
RECURSIVE StartOrder(_, _, _, _)
\* highest order n <= N with |z|^(n+1) / (2n+1)!! above 1e-150 (at least 1)
StartOrder(N, az, n, lead) == IF n >= N \/ FCmp(lead, FTen(-150)) < 0 THEN n
                              ELSE StartOrder(N, az, n + 1, FDivI(FMul(lead, az), 2*n + 3))
PsiDown(N0, z) ==
  LET az  == CAbs(z)
      N   == StartOrder(N0, az, 1, FDivI(FMul(az, az), 3))
      iz  == CInv(z)
      top == PsiSeries(N, z)
      nxt == PsiSeries(N - 1, z)
      \* acc = <<psi_n, psi_{n+1}, ...>> grows downwards to order 0
      down == FoldLeft(LAMBDA acc, i:
                LET n == N - i          \* computing order n-1 from n, n+1
                IN  <<CSub(CMulI(CMul(iz, acc[1]), 2*n + 1), acc[2])>> \o acc,
                <<nxt, top>>, Idx(N - 1))
  IN  down \o Map(N0 - N, LAMBDA i: PsiSeries(N + i, z))
PsiUp(N, z) ==
  LET cs == CCosSin(z)
      iz == CInv(z)
  IN  FoldLeft(LAMBDA acc, n:
        Append(acc, CSub(CMulI(CMul(iz, acc[n+1]), 2*n + 1), acc[n])),
        << cs[2], CSub(CMul(cs[2], iz), cs[1]) >>, Idx(N - 1))
PsiSeq(N, z) == IF FCmp(CAbs2(z), FInt(40000)) < 0 THEN PsiDown(N, z) ELSE PsiUp(N, z)

(* chi_0 .. chi_N *)
ChiSeq(N, z) ==
  LET cs == CCosSin(z)
      iz == CInv(z)
  IN  FoldLeft(LAMBDA acc, n:
        Append(acc, CSub(CMulI(CMul(iz, acc[n+1]), 2*n + 1), acc[n])),
        << cs[1], CAdd(CMul(cs[1], iz), cs[2]) >>, Idx(N - 1))

(* derivative sequence: f'_n = f_{n-1} - n f_n / z  (f'_0 given) *)
DerSeq(f, d0, z) ==
  LET iz == CInv(z)
  IN  Map(Len(f), LAMBDA i: IF i = 1 THEN d0
                            ELSE CSub(f[i-1], CMulI(CMul(iz, f[i]), i - 1)))

(* everything about one argument: psi, psi', chi, chi' *)
Riccati(N, z) ==
  LET p  == PsiSeq(N, z)
      c  == ChiSeq(N, z)
      iz == CInv(z)
      \* psi'_0 = cos z, chi'_0 = -sin z; order 0 via the recurrence f'_n = (n+1)/z f_n - f_{n+1}
      dp0 == CSub(CMul(iz, p[1]), p[2])
      dc0 == CSub(CMul(iz, c[1]), c[2])
  IN  [psi |-> p, dpsi |-> DerSeq(p, dp0, z), chi |-> c, dchi |-> DerSeq(c, dc0, z)]

Xi(a, b) == CSub(a, CTimesI(b))               \* psi - i chi

(* spherical functions and derivatives of order n from a Riccati record *)
SphJ(R, n, z)  == CDiv(R.psi[n+1], z)
SphY(R, n, z)  == CNeg(CDiv(R.chi[n+1], z))
SphH(R, n, z)  == CAdd(SphJ(R, n, z), CTimesI(SphY(R, n, z)))
\* j' = (psi' - psi/z)/z
SphJD(R, n, z) == CDiv(CSub(R.dpsi[n+1], CDiv(R.psi[n+1], z)), z)
SphYD(R, n, z) == CNeg(CDiv(CSub(R.dchi[n+1], CDiv(R.chi[n+1], z)), z))
SphHD(R, n, z) == CAdd(SphJD(R, n, z), CTimesI(SphYD(R, n, z)))
\* logarithmic derivatives of psi (D1) and of xi (D3)
LogD1(R, n) == CDiv(R.dpsi[n+1], R.psi[n+1])
LogD3(R, n) == CDiv(Xi(R.dpsi[n+1], R.dchi[n+1]), Xi(R.psi[n+1], R.chi[n+1]))

(* angular functions pi_n, tau_n at mu = cos(theta): s[n+1] is order n *)
PiSeq(N, mu) ==
  FoldLeft(LAMBDA acc, n:                      \* appends order n+1 from n, n-1  (n >= 1)
     Append(acc, FDivI(FSub(FMulI(FMul(mu, acc[n+1]), 2*n + 1), FMulI(acc[n], n + 1)), n)),
     <<FZero, FInt(1)>>, Idx(N - 1))
TauSeq(N, mu, p) == Map(N + 1, LAMBDA i:
   IF i = 1 THEN FZero
   ELSE LET n == i - 1 IN FSub(FMulI(FMul(mu, p[n+1]), n), FMulI(p[n], n + 1)))
=============================================================================
