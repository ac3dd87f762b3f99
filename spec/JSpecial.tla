------------------------------ MODULE JSpecial ------------------------------
(***************************************************************************)
(* Judging recorded evaluations of the special functions.  A recorded      *)
(* evaluation is [N, z, outs, grads]: highest order, arguments, and for    *)
(* every output its meaning q and the values v, of shape (N+1) x shape(z). *)
(* Each function is known with its derivative, so a deviation is measured  *)
(* against what a rounding of the argument would do.                       *)
(***************************************************************************)
EXTENDS Mie, Obs

NN1(n, z) == CDivI(CMulI(CInv(CMul(z, z)), n * (n + 1)), 1)           \* n(n+1)/z^2
SphSecond(f, d, n, z) == CSub(CMul(CSub(NN1(n, z), COne), f), CMulI(CDiv(d, z), 2))
RicSecond(u, n, z) == CMul(CSub(NN1(n, z), COne), u)
\* <<value, derivative>> of the function called q, order n
ValSlope(q, R, n, z) ==
  LET pair(u, d) == <<u, d>>
      sph(f, d) == <<f, d>>
      dsph(f, d) == <<d, SphSecond(f, d, n, z)>>
      xi == Xi(R.psi[n+1], R.chi[n+1])  dxi == Xi(R.dpsi[n+1], R.dchi[n+1])
      lg(D) == <<D, CSub(CSub(NN1(n, z), COne), CMul(D, D))>>
  IN  CASE q = "j"    -> sph(SphJ(R, n, z), SphJD(R, n, z))
        [] q = "y"    -> sph(SphY(R, n, z), SphYD(R, n, z))
        [] q = "h"    -> sph(SphH(R, n, z), SphHD(R, n, z))
        [] q = "dj"   -> dsph(SphJ(R, n, z), SphJD(R, n, z))
        [] q = "dy"   -> dsph(SphY(R, n, z), SphYD(R, n, z))
        [] q = "dh"   -> dsph(SphH(R, n, z), SphHD(R, n, z))
        [] q = "psi"  -> <<R.psi[n+1], R.dpsi[n+1]>>
        [] q = "chi"  -> <<R.chi[n+1], R.dchi[n+1]>>
        [] q = "xi"   -> <<xi, dxi>>
        [] q = "dpsi" -> <<R.dpsi[n+1], RicSecond(R.psi[n+1], n, z)>>
        [] q = "dchi" -> <<R.dchi[n+1], RicSecond(R.chi[n+1], n, z)>>
        [] q = "dxi"  -> <<dxi, RicSecond(xi, n, z)>>
        [] q = "D1"   -> lg(LogD1(R, n))
        [] q = "D3"   -> lg(LogD3(R, n))
\* what a value may lose when it is put together from larger parts
Parts(q, R, n, z) ==
  LET over(f) == FMulI(FDiv(CAbs(f), CAbs(z)), n + 1)
      j == SphJ(R, n, z)  y == SphY(R, n, z)
  IN CASE q = "h"  -> FAdd(CAbs(j), CAbs(y))
       [] q = "dj" -> over(j)
       [] q = "dy" -> over(y)
       [] q = "dh" -> FAdd(FAdd(CAbs(SphJD(R, n, z)), CAbs(SphYD(R, n, z))), FAdd(over(j), over(y)))
       [] q = "dpsi" -> over(R.psi[n+1])
       [] q = "dchi" -> over(R.chi[n+1])
       [] q = "xi" -> FAdd(CAbs(R.psi[n+1]), CAbs(R.chi[n+1]))
       [] q = "dxi" -> FAdd(FAdd(CAbs(R.dpsi[n+1]), CAbs(R.dchi[n+1])), FAdd(over(R.psi[n+1]), over(R.chi[n+1])))
       [] OTHER -> FZero

Huge == FTen(100)  Tiny == FTen(-100)
\* a value beyond the range of doubles may saturate, but not turn small (and the reverse)
Agrees(x, f, slack) ==
  IF FCmp(CAbs(f), Huge) > 0 THEN ~(IsFiniteNum(x)) \/ FCmp(CAbs(Num(x)), FTen(99)) >= 0
  ELSE IsFiniteNum(x) /\ LET d == CAbs(CSub(Num(x), f)) IN FLeq(d, FAdd(slack, FTen(-99)))
Lg(x, f) == IF IsFiniteNum(x) THEN Log10(FDiv(CAbs(CSub(Num(x), f)), FAdd(CAbs(f), FTen(-60)))) ELSE 999

\* a derivative of the function F at z: w.r.t. rounding of the argument
Slack(tr, f, d, parts, az) ==
  FAdd(FMul(tr, CAbs(f)), FMul(FTen(-12), FAdd(FMul(FMax(az, FInt(1)), CAbs(d)), parts)))
OutShape(N, z) == <<N + 1>> \o (IF Len(z.sh) = 0 THEN <<1>> ELSE z.sh)
FnClauses(c) ==
  LET ns == Len(c.z.d)
      N == c.N
      Ne == IF N < 2 THEN 2 ELSE N
      bad == SelectSeq(c.outs, LAMBDA o: ~(o.v.sh = OutShape(N, c.z) /\ WellFormed(o.v)))
      badg == SelectSeq(c.grads, LAMBDA o: ~(o.v.sh = c.z.sh /\ WellFormed(o.v)))
      one(i) ==
        LET z == Num(c.z.d[i])
            R == Riccati(Ne, z)
            az == CAbs(z)
            \* the gradient of the real part; a real argument has a real gradient
            Conj(w) == IF c.z.c = 0 THEN CR(w[1]) ELSE CConj(w)
            out(o) == FoldLeft(LAMBDA acc, k:
              LET n == k - 1
                  w == ValSlope(o.q, R, n, z)
                  x == o.v.d[n * ns + i]
              IN  IF Agrees(x, w[1], Slack(FTen(-9), w[1], w[2], Parts(o.q, R, n, z), az)) THEN acc
                  ELSE IF acc # <<>> THEN acc ELSE Fail(o.q, <<n, i>>, Lg(x, w[1])), <<>>, Idx(N + 1))
            grad(o) ==
              LET w == ValSlope("d" \o o.q, R, o.n, z)
                  x == o.v.d[i]
                  f == Conj(w[1])
              IN  IF Agrees(x, f, Slack(FTen(-8), f, w[2], Parts("d" \o o.q, R, o.n, z), az)) THEN <<>>
                  ELSE Fail("gradient of " \o o.q, <<o.n, i>>, Lg(x, f))
            lgrad(o) ==
              LET w == ValSlope(o.q, R, o.n, z)
                  x == o.v.d[i]
                  f == Conj(w[2])
                  \* the derivative of a logarithmic derivative is a difference of larger terms
                  sc == FAdd(FAdd(CAbs2(w[1]), CAbs(NN1(o.n, z))), FInt(1))
              IN  IF Agrees(x, f, FAdd(FMul(FTen(-8), CAbs(f)), FMul(FMul(FTen(-11), FMax(az, FInt(1))), FMul(sc, FAdd(CAbs(w[1]), FInt(1)))))) THEN <<>>
                  ELSE Fail("gradient of " \o o.q, <<o.n, i>>, Lg(x, f))
        IN  FoldLeft(LAMBDA a, o: a \o out(o), <<>>, c.outs)
            \o FoldLeft(LAMBDA a, o: a \o (IF o.q \in {"D1", "D3"} THEN lgrad(o) ELSE grad(o)), <<>>, c.grads)
  IN  IF bad # <<>> THEN Fail("shape of " \o bad[1].q, bad[1].v.sh, 0)
      ELSE IF badg # <<>> THEN Fail("shape of gradient", badg[1].v.sh, 0)
      ELSE FoldLeft(LAMBDA a, i: a \o one(i), <<>>, Idx(ns))

\* Q_n(z1, z2) = psi_n(z1) xi_n(z2) / (xi_n(z1) psi_n(z2)), orders 1..N
RatioClauses(c) ==
  LET N == c.N  Ne == IF N < 2 THEN 2 ELSE N
      v == c.outs[1].v
      one(i) ==
        LET z1 == Num(c.z.d[i])  z2 == Num(c.z2.d[i])
            R1 == Riccati(Ne, z1)  R2 == Riccati(Ne, z2)
            xi(R, n) == Xi(R.psi[n+1], R.chi[n+1])
        IN  FoldLeft(LAMBDA acc, n:
              LET f == CDiv(CMul(R1.psi[n+1], xi(R2, n)), CMul(xi(R1, n), R2.psi[n+1]))
                  D(R) == FAdd(CAbs(LogD1(R, n)), CAbs(LogD3(R, n)))
                  cond == FAdd(FInt(1), FAdd(FMul(CAbs(z1), D(R1)), FMul(CAbs(z2), D(R2))))
                  x == v.d[n * Len(c.z.d) + i]
              IN  IF Agrees(x, f, FMul(CAbs(f), FAdd(FTen(-9), FMul(FTen(-12), cond)))) THEN acc
                  ELSE IF acc # <<>> THEN acc ELSE Fail("Q", <<n, i>>, Lg(x, f)), <<>>, Idx(N))
  IN  IF ~(v.sh = OutShape(N, c.z) /\ WellFormed(v)) THEN Fail("shape of Q", v.sh, 0)
      ELSE FoldLeft(LAMBDA a, i: a \o one(i), <<>>, Idx(Len(c.z.d)))

PiTauClauses(c) ==
  LET N == c.N
      ns == Len(c.z.d)
      sh == <<N + 1>> \o c.z.sh
      bad == SelectSeq(c.outs, LAMBDA o: ~(o.v.sh = sh /\ WellFormed(o.v)))
      one(i) ==
        LET mu == Num(c.z.d[i])[1]
            p == PiSeq(Max2(N, 2), mu)  t == TauSeq(Max2(N, 2), mu, p)
            chk(o, ref) == FoldLeft(LAMBDA acc, n:
               LET x == o.v.d[n * ns + i]  f == CR(ref[n+1]) IN
               IF Agrees(x, f, FAdd(FMul(FTen(-10), CAbs(f)), FMulI(FTen(-12), n * (n + 1)))) THEN acc
               ELSE IF acc # <<>> THEN acc ELSE Fail(o.q, <<n, i>>, Lg(x, f)), <<>>, Idx(N))
        IN  chk(c.outs[1], p) \o chk(c.outs[2], t)
  IN  IF bad # <<>> THEN Fail("shape of " \o bad[1].q, bad[1].v.sh, 0)
      ELSE FoldLeft(LAMBDA a, i: a \o one(i), <<>>, Idx(ns))

\* vector spherical harmonics: k (Nk), nm (Np, Nk), pos (Npos, 3) given by the cosines and sines of its angles
VshClauses(c) ==
  LET N == c.N
      Np == c.nm.sh[1]  Nk == c.k.sh[1]  Nr == c.r.sh[1]
      sh == <<N, Np, Nk, Nr, 3>>
      bad == SelectSeq(c.outs, LAMBDA o: ~(o.v.sh = sh /\ WellFormed(o.v)))
      one(a, b, i) ==
        LET cs(x, k) == CCosSin(Num(x.d[i]))[k][1]
            g == [ct |-> cs(c.theta, 1), st |-> cs(c.theta, 2), cp |-> cs(c.phi, 1), sp |-> cs(c.phi, 2)]
            rho == CScale(FMul(Num(c.k.d[b])[1], Num(c.r.d[i])[1]), At(c.nm, <<a, b>>))
            R == Riccati(Max2(N, 2), rho)
            p == PiSeq(Max2(N, 2), g.ct)  t == TauSeq(Max2(N, 2), g.ct, p)
            az == CAbs(rho)
            inv == FMax(FInt(1), FDiv(FInt(1), az))
            u(n) == CASE c.kind = 1 -> <<R.psi[n+1], R.dpsi[n+1]>>
                      [] c.kind = 2 -> <<CNeg(R.chi[n+1]), CNeg(R.dchi[n+1])>>      \* y_n
                      [] c.kind = 3 -> <<Xi(R.psi[n+1], R.chi[n+1]), Xi(R.dpsi[n+1], R.dchi[n+1])>>
            ref(q, n) == LET w == u(n) IN
              CASE q = "Mo" -> VshM(g, "o", p[n+1], t[n+1], w[1], rho)
                [] q = "Me" -> VshM(g, "e", p[n+1], t[n+1], w[1], rho)
                [] q = "No" -> VshN(g, "o", n, p[n+1], t[n+1], w[1], w[2], rho)
                [] q = "Ne" -> VshN(g, "e", n, p[n+1], t[n+1], w[1], w[2], rho)
            \* rounding of the position, and the safeguard at the origin (1e-8, documented)
            tol(q, n) == LET w == u(n)
                             A == FDiv(CAbs(w[1]), az)  D == FDiv(CAbs(w[2]), az)
                             parts == IF c.kind = 3 THEN FDiv(FAdd(CAbs(R.psi[n+1]), CAbs(R.chi[n+1])), az) ELSE FZero
                             \* the angular functions may be off by a rounding relative to their largest values
                             ang == FAdd(FAdd(FAbs(p[n+1]), FAbs(t[n+1])), FMulI(FTen(-4), n * (n + 1)))
                         IN  FMul(FMul(FMul(FMulI(FTen(-8), 4 * (n + 2)), inv), ang),
                                  FAdd(FAdd(FAdd(A, D), FMulI(FDiv(A, az), n * (n + 1))), FMul(FTen(-4), parts)))
        IN  FoldLeft(LAMBDA acc, o: acc \o FoldLeft(LAMBDA ac, n:
               LET f == ref(o.q, n)  s == tol(o.q, n)
                   off == SelectSeq(<<1, 2, 3>>, LAMBDA m: ~Agrees(Raw(o.v, <<n, a, b, i, m>>), f[m], s))
               IN  IF off = <<>> \/ ac # <<>> THEN ac
                   ELSE Fail(o.q, <<n, a, b, i, off[1]>>, Lg(Raw(o.v, <<n, a, b, i, off[1]>>), f[off[1]])), <<>>, Idx(N)), <<>>, c.outs)
  IN  IF bad # <<>> THEN Fail("shape of " \o bad[1].q, bad[1].v.sh, 0)
      ELSE FoldLeft(LAMBDA x, a: x \o FoldLeft(LAMBDA y, b: y \o FoldLeft(LAMBDA w, i: w \o one(a, b, i), <<>>, Idx(Nr)), <<>>, Idx(Nk)), <<>>, Idx(Np))
=============================================================================
