-------------------------------- MODULE JGrad --------------------------------
(***************************************************************************)
(* Gradients.  A recorded gradient is                                      *)
(*   arguments as in Layout, N (order), outs: sequence of [q, w] (output   *)
(*   name, weights of its full shape), dir: a direction in argument space  *)
(*   (arrays shaped like the arguments), grad: the library's gradient of   *)
(*     loss = sum over outs of Re(conj(w) . out)                           *)
(* for the arguments given in `wrt`.  For a complex argument z the library *)
(* (as PyTorch) returns dloss/dRe z + i dloss/dIm z, so that the           *)
(* derivative along a direction d is Re(conj(grad) . d).                   *)
(* The reference is the central difference of the specification's loss     *)
(* with step 1e-50, in 1200-bit arithmetic.                                *)
(***************************************************************************)
EXTENDS JScatter

\* Re(conj(w) x)
Dot(w, x) == FAdd(FMul(w[1], x[1]), FMul(w[2], x[2]))
DotN(n, a(_), b(_)) == FSum(Map(n, LAMBDA i: Dot(a(i), b(i))))

Step == FTen(-50)
\* the resolved arguments, moved by t along the resolved direction
Move(R, D, t) ==
  [R EXCEPT !.k   = Map(R.nk, LAMBDA w: FAdd(R.k[w], FMul(t, D.k[w]))),
            !.env = Map(R.nk, LAMBDA w: CAdd(R.env[w], CScale(t, D.env[w]))),
            !.r   = Map(R.np, LAMBDA p: Map(R.L, LAMBDA l: FAdd(R.r[p][l], FMul(t, D.r[p][l])))),
            !.eps = Map(R.np, LAMBDA p: Map(R.L, LAMBDA l: Map(R.nk, LAMBDA w: CAdd(R.eps[p][l][w], CScale(t, D.eps[p][l][w])))))]
MoveSeq(a, d, t) == Map(Len(a.d), LAMBDA i: FAdd(RealNum(a.d[i]), FMul(t, RealNum(d.d[i]))))

Weight(o, ix) == At(o.w, ix)
\* contribution of particle p at wavelength w; x: angles or flat positions (moved), fixed regions
LossCoef(c, s, p, w) ==
  LET N == c.N
      T == Tables(s, N)
      ab == Coefs(s, T, N)
      sol == IF c.internal = 1 THEN Solve(s, T, N) ELSE <<>>
      val(q, n) == CASE q = "a_n" -> ab[n][1] [] q = "b_n" -> ab[n][2]
                     [] OTHER -> LET i == CHOOSE j \in 1..6 : InternalNames[j][1] = q
                                     m == InternalNames[i]
                                     z == sol[n][m[2]].amps[m[3]][m[4]]
                                 IN  IF m[4] = 2 THEN CNeg(z) ELSE z
  IN  FSum(Map(Len(c.outs), LAMBDA j: LET o == c.outs[j] IN
        DotN(N, LAMBDA n: Weight(o, <<n, p, w>>), LAMBDA n: val(o.q, n))))
LossCs(c, s, p, w) ==
  LET N == c.N  kh == HostK(s)
      ab == CoefPairs(s, N)
      rL == s.r[Len(s.r)]  geo == FMul(FPi, FMul(rL, rL))
      mp == Map(2, LAMBDA t: Map(N, LAMBDA n: CsOf(kh, n, ab[n][t])))
      term(o) ==
        LET m(t, n) == LET v == mp[t][n][o.i] IN CR(IF o.eff = 1 THEN FDiv(v, geo) ELSE v)
        IN  IF o.q = "cs_geo" THEN Dot(Weight(o, <<1, p, w>>), CR(geo))
            ELSE IF o.mult = 1 THEN FSum(Map(2, LAMBDA t: DotN(N, LAMBDA n: Weight(o, <<t, n, p, w>>), LAMBDA n: m(t, n))))
            ELSE Dot(Weight(o, <<p, w>>), CAdd(CSum(Map(N, LAMBDA n: m(1, n))), CSum(Map(N, LAMBDA n: m(2, n)))))
  IN  FSum(Map(Len(c.outs), LAMBDA j: term(c.outs[j])))
LossAng(c, s, p, w, th) ==
  LET ab == CoefPairs(s, c.N)
      amp == Map(Len(th), LAMBDA t: Amplitudes(ab, CCosSin(CR(th[t]))[1][1]))
      val(q, t) == LET i1 == CAbs2(amp[t][1])  i2 == CAbs2(amp[t][2]) IN
        CASE q = "S1" -> amp[t][1] [] q = "S2" -> amp[t][2]
          [] q = "i_per" -> CR(i1) [] q = "i_par" -> CR(i2)
          [] q = "i_unpol" -> CR(FDivI(FAdd(i1, i2), 2))
          [] q = "pol_degree" -> CR(FDiv(FSub(i1, i2), FAdd(i1, i2)))
  IN  FSum(Map(Len(c.outs), LAMBDA j: LET o == c.outs[j] IN
        DotN(Len(th), LAMBDA t: Weight(o, <<p, w, t>>), LAMBDA t: val(o.q, t))))
LossNear(c, s, p, w, xs, s0) ==
  LET sol == Solve(s, Tables(s, c.N), c.N)
      e0 == Num(c.e0)
      np == Len(xs) \div 3
      pt(i) == <<xs[3*i - 2], xs[3*i - 1], xs[3*i]>>
      one(i) ==
        LET reg == RegionOf(s0, Sph(Point(c.probe, i)).r)
            f == FieldIn(s, sol, pt(i), reg)
            ei == CMul(e0, Incident(s, pt(i)))
            Ei == <<ei, CZero, CZero>>  Hi == <<CZero, CMul(s.nh, ei), CZero>>
            Es == V3Mul(e0, f.E)  Hs == V3Mul(e0, f.H)
            out == reg = NL(s) + 1
            val(q) == CASE q = "E_i" -> Ei [] q = "H_i" -> Hi [] q = "E_s" -> Es [] q = "H_s" -> Hs
                        [] q = "E_t" -> IF out THEN V3Add(Ei, Es) ELSE Es
                        [] q = "H_t" -> IF out THEN V3Add(Hi, Hs) ELSE Hs
        IN  FSum(Map(Len(c.outs), LAMBDA j: LET o == c.outs[j]  v == val(o.q) IN
              DotN(3, LAMBDA m: Weight(o, <<p, w, i, m>>), LAMBDA m: v[m])))
  IN  FSum(Map(np, LAMBDA i: one(i)))

Loss(c, R0, D, t) ==
  LET R == Move(R0, D, t)
      xs == CASE c.of = "ang" -> MoveSeq(c.theta, c.dir.theta, t)
              [] c.of = "near" -> MoveSeq(c.probe, c.dir.probe, t)
              [] OTHER -> <<>>
  IN  FSum(Map(R.np * R.nk, LAMBDA i:
        LET p == 1 + ((i - 1) \div R.nk)  w == 1 + ((i - 1) % R.nk)
            s == Sphere(R, p, w)
        IN  CASE c.of = "coef" -> LossCoef(c, s, p, w)
              [] c.of = "cs" -> LossCs(c, s, p, w)
              [] c.of = "ang" -> LossAng(c, s, p, w, xs)
              [] c.of = "near" -> LossNear(c, s, p, w, xs, Sphere(R0, p, w))))

GradClauses(c) ==
  LET R == LayerValues(c.k, c.r, c.eps, c.env)
      D == LayerValues(c.dir.k, c.dir.r, c.dir.eps, c.dir.env)
      bad == SelectSeq(c.wrt, LAMBDA f: ~(WellFormed(c.grad[f]) /\ c.grad[f].sh = c[f].sh /\ AllFinite(c.grad[f])))
      got(f) == LET g == c.grad[f]  d == c.dir[f] IN DotN(Len(g.d), LAMBDA i: Num(g.d[i]), LAMBDA i: Num(d.d[i]))
      mag(f) == LET g == c.grad[f]  d == c.dir[f] IN FSum(Map(Len(g.d), LAMBDA i: FMul(CAbs(Num(g.d[i])), CAbs(Num(d.d[i])))))
      G == FSum(Map(Len(c.wrt), LAMBDA i: got(c.wrt[i])))
      S == FSum(Map(Len(c.wrt), LAMBDA i: mag(c.wrt[i])))
      ref == FDiv(FSub(Loss(c, R, D, Step), Loss(c, R, D, FNeg(Step))), FMulI(Step, 2))
      \* (sums over orders cancel, and their factors are rounded to single precision)
      tol == FMul(FTen(IF c.of = "near" THEN -3 ELSE -4), FAdd(S, FAbs(ref)))
  IN  IF bad # <<>> THEN Fail("gradient for " \o bad[1], c.grad[bad[1]].sh, 0)
      ELSE IF FLeq(FAbs(FSub(G, ref)), tol) THEN <<>>
      ELSE << [clause |-> "gradient", at |-> c.wrt, lg |-> Log10(FDiv(FAbs(FSub(G, ref)), FAdd(FAbs(ref), FTen(-100)))),
               scale |-> Log10(FAdd(S, FTen(-100))), ref |-> Log10(FAdd(FAbs(ref), FTen(-100)))] >>
=============================================================================
