-------------------------------- MODULE JRel --------------------------------
(***************************************************************************)
(* Relations between the recorded results of two calls ci, cj of the same  *)
(* function: entry (p, w, t) of cj must equal entry (pm[p], wm[w], tm[t])  *)
(* of ci (particles, wavelengths, angles or positions).  With identity     *)
(* maps: the two calls agree; with one-element maps: the batched call      *)
(* contains the single one; with permutations: reordering.                 *)
(*   rel.kind  "batch": same computation, only rounding may differ         *)
(*             "equal": equal physics, different arithmetic                *)
(*   rel.lg    tolerance 10^-lg of the largest entry (and of the entry     *)
(*             itself for "batch")                                         *)
(*   rel.s     lengths of ci are s times those of cj (cross sections s^2)  *)
(*   rel.h     H of ci is h times H of cj                                  *)
(***************************************************************************)
EXTENDS JScatter

NPos(c) == CASE c.op = "ang" -> Len(c.theta.d) [] c.op = "near" -> Len(c.probe.d) \div 3 [] OTHER -> 1
IsCs(nm) == nm \in {"cs_ext", "cs_sca", "cs_abs", "cs_geo", "cs_ext_multipoles", "cs_sca_multipoles", "cs_abs_multipoles"}
IsH(nm) == nm \in {"H_i", "H_s", "H_t"}
\* shape of an output and the flat positions of the entries of (p, w, t)
RelNames(c) == CASE c.op = "coef" -> <<"a_n", "b_n">>
   [] c.op = "cs" -> <<"cs_ext", "cs_sca", "cs_abs", "q_ext", "q_sca", "q_abs", "cs_ext_multipoles", "cs_sca_multipoles",
                       "cs_abs_multipoles", "q_ext_multipoles", "q_sca_multipoles", "q_abs_multipoles">>
   [] c.op = "ang" -> <<"S1", "S2", "i_per", "i_par", "i_unpol">>
   [] c.op = "near" -> NearNames
Multi(nm) == nm \in {"cs_ext_multipoles", "cs_sca_multipoles", "cs_abs_multipoles", "q_ext_multipoles", "q_sca_multipoles", "q_abs_multipoles"}
RelShape(c, R, nm, N) == CASE c.op = "coef" -> <<N, R.np, R.nk>>
   [] Multi(nm) -> <<2, N, R.np, R.nk>>
   [] c.op = "cs" -> <<R.np, R.nk>>
   [] c.op = "ang" -> <<R.np, R.nk, NPos(c)>>
   [] c.op = "near" -> <<R.np, R.nk, NPos(c), 3>>
\* index tuples (before p, w) and (after) of one entry
Pre(c, nm, N) == IF c.op = "coef" THEN Map(N, LAMBDA n: <<n>>)
                 ELSE IF Multi(nm) THEN Map(2*N, LAMBDA i: << 1 + ((i-1) \div N), 1 + ((i-1) % N) >>)
                 ELSE << <<>> >>
NOrd(c) == IF c.op \in {"coef", "cs"} THEN NUsed(c) ELSE 0
PostN(c) == IF c.op = "near" THEN 3 ELSE 1
Post(c, t, d) == IF c.op = "near" THEN <<t, d>> ELSE IF c.op = "ang" THEN <<t>> ELSE <<>>

RelArr(ci, cj, Ri, Rj, rel, nm) ==
  LET Ni == NOrd(ci)  Nj == NOrd(cj)  N == IF Ni < Nj THEN Ni ELSE Nj
      shi == RelShape(ci, Ri, nm, Ni)  shj == RelShape(cj, Rj, nm, Nj)
      good(c, sh) == nm \in DOMAIN c.obs.v /\ ShapeOk(c, c.obs.v[nm], sh) /\ AllFinite(c.obs.v[nm])
  IN  IF ~good(ci, shi) THEN Fail("shape of " \o nm, rel.i, 0)
      ELSE IF ~good(cj, shj) THEN Fail("shape of " \o nm, rel.j, 0)
      ELSE LET ai == Arr(ci, nm, shi)  aj == Arr(cj, nm, shj)
               f == FMul(IF Given(rel, "s") /\ IsCs(nm) THEN FMul(RealNum(rel.s), RealNum(rel.s)) ELSE FInt(1),
                         IF Given(rel, "h") /\ IsH(nm) THEN RealNum(rel.h) ELSE FInt(1))
               nt == Len(rel.tm)
               tol == FTen(-rel.lg)
               one(p, w) ==
                 LET items == Concat(Map(Len(Pre(cj, nm, N)), LAMBDA a: Concat(Map(nt, LAMBDA t: Map(PostN(cj), LAMBDA d:
                        << At(aj, Pre(cj, nm, N)[a] \o <<p, w>> \o Post(cj, t, d)),
                           At(ai, Pre(cj, nm, N)[a] \o <<rel.pm[p], rel.wm[w]>> \o Post(ci, rel.tm[t], d)) >>)))))
                     big == FoldLeft(LAMBDA m, x: FMax(m, CAbs(x[2])), FTen(-200), items)
                 IN  First(Concat(Map(Len(items), LAMBDA k:
                       LET o == CScale(f, items[k][1])  r == items[k][2]
                           d == CAbs(CSub(o, r))
                       IN  IF FLeq(d, FMul(tol, IF rel.kind = "batch" THEN FAdd(CAbs(r), FMul(FTen(-3), big)) ELSE big)) THEN <<>>
                           ELSE << [clause |-> nm, at |-> <<p, w, k>>, lg |-> Log10(FDiv(d, big)), calls |-> <<rel.i, rel.j>>] >>)))
           IN  IF nm \in {"cs_geo"} THEN <<>> ELSE EachPair(Rj, LAMBDA p, w: one(p, w))
RelClauses(ci, cj, rel) ==
  LET Ri == Resolve(ci)  Rj == Resolve(cj)
  IN  IF ~Ri.ok \/ ~Rj.ok THEN Fail("relation of refused calls", 0, 0)
      ELSE IF ci.obs.ok = 0 \/ cj.obs.ok = 0 THEN Fail("refused", <<rel.i, rel.j>>, 0)
      ELSE LET nms == IF Given(rel, "names") THEN rel.names ELSE RelNames(cj)
           IN  First(Concat(Map(Len(nms), LAMBDA i: RelArr(ci, cj, Ri, Rj, rel, nms[i]))))
=============================================================================
