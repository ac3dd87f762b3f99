------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How the array arguments of a scattering call describe a batch of        *)
(* spheres: which number is the radius / permittivity of layer l of        *)
(* particle p at wavelength k, and which argument combinations are errors. *)
(*                                                                         *)
(* Arguments ("x.has" = 0 means not given):                                *)
(*   k0             any shape with at most one dimension larger than 1      *)
(*   r_layers       (L) or (Np, L), strictly increasing along L             *)
(*   eps_layers     (L), (Np, L), (L, Nk), (Np|1, L, Nk|1)                  *)
(*                  [a 2D shape that fits both readings means (Np, L)]     *)
(*   eps_env        scalar, (1) or (Nk)                                     *)
(* legacy:  r_c, r_s scalar or (Np); eps_c, eps_s scalar, (Nk), (Np) or     *)
(*          (Np, Nk); r_s, eps_s default to r_c, eps_c                      *)
(* Resolve(c) is [ok |-> FALSE] (must be refused) or                       *)
(*   [ok |-> TRUE, np, L, nk, k, r(p,l), eps(p,l,k), env(k)].               *)
(***************************************************************************)
EXTENDS Obs, FiniteSets

Refused(why) == [ok |-> FALSE, why |-> why]
At1(sh) == IF sh = <<>> THEN <<1>> ELSE sh            \* a scalar is an array of one
Seq1(a) == Map(Len(a.d), LAMBDA i: Num(a.d[i]))
Given(c, f) == f \in DOMAIN c

IncreasingRow(a, L, p) == \A l \in 1..(L-1) :
   FCmp(RealNum(a.d[(p-1)*L + l]), RealNum(a.d[(p-1)*L + l + 1])) < 0

(* layer-major arguments: how the permittivities are laid out *)
LayerHow(np, L, nk, esh) ==
  CASE Len(esh) = 1 /\ esh[1] = L -> "L"
    [] Len(esh) = 2 /\ esh = <<np, L>> -> "PL"
    [] Len(esh) = 2 /\ esh = <<L, nk>> -> "LK"
    [] Len(esh) = 3 /\ esh[1] \in {1, np} /\ esh[2] = L /\ esh[3] \in {1, nk} -> "PLK"
    [] OTHER -> "bad"
\* the numbers of well-formed arguments (also used for directions in argument space)
LayerValues(k, r, e, env) ==
  LET rsh == At1(r.sh)  esh == At1(e.sh)  vsh == At1(env.sh)
      nk  == Prod(Squeeze(k.sh))
      np  == IF Len(rsh) = 1 THEN 1 ELSE rsh[1]
      L   == rsh[Len(rsh)]
      how == LayerHow(np, L, nk, esh)
  IN  [ok |-> TRUE, np |-> np, L |-> L, nk |-> nk, how |-> how,
       k   |-> Map(nk, LAMBDA w: RealNum(k.d[w])),
       r   |-> Map(np, LAMBDA p: Map(L, LAMBDA l: RealNum(r.d[(p-1)*L + l]))),
       eps |-> Map(np, LAMBDA p: Map(L, LAMBDA l: Map(nk, LAMBDA w:
                 Num(e.d[CASE how = "L"   -> l
                           [] how = "PL"  -> (p-1)*L + l
                           [] how = "LK"  -> (l-1)*nk + w
                           [] OTHER -> ((IF esh[1] = 1 THEN 0 ELSE p-1)*L + l - 1)*esh[3]
                                       + (IF esh[3] = 1 THEN 1 ELSE w)])))),
       env |-> Map(nk, LAMBDA w: Num(env.d[IF vsh[1] = 1 THEN 1 ELSE w]))]
ResolveLayers(k, r, e, env) ==
  LET rsh == At1(r.sh)  vsh == At1(env.sh)
      nk  == Prod(Squeeze(k.sh))
      np  == IF Len(rsh) = 1 THEN 1 ELSE rsh[1]
      L   == rsh[Len(rsh)]
  IN  IF Len(Squeeze(k.sh)) > 1 THEN Refused("k0 rank")
      ELSE IF Len(rsh) > 2 THEN Refused("r rank")
      ELSE IF \E p \in 1..np : ~IncreasingRow(r, L, p) THEN Refused("r order")
      ELSE IF LayerHow(np, L, nk, At1(e.sh)) = "bad" THEN Refused("eps shape")
      ELSE IF Len(vsh) # 1 \/ vsh[1] \notin {1, nk} THEN Refused("env shape")
      ELSE LayerValues(k, r, e, env)

(* legacy core/shell arguments *)
ResolveLegacy(c) ==
  LET ksh == Squeeze(c.k.sh)  nk == Prod(ksh)
      rc == c.rc  rs == IF Given(c, "rs") THEN c.rs ELSE c.rc
      ec == c.ec  es == IF Given(c, "es") THEN c.es ELSE c.ec
      np == Prod(At1(rc.sh))
      vsh == At1(c.env.sh)
      same == rc.d = rs.d
      \* number of the permittivity of (p, w) in an array
      pos(a, p, w) == CASE a.sh = <<>> -> 1
                        [] Len(a.sh) = 1 /\ a.sh[1] = np /\ np > 1 -> p
                        [] Len(a.sh) = 1 -> w
                        [] OTHER -> (p-1)*a.sh[2] + w
      fits(a) == \/ a.sh = <<>> /\ np = 1
                 \/ Len(a.sh) = 1 /\ np > 1 /\ a.sh[1] = np
                 \/ Len(a.sh) = 1 /\ np = 1 /\ a.sh[1] = nk
                 \/ a.sh = <<np, nk>>
  IN  IF Len(ksh) > 1 THEN Refused("k0 rank")
      ELSE IF At1(rc.sh) # At1(rs.sh) THEN Refused("r_c / r_s shapes")
      ELSE IF ~same /\ \E p \in 1..np : FCmp(RealNum(rc.d[p]), RealNum(rs.d[p])) >= 0 THEN Refused("r order")
      ELSE IF ~fits(ec) \/ ~fits(es) THEN Refused("eps shape")
      ELSE IF Len(vsh) # 1 \/ vsh[1] \notin {1, nk} THEN Refused("env shape")
      ELSE [ok |-> TRUE, np |-> np, L |-> IF same THEN 1 ELSE 2, nk |-> nk, how |-> "legacy",
            k   |-> Map(nk, LAMBDA w: RealNum(c.k.d[w])),
            r   |-> Map(np, LAMBDA p: IF same THEN <<RealNum(rc.d[p])>> ELSE <<RealNum(rc.d[p]), RealNum(rs.d[p])>>),
            eps |-> Map(np, LAMBDA p: Map(IF same THEN 1 ELSE 2, LAMBDA l: Map(nk, LAMBDA w:
                      IF l = 1 THEN Num(ec.d[pos(ec, p, w)]) ELSE Num(es.d[pos(es, p, w)])))),
            env |-> Map(nk, LAMBDA w: Num(c.env.d[IF vsh[1] = 1 THEN 1 ELSE w]))]

Resolve(c) ==
  IF Given(c, "r") # Given(c, "eps") THEN Refused("r_layers without eps_layers")
  ELSE IF Given(c, "r") THEN ResolveLayers(c.k, c.r, c.eps, c.env)
  ELSE IF ~Given(c, "rc") \/ ~Given(c, "ec") THEN Refused("no geometry")
  ELSE ResolveLegacy(c)
=============================================================================
