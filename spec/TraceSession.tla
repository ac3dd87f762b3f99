---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* A recorded session: the objects of a case (materials, particles) by     *)
(* their definitions, and the events observed on them, judged in order.    *)
(*   mat     a material evaluated: against its definition, and against     *)
(*           what it returned before for the wavelength (the memory)       *)
(*   call    a particle asked for a quantity: against the Mie specification*)
(*           of the sphere its definition describes                        *)
(*   equal   two recorded arrays that must be the same (lg digits)         *)
(*   refuse  a construction or call that must fail                         *)
(*   device  where stored data lives                                       *)
(***************************************************************************)
EXTENDS Material, JScatter, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES case, l, ok, mem

Shape1(sh) == Squeeze(sh)
MatClauses(d, c) ==
  LET n == Len(c.wl.d)
      val(i) == Num(c.obs.d[i])
      bad(i) == LET x == RealNum(c.wl.d[i])  e == EpsAt(d, x)
                IN  ~FLeq(CAbs(CSub(val(i), e)), EpsTol(d, x, e))
      moved(i) == \E q \in mem : q[1] = c.m /\ q[2] = c.keys[i] /\ ~Near(val(i), Num(q[3]), FTen(-6), FTen(-9))
      all(P(_)) == SelectSeq(Idx(n), P)
  IN  IF c.ok = 0 THEN Fail("refused: " \o c.err, <<>>, 0)
      ELSE IF ~(WellFormed(c.obs) /\ c.obs.sh = Shape1(c.wl.sh)) THEN Fail("shape of permittivity", c.obs.sh, 0)
      ELSE IF ~AllFinite(c.obs) THEN Fail("permittivity not finite", <<>>, 0)
      ELSE (IF all(bad) = <<>> THEN <<>> ELSE Fail("permittivity", all(bad)[1], 0))
           \o (IF all(moved) = <<>> THEN <<>> ELSE Fail("permittivity changed", all(moved)[1], 0))
Learn(c) == IF c.op # "mat" \/ c.ok = 0 \/ Len(c.obs.d) # Len(c.wl.d) THEN mem
            ELSE mem \cup {<<c.m, c.keys[i], c.obs.d[i]>> : i \in 1..Len(c.wl.d)}

\* the sphere of a particle at the wavenumbers of a call
Remembered(m, key) == Num((CHOOSE q \in mem : q[1] = m /\ q[2] = key)[3])
Resolved(C, p, c) ==
  LET nk == Prod(c.k.sh)
      L == Prod(p.r.sh)
      esh == p.eps.sh
      env == Map(nk, LAMBDA w: Remembered(p.env, c.keys[w]))
      k == Map(nk, LAMBDA w: RealNum(c.k.d[w]))
      r == << Map(L, LAMBDA i: RealNum(p.r.d[i])) >>
      e(i, w) == IF Given(p, "mats") THEN Remembered(p.mats[i], c.keys[w])
                 ELSE Num(p.eps.d[IF Len(esh) = 1 THEN i ELSE (i - 1) * nk + w])
  IN  [ok |-> TRUE, np |-> 1, L |-> L, nk |-> nk, how |-> "particle", k |-> k, r |-> r, env |-> env,
       eps |-> << Map(L, LAMBDA i: Map(nk, LAMBDA w: e(i, w))) >>]
CallClauses(C, c) ==
  LET R == Resolved(C, C.parts[c.p], c)
  IN  IF c.obs.ok = 0 THEN Fail("refused: " \o c.obs.err, 0, 0)
      ELSE CASE c.kind = "coef" -> CoefClauses(c, R)
             [] c.kind = "cs"   -> CsClauses(c, R) \o SpectrumClauses(c, R)
             [] c.kind = "ang"  -> AngClauses(c, R) \o SpectrumClauses(c, R)
             [] c.kind = "near" -> NearClauses(c, R)

EqualClauses(c) ==
  IF ~(WellFormed(c.a) /\ WellFormed(c.b) /\ c.a.sh = c.b.sh /\ c.a.c = c.b.c) THEN Fail(c.what \o ": shapes", c.b.sh, 0)
  ELSE IF c.a.d = c.b.d THEN <<>>
  ELSE IF c.lg = 99 \/ ~AllFinite(c.a) \/ ~AllFinite(c.b) THEN Fail(c.what \o ": differs", <<>>, 0)
  ELSE LET n == Len(c.a.d)
           x(i) == Num(c.a.d[i])  y(i) == Num(c.b.d[i])
           top == FoldLeft(LAMBDA m, i: FMax(m, CAbs(x(i))), FZero, Idx(n))
           bad == SelectSeq(Idx(n), LAMBDA i: ~FLeq(CAbs(CSub(x(i), y(i))), FMul(FTen(-c.lg), FAdd(FMul(FTen(-3), top), CAbs(x(i))))))
       IN  IF bad = <<>> THEN <<>> ELSE Fail(c.what \o ": differs", bad[1], Log10(FDiv(CAbs(CSub(x(bad[1]), y(bad[1]))), FAdd(top, FTen(-100)))))

JudgeEvent(C, c) ==
  CASE c.op = "mat" -> MatClauses(C.mats[c.m], c)
    [] c.op = "call" -> CallClauses(C, c)
    [] c.op = "equal" -> EqualClauses(c)
    [] c.op = "ok" -> IF c.ok = 1 THEN <<>> ELSE Fail("refused: " \o c.err, 0, 0)
    [] c.op = "refuse" -> IF c.ok = 0 THEN <<>> ELSE Fail("should be refused: " \o c.what, 0, 0)
    [] c.op = "device" ->
         LET bad == SelectSeq(c.seen, LAMBDA q: q[2] # c.want)
         IN  IF bad = <<>> THEN <<>> ELSE Fail("device of " \o bad[1][1] \o ": " \o bad[1][2], 0, 0)
Init == case \in 1..Len(Cases) /\ l = 1 /\ ok = TRUE /\ mem = {}
Next == /\ l <= Len(Cases[case].calls)
        /\ LET c == Cases[case].calls[l]
               f == JudgeEvent(Cases[case], c)
           IN  /\ ok' = (f = <<>>)
               /\ f # <<>> => PrintT("@@" \o ToJson([case |-> case, call |-> l, fail |-> f]))
               /\ mem' = Learn(c)
        /\ l' = l + 1 /\ UNCHANGED case
=============================================================================
