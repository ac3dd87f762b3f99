----------------------------- MODULE TraceScatter -----------------------------
(* Recorded scattering calls, and relations between them ("rel"), judged one
   by one.  "free" calls are only used in relations. *)
EXTENDS JRel, JEnergy, JTrunc, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES case, l, ok
JudgeCall(C, c) ==
  IF c.op = "rel" THEN RelClauses(C[c.i], C[c.j], c)
  ELSE IF c.op = "energy" THEN EnergyClauses(C, c)
  ELSE IF c.op = "trunc" THEN TruncClauses(C[c.i], c)
  ELSE IF c.op = "finite" THEN FiniteClauses(C[c.i])
  ELSE IF Given(c, "free") THEN <<>>
  ELSE Judge(c, LAMBDA R:
   CASE c.op = "coef" -> CoefClauses(c, R)
     [] c.op = "cs"   -> CsClauses(c, R) \o SpectrumClauses(c, R)
     [] c.op = "ang"  -> AngClauses(c, R) \o SpectrumClauses(c, R)
     [] c.op = "near" -> NearClauses(c, R))
Init == case \in 1..Len(Cases) /\ l = 1 /\ ok = TRUE
Next == /\ l <= Len(Cases[case].calls)
        /\ LET f == JudgeCall(Cases[case].calls, Cases[case].calls[l])
           IN  /\ ok' = (f = <<>>)
               /\ f # <<>> => PrintT("@@" \o ToJson([case |-> case, call |-> l, fail |-> f]))
        /\ l' = l + 1 /\ UNCHANGED case
=============================================================================
