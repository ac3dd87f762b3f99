------------------------------ MODULE TraceGrad ------------------------------
(* Recorded gradients, judged one by one. *)
EXTENDS JGrad, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES case, l, ok
JudgeCall(c) == IF c.ok = 0 THEN Fail("refused: " \o c.err, <<>>, 0) ELSE GradClauses(c)
Init == case \in 1..Len(Cases) /\ l = 1 /\ ok = TRUE
Next == /\ l <= Len(Cases[case].calls)
        /\ LET f == JudgeCall(Cases[case].calls[l])
           IN  /\ ok' = (f = <<>>)
               /\ f # <<>> => PrintT("@@" \o ToJson([case |-> case, call |-> l, fail |-> f]))
        /\ l' = l + 1 /\ UNCHANGED case
=============================================================================
