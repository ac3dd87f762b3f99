------------------------------ MODULE GradSpace ------------------------------
(***************************************************************************)
(* Gradient requests: quantity, solver, entry point, batch, arguments to   *)
(* differentiate with respect to, truncation.  Complete requests are       *)
(* exported for replay.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Ops == {"coef", "internal", "cs", "ang", "near"}
Solvers == {"pena", "torch", "scipy"}
Apis == {"ms", "pt"}
Args == {"k", "r", "eps", "env", "probe", "theta"}
VARIABLES at, c
Init == at = "op" /\ c = [x |-> 0]
Put(f, v, a) == c' = c @@ (f :> v) /\ at' = a
Has(op) == {"k", "r", "eps", "env"} \cup (IF op = "near" THEN {"probe"} ELSE IF op = "ang" THEN {"theta"} ELSE {})
Op     == at = "op" /\ \E o \in Ops : Put("op", o, "solver")
Solver == at = "solver" /\ \E s \in Solvers : (c.op = "internal" => s # "pena") /\ Put("solver", s, "L")
Layers == at = "L" /\ \E n \in 1..3 : (n = 3 => c.solver = "pena") /\ Put("L", n, "batch")
Batch  == at = "batch" /\ \E p \in 1..2, k \in 1..2 : c' = c @@ [np |-> p, nk |-> k] /\ at' = "eps"
Eps    == at = "eps" /\ \E e \in {"PL", "PLK", "1LK"} : Put("el", e, "api")
\* a Particle is one sphere in a constant host
Api    == at = "api" /\ \E a \in Apis : (a = "pt" => c.np = 1 /\ c.op # "internal") /\ Put("api", a, "wrt")
Wrt    == /\ at = "wrt"
          /\ \E w \in {{x} : x \in Args} \cup {Has(c.op), {"r", "eps"}} :
               w \subseteq Has(c.op) /\ (c.api = "pt" => "env" \notin w) /\ Put("wrt", w, "order")
Order  == at = "order" /\ \E o \in {"auto", "few", "more"} : Put("order", o, "done")
Next == Op \/ Solver \/ Layers \/ Batch \/ Eps \/ Api \/ Wrt \/ Order
Spec == Init /\ [][Next]_<<at, c>>
Legal == at = "done" => (c.wrt # {} /\ c.wrt \subseteq Has(c.op) /\ (c.solver # "pena" => c.L <= 2))
Export == at = "done" => PrintT("@@" \o ToJson(c))
=============================================================================
