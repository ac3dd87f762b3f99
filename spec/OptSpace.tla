------------------------------- MODULE OptSpace -------------------------------
(***************************************************************************)
(* The same measurement asked for in different ways.  A request has        *)
(* options that must not matter (solver, arithmetic precision, length unit,*)
(* host given as such or absorbed into relative permittivities and         *)
(* wavelength, number of orders beyond the necessary ones); every step     *)
(* changes one of them.  Related(req0, req) says what then relates both    *)
(* results: factor on cross sections s^2, on H fields h, and the accuracy. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps
Ops == {"coef", "cs", "ang", "near"}
Solvers == {"pena", "torch", "torch/ratios", "scipy"}
Units == {"1", "2^-30", "2^10", "1e-9", "1e3", "1e6"}
Orders == {"auto", "few", "more", "many"}
VARIABLES q0, q, steps
vars == <<q0, q, steps>>
Start == [op : Ops, L : 1..3, np : 1..2, nk : 1..2, solver : Solvers, prec : {"double", "single"}, unit : {"1"}, host : {"given", "relative"}, order : Orders]
Legal(r) == /\ (r.L = 3 => r.solver = "pena")
            /\ (r.prec = "single" => r.unit = "1")             \* single precision: units of order one
            /\ (r.prec = "single" => r.solver \in {"pena", "torch"})
Init == q0 \in Start /\ Legal(q0) /\ q = q0 /\ steps = <<>>
Change(f, v) == /\ \A i \in 1..Len(steps) : steps[i] # f
                /\ v # q[f] /\ Legal([q EXCEPT ![f] = v])
                /\ q' = [q EXCEPT ![f] = v] /\ steps' = Append(steps, f) /\ UNCHANGED q0
Next == /\ Len(steps) < Steps
        /\ \/ \E v \in Solvers : Change("solver", v)
           \/ q.prec = "double" /\ Change("prec", "single")
           \/ \E v \in Units : Change("unit", v)
           \/ \E v \in {"given", "relative"} : Change("host", v)
           \/ \E v \in Orders : Change("order", v)
Spec == Init /\ [][Next]_vars
(* the physics is untouched *)
Same == q.op = q0.op /\ q.L = q0.L /\ q.np = q0.np /\ q.nk = q0.nk
Undone == q = q0 => steps = <<>>
Export == Len(steps) = Steps => PrintT("@@" \o ToJson([a |-> q0, b |-> q, steps |-> steps]))
=============================================================================
