------------------------------- MODULE FnSpace -------------------------------
(***************************************************************************)
(* The special functions a user can evaluate: family, implementation, kind *)
(* of argument, order, array shape.  A machine assembles one evaluation;   *)
(* complete ones are exported for replay.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Family
Families == {"bessel", "riccati", "angular"}
\* functions of a family and the implementations of each
Fns == CASE Family = "bessel"  -> {"j", "y", "h"}
         [] Family = "riccati" -> {"psi", "chi", "xi", "log", "ratio"}
         [] Family = "angular" -> {"pitau", "vsh1", "vsh2", "vsh3"}
Impls(f) == CASE f = "j" -> {"scipy", "recurrence", "ratios"}
              [] f \in {"y", "h"} -> {"scipy", "torch"}
              [] f \in {"psi", "chi", "xi"} -> {"scipy", "torch"}
              [] f \in {"log", "ratio"} -> {"pena"}
              [] f = "pitau" -> {"torch"}
              [] f \in {"vsh1", "vsh3"} -> {"torch", "pena"}
              [] f = "vsh2" -> {"torch"}
Orders == {"one", "few", "many"}
Sizes == {"tiny", "small", "mid", "turning", "large"}
Phases == {"real", "lossy", "gain", "opaque"}
Angles == {"generic", "ends", "near ends", "equator"}
Shapes == {"scalar", "vector", "matrix"}

VARIABLES at, c
Init == at = "fn" /\ c = [family |-> Family]
Put(f, v, a) == c' = c @@ (f :> v) /\ at' = a
Fn    == at = "fn" /\ \E f \in Fns : Put("fn", f, "impl")
Impl  == at = "impl" /\ \E i \in Impls(c.fn) : Put("impl", i, "order")
Order == at = "order" /\ \E o \in Orders : Put("order", o, IF Family = "angular" THEN "angle" ELSE "size")
Angle == at = "angle" /\ \E a \in Angles : Put("angle", a, IF c.fn = "pitau" THEN "shape" ELSE "size")
Size_ == at = "size" /\ \E s \in Sizes : Put("size", s, "phase")
\* only the scaled (pena) functions are defined for opaque arguments
Phase == /\ at = "phase"
         /\ \E p \in Phases : (p = "opaque" => c.impl = "pena" /\ c.size # "tiny" /\ c.fn # "vsh1") /\ Put("phase", p, "shape")
Shape == at = "shape" /\ \E s \in Shapes : (c.fn \in {"vsh1", "vsh2", "vsh3"} => s = "vector") /\ Put("shape", s, "done")
Next == Fn \/ Impl \/ Order \/ Angle \/ Size_ \/ Phase \/ Shape
Spec == Init /\ [][Next]_<<at, c>>
Complete == at = "done" => c.impl \in Impls(c.fn)
Export == at = "done" => PrintT("@@" \o ToJson(c))
=============================================================================
