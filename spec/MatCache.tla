------------------------------ MODULE MatCache ------------------------------
(***************************************************************************)
(* A material with its lookup table, as a machine: evaluations at several  *)
(* wavelengths (1..W; W-1 and W lie so close together that only their      *)
(* exact values tell them apart) in several forms, on several material     *)
(* objects, with tables prepared at construction, results modified by the  *)
(* caller and gradients taken.  The table is an optimisation: the machine  *)
(* implements (invariant Transparent) the function Value of the material.  *)
(* Histories of length H are exported for replay.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS W, H
Mats == 1..2                      \* two objects; world "twin": same file, "other": different files
Forms == {"float", "tensor", "batch", "grad"}
VARIABLES world, prep, hist, table, got
vars == <<world, prep, hist, table, got>>
Value(m, w) == <<IF world = "twin" THEN 1 ELSE m, w>>       \* (an abstract permittivity)
Init == /\ world \in {"twin", "other"}
        /\ prep \in [Mats -> {{}, {1, W}}]
        /\ hist = <<>> /\ got = {}
        /\ table = [m \in Mats |-> {<<w, Value(m, w)>> : w \in prep[m]}]
Lookup(m, w) == IF \E q \in table[m] : q[1] = w THEN (CHOOSE q \in table[m] : q[1] = w)[2] ELSE Value(m, w)
Eval(m, f, ws) ==
  /\ hist' = Append(hist, [do |-> "eval", m |-> m, form |-> f, ws |-> ws])
  /\ got' = got \cup {<<m, w, Lookup(m, w)>> : w \in {ws[i] : i \in 1..Len(ws)}}
  \* with gradients the value belongs to the caller's graph and is not stored
  /\ table' = IF f = "grad" THEN table
              ELSE [table EXCEPT ![m] = @ \cup {<<w, Lookup(m, w)>> : w \in {ws[i] : i \in 1..Len(ws)}}]
  /\ UNCHANGED <<world, prep>>
Spoil == /\ hist # <<>> /\ hist[Len(hist)].do = "eval"           \* the caller overwrites the last result
         /\ hist' = Append(hist, [do |-> "spoil"]) /\ UNCHANGED <<world, prep, table, got>>
Next == /\ Len(hist) < H
        /\ \/ \E m \in Mats, f \in Forms, w \in 1..W : f # "batch" /\ Eval(m, f, <<w>>)
           \/ \E m \in Mats : Eval(m, "batch", <<1, W - 1, W>>) \/ Eval(m, "batch", <<W, 1>>) \/ Eval(m, "grad", <<W - 1, 1>>)
           \/ Spoil
Spec == Init /\ [][Next]_vars
Transparent == /\ \A q \in got : q[3] = Value(q[1], q[2])
               /\ \A m \in Mats : \A q \in table[m] : q[2] = Value(m, q[1])
Export == Len(hist) = H => PrintT("@@" \o ToJson([world |-> world, prep |-> prep, hist |-> hist]))
=============================================================================
