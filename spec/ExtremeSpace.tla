----------------------------- MODULE ExtremeSpace -----------------------------
(***************************************************************************)
(* Extreme but meaningful requests.  Each names one or two extremes; the   *)
(* model only combines what a user can ask for (the torch and scipy        *)
(* solvers know two layers and no opaque ones).                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Ops == {"coef", "cs", "ang", "near"}
Solvers == {"pena", "torch", "scipy"}
Extremes == {"dust", "giant", "mixed sizes", "film", "tiny core", "opaque", "metal", "gain", "low index", "high index",
             "many layers", "many orders", "one order", "x=pi", "equal layers", "matched", "spectrum wide",
             "at centre", "far away", "on axis", "forward backward"}
Clash(s) == \/ {"dust", "giant"} \subseteq s
            \/ Cardinality(s \cap {"opaque", "metal", "gain", "low index", "high index", "matched"}) > 1
            \/ Cardinality(s \cap {"many orders", "one order"}) > 1
            \/ Cardinality(s \cap {"at centre", "far away", "on axis", "forward backward"}) > 1
            \/ Cardinality(s \cap {"film", "tiny core", "many layers", "equal layers", "x=pi"}) > 1
VARIABLES op, solver, ext
Init == op \in Ops /\ solver \in Solvers /\ ext = {}
Add(e) == /\ Cardinality(ext) < 3 /\ e \notin ext
          /\ ~Clash(ext \cup {e})
          /\ (e \in {"many layers", "opaque", "metal", "giant"} => solver = "pena")
          /\ (e \in {"at centre", "far away", "on axis"} => op = "near")
          /\ (e = "forward backward" => op = "ang")
          /\ ext' = ext \cup {e} /\ UNCHANGED <<op, solver>>
Next == \E e \in Extremes : Add(e)
Spec == Init /\ [][Next]_<<op, solver, ext>>
Legal == ~Clash(ext) /\ (solver # "pena" => "many layers" \notin ext)
Export == Cardinality(ext) \in 1..3 => PrintT("@@" \o ToJson([op |-> op, solver |-> solver, ext |-> ext]))
=============================================================================
