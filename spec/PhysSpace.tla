------------------------------ MODULE PhysSpace ------------------------------
(***************************************************************************)
(* The space of physical situations: size, layer materials from the core   *)
(* outwards, proportions, host, special coincidences.  A sphere is grown   *)
(* layer by layer.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxLayers
Sizes == {"tiny", "small", "mid", "wave", "large", "huge"}      \* k r_outer up to 0.03, 0.5, 3, 8, 20, 60
Materials == {"diel", "high", "metal", "absorb", "low", "gain", "matched"}
Hosts == {"vacuum", "water", "glass", "dense"}
Shapes == {"even", "thin shell", "tiny core"}
Specials == {"none", "x=pi", "inner x=pi", "same layers"}
Lossy(m) == m \in {"metal", "absorb"}
VARIABLES at, c
vars == <<at, c>>
Init == at = "size" /\ c = [mats |-> <<>>]
PickSize == at = "size" /\ at' = "host" /\ \E s \in Sizes : c' = c @@ [size |-> s]
PickHost == at = "host" /\ at' = "grow" /\ \E h \in Hosts : c' = c @@ [host |-> h]
\* outer layers of very large spheres stay transparent: nothing of the inside is visible through metal
Grow == /\ at = "grow" /\ Len(c.mats) < MaxLayers /\ UNCHANGED at
        /\ \E m \in Materials : /\ (m = "gain" => c.size \in {"tiny", "small", "mid"})
                                /\ (c.size = "huge" /\ c.mats # <<>> => ~Lossy(m))
                                /\ c' = [c EXCEPT !.mats = Append(@, m)]
Stop == at = "grow" /\ c.mats # <<>> /\ at' = "shape" /\ UNCHANGED c
PickShape == at = "shape" /\ at' = "special" /\ \E s \in Shapes : (s # "even" => Len(c.mats) > 1) /\ c' = c @@ [shape |-> s]
PickSpecial == /\ at = "special" /\ at' = "done"
               /\ \E s \in Specials : /\ (s = "x=pi" => c.mats[1] = "diel" /\ Len(c.mats) = 1)
                                      /\ (s = "inner x=pi" => Len(c.mats) > 1)
                                      /\ (s = "same layers" => Len(c.mats) > 1)
                                      /\ c' = c @@ [special |-> s]
Next == PickSize \/ PickHost \/ Grow \/ Stop \/ PickShape \/ PickSpecial
Spec == Init /\ [][Next]_vars
Export == at = "done" => PrintT("@@" \o ToJson(c))
TypeOK == at = "done" => (Len(c.mats) \in 1..MaxLayers /\ ((\E i \in 1..Len(c.mats) : c.mats[i] = "gain") => c.size # "huge"))
=============================================================================
