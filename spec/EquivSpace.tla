------------------------------ MODULE EquivSpace ------------------------------
(***************************************************************************)
(* Physically equal descriptions of a sphere.  A description is a sequence *)
(* of <<outer radius rank, material>>, inner to outer; material 0 is the   *)
(* host.  Rewriting steps change the description, not the sphere: split a  *)
(* layer, coat with host material, exchange the form in which it is given. *)
(* Canonical forgets such differences; it is invariant under every step.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLayers, Ranks, Mats
Forms == {"layers", "legacy", "coreshell", "particle eps", "particle mats", "particle legacy", "particle scalar"}
VARIABLES d, d0, form, steps, host
vars == <<d, d0, form, steps, host>>

RECURSIVE Merge(_)
Merge(s) == IF Len(s) <= 1 THEN s
            ELSE IF s[1][2] = s[2][2] THEN Merge(Tail(s)) ELSE <<s[1]>> \o Merge(Tail(s))
RECURSIVE DropHost(_)
DropHost(s) == IF s # <<>> /\ s[Len(s)][2] = 0 THEN DropHost(SubSeq(s, 1, Len(s) - 1)) ELSE s
Canonical(s) == DropHost(Merge(s))

Starts == { s \in UNION {[1..n -> (1..Ranks) \X (0..Mats)] : n \in 1..2} :
              /\ \A i \in 1..(Len(s)-1) : s[i][1] < s[i+1][1] /\ s[i][2] # s[i+1][2]
              /\ s[Len(s)][2] # 0 }
Init == /\ d \in Starts /\ d0 = d /\ form = "layers" /\ steps = <<>> /\ host \in {"vacuum", "other"}
Insert(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Split == /\ Len(d) < MaxLayers
         /\ \E i \in 1..Len(d), r \in 1..Ranks :
              /\ r < d[i][1] /\ (i > 1 => d[i-1][1] < r)
              /\ d' = Insert(d, i - 1, <<r, d[i][2]>>)
         /\ steps' = Append(steps, "split") /\ UNCHANGED <<d0, form, host>>
Coat == /\ Len(d) < MaxLayers
        /\ \E r \in 1..Ranks : r > d[Len(d)][1] /\ d' = Append(d, <<r, 0>>)
        /\ steps' = Append(steps, "coat") /\ UNCHANGED <<d0, form, host>>
\* the forms that can express the description
Fits(f) == CASE f \in {"legacy", "coreshell", "particle legacy"} -> Len(d) <= 2
             [] f = "particle scalar" -> Len(d) <= 2
             [] OTHER -> TRUE
Restate == /\ form = "layers" /\ \E f \in Forms \ {"layers"} : Fits(f) /\ form' = f
           /\ steps' = Append(steps, "restate") /\ UNCHANGED <<d, d0, host>>
Next == form = "layers" /\ Len(steps) < 3 /\ (Split \/ Coat \/ Restate)
Spec == Init /\ [][Next]_vars
SameSphere == Canonical(d) = Canonical(d0)
Increasing == \A i \in 1..(Len(d)-1) : d[i][1] < d[i+1][1]
Export == steps # <<>> => PrintT("@@" \o ToJson([d |-> d, d0 |-> d0, form |-> form, steps |-> steps, host |-> host]))
=============================================================================
