------------------------------ MODULE BatchSpace ------------------------------
(***************************************************************************)
(* Batches and the calls they stand for.  A batch has particles 1..np,     *)
(* wavelengths 1..nk and angles/positions 1..nt; a second call is made of  *)
(* a selection <<pm, wm, tm>> of its entries, with repetitions and in any  *)
(* order.  Entry (p,w,t) of the second call is entry (pm[p], wm[w], tm[t]) *)
(* of the first.  Composition of selections is a selection (Closed), so    *)
(* one step stands for every history of selecting and reordering.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Max, Steps
Ops == {"coef", "cs", "ang", "near"}
VARIABLES b, pm, wm, tm, done
vars == <<b, pm, wm, tm, done>>
Init == /\ b \in [op : Ops, np : 1..Max, nk : 1..Max, nt : 1..Max, L : 1..3, api : {"ms", "pt"}]
        /\ (b.op \in {"coef", "cs"} => b.nt = 1)
        /\ (b.api = "pt" => b.np = 1)
        /\ pm = [i \in 1..b.np |-> i] /\ wm = [i \in 1..b.nk |-> i] /\ tm = [i \in 1..b.nt |-> i] /\ done = 0
Sel(n) == UNION { [1..k -> 1..n] : k \in 1..n }
Comp(f, g) == [i \in 1..Len(g) |-> f[g[i]]]          \* select g out of the selection f
SelectP == /\ b.np > 1 /\ \E g \in Sel(Len(pm)) : pm' = Comp(pm, g) /\ UNCHANGED <<b, wm, tm>>
SelectW == /\ b.nk > 1 /\ \E g \in Sel(Len(wm)) : wm' = Comp(wm, g) /\ UNCHANGED <<b, pm, tm>>
SelectT == /\ b.nt > 1 /\ \E g \in Sel(Len(tm)) : tm' = Comp(tm, g) /\ UNCHANGED <<b, pm, wm>>
Next == done < Steps /\ done' = done + 1 /\ (SelectP \/ SelectW \/ SelectT)
Spec == Init /\ [][Next]_vars
Closed == /\ pm \in Sel(b.np) /\ wm \in Sel(b.nk) /\ tm \in Sel(b.nt)
Export == done = Steps => PrintT("@@" \o ToJson([b |-> b, pm |-> pm, wm |-> wm, tm |-> tm]))
View == <<b, pm, wm, tm, done>>
=============================================================================
