------------------------------ MODULE CallSpace ------------------------------
(***************************************************************************)
(* The space of scattering calls, as a machine that assembles one call:    *)
(* backend, batch dimensions, the layout in which each array is given, the *)
(* order, an optional mistake.  Every complete call is exported for replay *)
(* on the library; the invariants tie the layouts (what the caller means)  *)
(* to Layout!Resolve (how the arrays are read).                            *)
(* Array entries are the integers 1, 2, ... in row-major order, so a value *)
(* identifies its position.                                                *)
(***************************************************************************)
EXTENDS Layout, TLC, Json

CONSTANTS MaxL, MaxP, MaxK

Backends == {"pena", "torch", "scipy", "torch/ratios"}
Mistakes == {"none", "eps +1 layer", "eps -1 layer", "eps +1 particle", "eps +1 wavelength", "env +1", "env rank 2",
             "k rank 2", "r swapped", "r equal", "r rank 3", "eps rank 4", "no eps", "no r", "no geometry"}
Kmin(x, y) == IF x < y THEN x ELSE y

VARIABLES at, c
vars == <<at, c>>
Init == at = "backend" /\ c = [backend |-> "pena"]
Put(f, v) == c' = c @@ (f :> v)
Go(s) == at' = s
PickBackend == at = "backend" /\ \E b \in Backends : c' = [backend |-> b] /\ Go("size")
PickSize == /\ at = "size" /\ Go("r")
            /\ \E L \in 1..MaxL, np \in 1..MaxP, nk \in 1..MaxK :
                 /\ c.backend # "pena" => L <= 2
                 /\ c' = c @@ [L |-> L, np |-> np, nk |-> nk]
PickR == at = "r" /\ Go("eps") /\ \E f \in {"L", "PL"} : (f = "L" => c.np = 1) /\ Put("rl", f)
\* layouts of the permittivities; those with fewer axes mean the same value along the missing axis
EpsShape(f) == CASE f = "L" -> <<c.L>> [] f = "PL" -> <<c.np, c.L>> [] f = "LK" -> <<c.L, c.nk>>
                 [] f = "PLK" -> <<c.np, c.L, c.nk>> [] f = "1LK" -> <<1, c.L, c.nk>>
                 [] f = "PL1" -> <<c.np, c.L, 1>> [] f = "1L1" -> <<1, c.L, 1>>
PickEps == at = "eps" /\ Go("env") /\ \E f \in {"L", "PL", "LK", "PLK", "1LK", "PL1", "1L1"} :
             /\ (f \in {"PL", "PLK", "PL1"} => c.rl = "PL" \/ c.np = 1)
             \* a two-axis array that fits (particles, layers) is read that way
             /\ (f = "LK" => EpsShape("LK") # EpsShape("PL"))
             /\ Put("el", f)
PickEnv == at = "env" /\ Go("k") /\ \E f \in {"scalar", "1", "K"} : Put("vl", f)
PickK == at = "k" /\ Go("nmax") /\ \E f \in {"scalar", "K", "K1", "1K", "K11"} : (f = "scalar" => c.nk = 1) /\ Put("kl", f)
PickN == at = "nmax" /\ Go("mistake") /\ \E n \in {0, 1, 2, 4} : Put("nmax", n)
PickMistake == at = "mistake" /\ Go("done") /\ \E m \in Mistakes :
   /\ m \in {"r swapped", "r equal"} => c.L >= 2
   /\ m = "eps -1 layer" => c.L >= 2
   /\ m # "none" => c.nmax = 2 /\ c.vl = "scalar" /\ c.kl \in {"scalar", "K"}
   /\ Put("mistake", m)
Next == PickBackend \/ PickSize \/ PickR \/ PickEps \/ PickEnv \/ PickK \/ PickN \/ PickMistake
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the arrays of a complete call *)
Bump(sh, i) == [sh EXCEPT ![i] = @ + 1]
ESh == LET sh == EpsShape(c.el)  n == Len(sh)
           lay == CASE c.el = "L" -> 1 [] c.el = "LK" -> 1 [] OTHER -> 2
       IN  CASE c.mistake = "eps +1 layer" -> Bump(sh, lay)
             [] c.mistake = "eps -1 layer" -> [sh EXCEPT ![lay] = @ - 1]
             [] c.mistake = "eps +1 particle" -> <<c.np + 1, c.L, c.nk>>
             [] c.mistake = "eps +1 wavelength" -> <<c.np, c.L, c.nk + 1>>
             [] c.mistake = "eps rank 4" -> <<c.np, c.L, c.nk, 1>>
             [] OTHER -> sh
VSh == CASE c.mistake = "env +1" -> <<c.nk + 1>> [] c.mistake = "env rank 2" -> <<1, c.nk + 1>>
         [] c.vl = "scalar" -> <<>> [] c.vl = "1" -> <<1>> [] OTHER -> <<c.nk>>
KSh == CASE c.mistake = "k rank 2" -> <<2, c.nk + 1>>
         [] c.kl = "scalar" -> <<>> [] c.kl = "K" -> <<c.nk>> [] c.kl = "K1" -> <<c.nk, 1>>
         [] c.kl = "1K" -> <<1, c.nk>> [] c.kl = "K11" -> <<c.nk, 1, 1>>
RSh == CASE c.mistake = "r rank 3" -> <<c.np, c.L, 1>> [] c.rl = "L" -> <<c.L>> [] OTHER -> <<c.np, c.L>>

IntNum(i) == IF i = 0 THEN <<0, 0, 0, 0>> ELSE <<1, 0, i, 0>>
Counting(sh) == [sh |-> sh, d |-> Map(Prod(sh), LAMBDA i: IntNum(i))]
\* radii: positions are increasing along the layers; a mistake breaks the order in the last particle
Radii == LET sh == RSh  n == Prod(sh)
             v(i) == CASE c.mistake = "r swapped" /\ i = n -> i - 2   \* below the layer inside it
                       [] c.mistake = "r equal" /\ i = n -> i - 1
                       [] OTHER -> i
         IN  [sh |-> sh, d |-> Map(n, LAMBDA i: IntNum(v(i)))]
Call == LET base == [k |-> Counting(KSh), env |-> Counting(VSh)]
            withR == IF c.mistake \in {"no r", "no geometry"} THEN base ELSE base @@ [r |-> Radii]
        IN  IF c.mistake \in {"no eps", "no geometry"} THEN withR ELSE withR @@ [eps |-> Counting(ESh)]
Complete == at = "done"
Ref(i) == CR(FInt(i))

(* what the caller means by a layout: the position of entry (p, l, w) *)
Meant(p, l, w) ==
  CASE c.el = "L" -> l  [] c.el = "PL" -> (p-1)*c.L + l  [] c.el = "LK" -> (l-1)*c.nk + w
    [] c.el = "PLK" -> ((p-1)*c.L + l - 1)*c.nk + w  [] c.el = "1LK" -> (l-1)*c.nk + w
    [] c.el = "PL1" -> (p-1)*c.L + l  [] c.el = "1L1" -> l

ReadAsMeant == (Complete /\ c.mistake = "none") =>
  LET R == Resolve(Call)
  IN  /\ R.ok /\ R.np = c.np /\ R.L = c.L /\ R.nk = c.nk
      /\ \A p \in 1..c.np, l \in 1..c.L, w \in 1..c.nk : R.eps[p][l][w] = Ref(Meant(p, l, w))
      /\ \A w \in 1..c.nk : R.k[w] = FInt(w) /\ R.env[w] = Ref(IF c.vl = "K" THEN w ELSE 1)
      /\ \A p \in 1..c.np, l \in 1..c.L : R.r[p][l] = FInt((p-1)*c.L + l)
Reinterpreted ==
  \/ c.mistake \in {"eps +1 layer", "eps -1 layer"} /\ ESh = <<c.np, c.L>>
  \/ c.mistake \in {"eps +1 layer", "eps -1 layer"} /\ Len(ESh) = 2 /\ ESh = <<c.L, c.nk>>
\* a mistake is noticed, unless the arrays happen to have another valid reading
MistakesRefused == (Complete /\ c.mistake # "none") => (~Resolve(Call).ok \/ Reinterpreted)
Export == Complete => PrintT("@@" \o ToJson(c @@ [refuse |-> IF Resolve(Call).ok THEN 0 ELSE 1,
                                      rsh |-> RSh, esh |-> ESh, vsh |-> VSh, ksh |-> KSh]))
=============================================================================
