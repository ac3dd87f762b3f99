----------------------------- MODULE AgreeBigFix -----------------------------
(***************************************************************************)
(* The Java overrides of BigFix and Cplx have the values of the TLA+ text. *)
(* BigFixPure / CplxPure are the same texts under names that are not       *)
(* overridden (written by harness/agree.py).  One behaviour per pair of    *)
(* operands, one step per operator.                                        *)
(***************************************************************************)
EXTENDS Cplx, TLC
P == INSTANCE CplxPure

Ints == << 0, 1, -1, 2, 3, -7, 10, 32767, 32768, -32769, 1000003, 2147483647 >>
Base == << FZero, FInt(1), FInt(-3), FDivI(FInt(1), 3), FDivI(FInt(-22), 7), FSqrt(FInt(2)),
           FMulI(FSqrt(FInt(5)), 1000003), FDyadic(1, 12345678, 7654321, -80), FDyadic(-1, 67108864, 1, -120),
           FDyadic(1, 67108864, 1, -140), FDyadic(-1, 98765432, 33, 200), FDyadic(1, 134217727, 134217727, -53) >>
Ops == {"add", "sub", "mul", "div", "sqrt", "int", "muli", "divi", "cmp", "neg", "dyadic", "cadd", "cmul", "cdiv", "cscale", "csqrt", "cabs"}
Close(x, y) == FCmp(FAbs(FSub(x, y)), FMul(FDyadic(1, 0, 1, -70), FAdd(FInt(1), FAbs(x)))) <= 0
CloseC(a, b) == Close(a[1], b[1]) /\ Close(a[2], b[2])

VARIABLES i, j, op, r
\* every pair for the cheap operators, a band for the expensive ones
Costly == {"mul", "div", "sqrt", "muli", "divi", "cmul", "cdiv", "cscale", "csqrt", "cabs"}
Init == /\ r = "" /\ op \in Ops /\ i \in 1..Len(Base) /\ j \in 1..Len(Base)
        /\ op \in Costly => j = 1 + ((i + 6) % Len(Base))
Z == <<Base[i], Base[j]>>
W == <<Base[j], Base[1 + ((i + 4) % Len(Base))]>>
Agree ==
  LET a == Base[i]  b == Base[j]  m == Ints[j]
  IN CASE op = "add" -> FAdd(a, b) = P!FAdd(a, b)
       [] op = "sub" -> FSub(a, b) = P!FSub(a, b)
       [] op = "mul" -> FMul(a, b) = P!FMul(a, b)
       [] op = "div" -> b[1] = 0 \/ FDiv(a, b) = P!FDiv(a, b)
       [] op = "sqrt" -> FSqrt(FAbs(a)) = P!FSqrt(P!FAbs(a))
       [] op = "int" -> FInt(m) = P!FInt(m)
       [] op = "muli" -> FMulI(a, m) = P!FMulI(a, m)
       [] op = "divi" -> m = 0 \/ FDivI(a, m) = P!FDivI(a, m)
       [] op = "cmp" -> FCmp(a, b) = P!FCmp(a, b)
       [] op = "neg" -> FNeg(a) = P!FNeg(a) /\ FAbs(a) = P!FAbs(a)
       [] op = "dyadic" -> \A s \in {1, 0, -1} : \A e \in {-190, -100, -31, 0, 37} : FDyadic(s, 99999999, 11111 * i, e) = P!FDyadic(s, 99999999, 11111 * i, e)
       [] op = "cadd" -> CAdd(Z, W) = P!CAdd(Z, W) /\ CSub(Z, W) = P!CSub(Z, W)
       [] op = "cmul" -> CloseC(CMul(Z, W), P!CMul(Z, W))
       [] op = "cdiv" -> CIsZero(W) \/ FCmp(CAbs(W), FTen(-4)) < 0 \/ CloseC(CDiv(Z, W), P!CDiv(Z, W))
       [] op = "cscale" -> CloseC(CScale(a, W), P!CScale(a, W))
       [] op = "cabs" -> Close(CAbs2(Z), P!CAbs2(Z)) /\ Close(CAbs(Z), P!CAbs(Z))
       [] op = "csqrt" -> FCmp(CAbs(Z), FTen(-4)) < 0 \/ Close(FMul(CSqrt(Z)[1], CSqrt(Z)[1]), FMul(P!CSqrt(Z)[1], P!CSqrt(Z)[1]))
Next == r = "" /\ r' = (IF Agree THEN "agree" ELSE "differ") /\ UNCHANGED <<i, j, op>>
Same == r # "differ"
=============================================================================
