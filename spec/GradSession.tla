----------------------------- MODULE GradSession -----------------------------
(***************************************************************************)
(* Gradients over a history: results with graphs (made with shared leaf    *)
(* parameters), differentiated once, twice, together, in any order;        *)
(* backward() accumulates into the leaves.  The machine keeps what the     *)
(* leaves must hold: a bag of differentiated requests.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS H, Q                     \* length, number of requests
Reqs == 1..Q
VARIABLES hist, graphs, leaf
vars == <<hist, graphs, leaf>>
Init == hist = <<>> /\ graphs = <<>> /\ leaf = [q \in Reqs |-> 0]
Do(h) == hist' = Append(hist, h)
Forward(q)  == Do([do |-> "forward", q |-> q]) /\ graphs' = Append(graphs, q) /\ UNCHANGED leaf
Plain(q)    == Do([do |-> "plain", q |-> q]) /\ UNCHANGED <<graphs, leaf>>          \* without tracking
Single(i)   == Do([do |-> "single", i |-> i]) /\ UNCHANGED <<graphs, leaf>>         \* autograd.grad
Joint(i, j) == Do([do |-> "joint", i |-> i, j |-> j]) /\ UNCHANGED <<graphs, leaf>>
Backward(i) == Do([do |-> "backward", i |-> i, leaf |-> [leaf EXCEPT ![graphs[i]] = @ + 1]])
               /\ leaf' = [leaf EXCEPT ![graphs[i]] = @ + 1] /\ UNCHANGED graphs
Zero        == (\E q \in Reqs : leaf[q] > 0) /\ Do([do |-> "zero"]) /\ leaf' = [q \in Reqs |-> 0] /\ UNCHANGED graphs
Next == /\ Len(hist) < H
        /\ \/ \E q \in Reqs : Forward(q) \/ (graphs # <<>> /\ Plain(q))
           \/ \E i \in 1..Len(graphs) : Single(i) \/ Backward(i)
           \/ \E i, j \in 1..Len(graphs) : i < j /\ Joint(i, j)
           \/ Zero
Spec == Init /\ [][Next]_vars
\* the leaves hold exactly what was differentiated since they were cleared
Times(q) == LET cleared == {n \in 1..Len(hist) : hist[n].do = "zero"}
                from == IF cleared = {} THEN 0 ELSE CHOOSE n \in cleared : \A m \in cleared : m <= n
                GraphOf(n) == SelectSeq([m \in 1..Len(hist) |-> hist[m]], LAMBDA h: h.do = "forward")[hist[n].i].q
            IN  Cardinality({n \in (from+1)..Len(hist) : hist[n].do = "backward" /\ GraphOf(n) = q})
Accumulates == \A q \in Reqs : leaf[q] = Times(q)
Export == Len(hist) = H => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
