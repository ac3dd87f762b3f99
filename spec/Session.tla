------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session of a user with two particles that share a material, and with  *)
(* the functions: requests in any order, results kept, results overwritten *)
(* by the user.  The machine remembers for every request what was          *)
(* returned; Pure says the library may not.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS H
Things == {"p1", "p2", "fn"}
Ops == {"coef", "cs", "ang", "near"}
Args == 1..2                       \* two sets of arguments (wavelengths, angles, positions)
VARIABLES hist, kept
vars == <<hist, kept>>
Answer(t, o, a) == <<t, o, a>>     \* (the abstract value of a request)
Init == hist = <<>> /\ kept = <<>>
Request(t, o, a) == /\ hist' = Append(hist, [do |-> "request", on |-> t, op |-> o, arg |-> a])
                    /\ kept' = Append(kept, [i |-> Len(hist) + 1, v |-> Answer(t, o, a), own |-> TRUE])
\* the user writes into the i-th kept result; only that one changes
Write(i) == /\ kept[i].own
            /\ kept' = [kept EXCEPT ![i].own = FALSE, ![i].v = <<"written">>]
            /\ hist' = Append(hist, [do |-> "write", i |-> i])
\* repeats the i-th request
Again(i) == LET h == hist[kept[i].i] IN
            /\ hist' = Append(hist, h)
            /\ kept' = Append(kept, [i |-> Len(hist) + 1, v |-> Answer(h.on, h.op, h.arg), own |-> TRUE])
Next == /\ Len(hist) < H
        /\ \/ \E t \in Things, o \in Ops, a \in Args : Request(t, o, a)
           \/ \E i \in 1..Len(kept) : Write(i) \/ Again(i)
Spec == Init /\ [][Next]_vars
Pure == \A i, j \in 1..Len(kept) :
          (kept[i].own /\ kept[j].own /\ hist[kept[i].i] = hist[kept[j].i]) => kept[i].v = kept[j].v
Export == Len(hist) = H => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
