----------------------------- MODULE MCRecords -----------------------------
(***************************************************************************)
(* The same with memory cells, as a recorder is programmed: a record is an *)
(* array of cells, allocated at the beginning of a simulation and filled   *)
(* with copies; it refines Records.  The recorder which would keep one     *)
(* array for all the simulations, or references to the values of the       *)
(* world, does not.                                                        *)
(***************************************************************************)
EXTENDS Records, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
MaxSteps == atoi(IOEnv.MAXSTEPS)
VARIABLES val,      \* value of the world: the number of changes so far
          heap,     \* arrays of cells
          cur,      \* array of the current record, 0 if there is none
          refs,     \* arrays which were kept by the user
          m,        \* the model: Records
          hist
vars == <<val, heap, cur, refs, m, hist>>
Init == val = 0 /\ heap = <<>> /\ cur = 0 /\ refs = <<>> /\ m = Fresh /\ hist = <<>>
Emit(h) == PrintT("B " \o ToJson(h))
Sim == \E n \in 0..MaxSteps :
         /\ heap' = Append(heap, [k \in 1..n |-> val + k - 1])
         /\ cur' = Len(heap) + 1
         /\ val' = val + n
         /\ m' = AfterSim(m, [k \in 1..n |-> val + k - 1])
         /\ hist' = Append(hist, [op |-> "sim", n |-> n])
         /\ UNCHANGED refs
Poke == /\ val' = val + 1 /\ hist' = Append(hist, [op |-> "poke"]) /\ UNCHANGED <<heap, cur, refs, m>>
Keep == /\ cur > 0 /\ refs' = Append(refs, cur) /\ m' = AfterKeep(m) /\ hist' = Append(hist, [op |-> "keep"]) /\ UNCHANGED <<val, heap, cur>>
Next == Len(hist) < MaxLen /\ (Sim \/ Poke \/ Keep) /\ Emit(hist')
Spec == Init /\ [][Next]_vars
\* what the user reads is what the model says
Refines == /\ (cur > 0 => heap[cur] = m.rec)
           /\ Len(refs) = Len(m.kept) /\ \A k \in 1..Len(refs) : heap[refs[k]] = m.kept[k]
\* values of one record are in the order of time, and older records have older values
Ordered == \A a, b \in 1..Len(heap) : \A i \in 1..Len(heap[a]) : \A j \in 1..Len(heap[b]) :
             (a < b \/ (a = b /\ i < j)) => heap[a][i] < heap[b][j]
=============================================================================
