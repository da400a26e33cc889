--------------------------------- MODULE Com ---------------------------------
(***************************************************************************)
(* Communications of a simulation with remote viewers through sockets      *)
(* (O05).  Several observers may each serve a viewer; each has a port, and *)
(* a stream of messages which ends with CLOSE.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CLOSE == "close_connection"
\* the first port which is free, from the one which is requested
FirstFree(p, taken) == CHOOSE x \in p..(p + Cardinality(taken)) : x \notin taken /\ \A y \in p..(x-1) : y \in taken
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A k \in 1..Len(s) : s[k] = t[k]
\* what a viewer which stays receives from a simulation whose steps send the messages s
Stream(s) == Append(s, CLOSE)
\* what the viewer of a plan may have received at the end
Received(plan, s, x) == CASE plan.kind = "never" -> x = <<>>
                          [] plan.kind = "stay" -> x = Stream(s)
                          [] plan.kind = "drop" -> IsPrefix(x, Stream(s)) /\ Len(x) >= IF plan.after < Len(s) + 1 THEN plan.after ELSE Len(s) + 1
=============================================================================
