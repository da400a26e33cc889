------------------------------- MODULE MCPairs -------------------------------
(* All lists of a few shapes on a few bodies, in all orders. *)
EXTENDS Pairs, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
NB == atoi(IOEnv.NB)
VARIABLE sh
Types == {"Sphere", "Point", "Plane", "Box", "Cylinder"}
All == [t : Types, b : 0..NB]
Init == sh = <<>>
Next == Len(sh) < MaxLen /\ \E x \in All : sh' = Append(sh, x) /\ PrintT("B " \o ToJson(sh'))
Spec == Init /\ [][Next]_sh
N == Len(sh)
Rev == [i \in 1..N |-> sh[N+1-i]]
Laws == /\ \A a, b \in Types : Supported(a, b) = Supported(b, a)
        /\ \A a, b \in Types : Supported(a, b) => a \in {"Sphere", "Point"} \/ b \in {"Sphere", "Point"}
        \* the order of the registrations does not matter
        /\ Pairs(Rev) = {<<N+1-x[2], N+1-x[1]>> : x \in Pairs(sh)}
        \* a new shape adds its own pairs
        /\ \A x \in All : Pairs(sh) = {y \in Pairs(Append(sh, x)) : y[2] <= N}
        /\ \A x \in All : Pairs(Append(sh, x)) \ Pairs(sh) = {<<i, N+1>> : i \in {k \in 1..N : sh[k].b # x.b /\ Supported(sh[k].t, x.t)}}
        /\ \A x \in Pairs(sh) : InOrder(sh, x[1], x[2]) \in {x, <<x[2], x[1]>>}
                               /\ LET y == InOrder(sh, x[1], x[2]) IN Round([t |-> sh[y[2]].t])
=============================================================================
