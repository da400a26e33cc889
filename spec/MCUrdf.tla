------------------------------- MODULE MCUrdf -------------------------------
(***************************************************************************)
(* Loading a robot joint after joint, in the order of its file, then the   *)
(* joint of its root: refused exactly when it is not valid, and whatever   *)
(* the order, the links end up as described.                               *)
(***************************************************************************)
EXTENDS Urdf, TLC, Json, IOUtils
NL == atoi(IOEnv.NL)
NJ == atoi(IOEnv.NJ)
VARIABLES D, at, up, root, res
vars == <<D, at, up, root, res>>
L(k) == "l" \o ToString(k)
Unknown == "nobody"
Ends == {L(k) : k \in 1..NL} \cup {Unknown}
Links == [k \in 1..NL |-> [name |-> L(k)]]
JS == {[name |-> "j" \o ToString(n), type |-> "revolute", parent |-> p, child |-> c] : n \in 1..NJ, p \in Ends, c \in Ends}
Lists == {s \in UNION {[1..n -> JS] : n \in 0..NJ} : \A k \in 1..Len(s) : s[k].name = "j" \o ToString(k)}
\* up: the parent of each link, "" as long as it has none
Init == /\ D \in {[links |-> Links, joints |-> s] : s \in Lists}
        /\ at = 0 /\ res = "loading" /\ root = ""
        /\ up = [n \in UNames(D) |-> ""]
RECURSIVE Ancestors(_, _)
Ancestors(u, n) == {n} \cup IF u[n] = "" THEN {} ELSE Ancestors(u, u[n])
Step == /\ res = "loading" /\ at < Len(D.joints)
        /\ LET j == D.joints[at + 1]
           IN IF j.parent \notin UNames(D) \/ j.child \notin UNames(D) THEN res' = "refused" /\ up' = up
              ELSE IF up[j.child] # "" \/ j.child \in Ancestors(up, j.parent) THEN res' = "refused" /\ up' = up
              ELSE up' = [up EXCEPT ![j.child] = j.parent] /\ res' = res
        /\ at' = at + 1 /\ UNCHANGED <<D, root>>
Last == /\ res = "loading" /\ at = Len(D.joints)
        /\ LET r == {n \in UNames(D) : up[n] = ""}
           IN IF Cardinality(r) = 1 THEN res' = "ok" /\ root' = CHOOSE n \in r : TRUE ELSE res' = "refused" /\ root' = root
        /\ UNCHANGED <<D, at, up>>
Emit == /\ res \in {"ok", "refused"} /\ at < 100
        /\ IF res = "ok" \/ \E n \in 0..7 : Len(D.joints) = n THEN PrintT("B " \o ToJson([D |-> D, res |-> res])) ELSE TRUE
        /\ at' = 100 /\ UNCHANGED <<D, up, root, res>>
Next == Step \/ Last \/ Emit
Spec == Init /\ [][Next]_vars
Exact == /\ res = "ok" => Valid(D)
         /\ res = "refused" => ~Valid(D)
Described == res = "ok" => /\ root = Root(D)
                           /\ \A n \in UNames(D) : IF n = root THEN TRUE ELSE up[n] = JointTo(D, n).parent
\* chains go through the ancestors, and through each joint once
Chains == res = "ok" => \A n \in UNames(D) :
             LET c == Chain(D, root, n)
             IN /\ c[1] = root /\ c[Len(c)] = n /\ Len(c) % 2 = 1
                /\ {c[k] : k \in {k \in 1..Len(c) : k % 2 = 1}} = Ancestors(up, n)
                /\ \A j, k \in 1..Len(c) : j # k => c[j] # c[k]
                /\ \A k \in 1..Len(c) : k % 2 = 1 => Chain(D, root, c[k]) \o SubSeq(Chain(D, c[k], n), 2, Len(Chain(D, c[k], n))) = c
                /\ Kept(D, c, TRUE, TRUE, TRUE) = c
=============================================================================
