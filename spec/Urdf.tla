-------------------------------- MODULE Urdf --------------------------------
(***************************************************************************)
(* Robots described by URDF files (U01, U02).  A description D has         *)
(*   links  [name, ...]  and  joints [name, type, parent, child, ...]      *)
(* in any order.  It is valid when the joints make a tree of all the links *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
UNames(D) == {D.links[k].name : k \in 1..Len(D.links)}
JointsTo(D, n) == {k \in 1..Len(D.joints) : D.joints[k].child = n}
JointTo(D, n) == D.joints[CHOOSE k \in JointsTo(D, n) : TRUE]
Roots(D) == {n \in UNames(D) : JointsTo(D, n) = {}}
Known(D) == \A k \in 1..Len(D.joints) : D.joints[k].parent \in UNames(D) /\ D.joints[k].child \in UNames(D)
Single(D) == \A n \in UNames(D) : Cardinality(JointsTo(D, n)) <= 1
\* the path from a link above to a link, <<>> if there is none: names of links and joints
RECURSIVE Path(_, _, _, _)
Path(D, a, n, fuel) == IF n = a THEN <<n>>
                       ELSE IF fuel = 0 \/ Cardinality(JointsTo(D, n)) # 1 THEN <<>>
                       ELSE LET j == JointTo(D, n)
                                p == Path(D, a, j.parent, fuel - 1)
                            IN IF p = <<>> THEN <<>> ELSE p \o <<j.name, n>>
Chain(D, a, n) == Path(D, a, n, Len(D.links))
Valid(D) == Known(D) /\ Single(D) /\ Cardinality(Roots(D)) = 1 /\ \A n \in UNames(D) : \A r \in Roots(D) : Chain(D, r, n) # <<>>
Root(D) == CHOOSE r \in Roots(D) : TRUE
\* what is kept of a chain
Kept(D, c, joints, links, fixed) ==
  LET Keep(x) == IF x \in UNames(D) THEN links
                 ELSE joints /\ (fixed \/ \E k \in 1..Len(D.joints) : D.joints[k].name = x /\ D.joints[k].type # "fixed")
      f[k \in 0..Len(c)] == IF k = 0 THEN <<>> ELSE IF Keep(c[k]) THEN Append(f[k-1], c[k]) ELSE f[k-1]
  IN f[Len(c)]
=============================================================================
