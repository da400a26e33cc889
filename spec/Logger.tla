------------------------------- MODULE Logger -------------------------------
(***************************************************************************)
(* Layout of the data which are logged.  A world W is made of the names of *)
(* its elements (NoName for those which have none):                        *)
(*   jn   of the joints                                                    *)
(*   bn   of the bodies, the ground first                                  *)
(*   sn   of the frames which are not bodies                               *)
(*   f1   the second frame of each joint: <<"b", k>> or <<"s", k>>         *)
(*   mv   the moving frames, among those of sn                             *)
(* A configuration L: st, tr, mo, flat are the selections.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
NoName == "<none>"
NameOf(W, x) == IF x[1] = "b" THEN W.bn[x[2]] ELSE W.sn[x[2]]
RangeOf(s) == {s[k] : k \in 1..Len(s)}
\* elements which have a transform: bodies or second frames of the joints, then moving frames
Bases(L, W) == IF L.flat THEN {<<"b", k>> : k \in 1..Len(W.bn)} ELSE RangeOf(W.f1)
Movings(W) == {<<"s", k>> : k \in RangeOf(W.mv)}
Transformed(L, W) == Bases(L, W) \cup Movings(W)
Twice(W, S) == \E x, y \in S : x # y /\ NameOf(W, x) = NameOf(W, y) /\ NameOf(W, x) # NoName
Refused(L, W) == \/ L.st /\ \E a, b \in 1..Len(W.jn) : a # b /\ W.jn[a] = W.jn[b] /\ W.jn[a] # NoName
                 \/ L.tr /\ Twice(W, Transformed(L, W))
Model == {"gvel", "mass", "admittance", "nleffects", "gforce"}
Groups(L) == (IF L.st THEN {"gpositions", "gvelocities"} ELSE {}) \cup (IF L.tr THEN {"transforms"} ELSE {}) \cup (IF L.mo THEN {"model"} ELSE {})
\* keys of each group, when all the elements have a name
Keys(L, W, g) == CASE g = "transforms" -> {NameOf(W, x) : x \in Transformed(L, W)}
                   [] g = "model" -> Model
                   [] OTHER -> RangeOf(W.jn)
\* elements which need a name get one which is unique, the others keep their name
Named(W, V) ==
  LET Kept(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = NoName \/ b[k] = a[k]
  IN /\ Kept(W.jn, V.jn) /\ Kept(W.bn, V.bn) /\ Kept(W.sn, V.sn)
     /\ V.f1 = W.f1 /\ V.mv = W.mv
=============================================================================
