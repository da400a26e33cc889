-------------------------------- MODULE Pairs --------------------------------
(***************************************************************************)
(* The pairs of shapes between which there are contacts: sh is a sequence  *)
(* of [t, b], the types of the shapes and their bodies.                    *)
(***************************************************************************)
EXTENDS Shapes
Pairs(sh) == {<<i, j>> \in (1..Len(sh)) \X (1..Len(sh)) : i < j /\ sh[i].b # sh[j].b /\ Supported(sh[i].t, sh[j].t)}
\* the order in which a pair of shapes is given to its solver
InOrder(sh, i, j) == IF Swapped(sh[i].t, sh[j].t) THEN <<j, i>> ELSE <<i, j>>
=============================================================================
