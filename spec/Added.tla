-------------------------------- MODULE Added --------------------------------
(***************************************************************************)
(* Shapes of other files which are added to a collada file (V03).  A file  *)
(* of shapes F is a sequence of nodes [id, up, m, leaves, inst]: up is the *)
(* node above (0: in the scene, -1: in the library), m its displacement,   *)
(* leaves what it shows, inst the nodes of the library which it shows too. *)
(***************************************************************************)
EXTENDS Integers, Sequences
Below(F, n) == {k \in 1..Len(F) : F[k].up = n}
\* the elements of a finite set of integers, in order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
\* the paths from a node to what it shows: sequences of [path (nodes), leaf]
RECURSIVE LeavesOf(_, _, _)
LeavesOf(F, n, fuel) ==
  IF fuel = 0 THEN <<>>
  ELSE LET nd == F[n]
           own == [k \in 1..Len(nd.leaves) |-> [path |-> <<n>>, leaf |-> nd.leaves[k]]]
           Through(s) == [k \in 1..Len(s) |-> [path |-> <<n>> \o s[k].path, leaf |-> s[k].leaf]]
           kids == Sorted(Below(F, n)) \o nd.inst
           f[k \in 0..Len(kids)] == IF k = 0 THEN own ELSE f[k-1] \o Through(LeavesOf(F, kids[k], fuel - 1))
       IN f[Len(kids)]
\* what is selected: the whole scene (""), or the node whose id is given
InScene(F, n) == LET f[k \in 0..Len(F)] == IF k = 0 THEN {x \in 1..Len(F) : F[x].up = 0}
                                           ELSE f[k-1] \cup {x \in 1..Len(F) : F[x].up \in f[k-1] \/ \E y \in f[k-1] : \E j \in 1..Len(F[y].inst) : F[y].inst[j] = x}
                 IN n \in f[Len(F)]
Selected(F, id) == IF id = "" THEN Sorted(Below(F, 0)) ELSE Sorted({n \in 1..Len(F) : F[n].id = id /\ InScene(F, n)})
ShownBy(F, id) == LET s == Selected(F, id)
                      f[k \in 0..Len(s)] == IF k = 0 THEN <<>> ELSE f[k-1] \o LeavesOf(F, s[k], Len(F))
                  IN f[Len(s)]
==============================================================================
