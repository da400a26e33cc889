------------------------------- MODULE Matlab -------------------------------
(***************************************************************************)
(* Robots for Matlab.                                                      *)
(*                                                                         *)
(* There, a robot is a tree which is attached to the ground by a free      *)
(* joint, and whose other joints turn around one axis.  It is written as a *)
(* list of branches: each one has a root <<branch, number>> (<<0, 0>> for  *)
(* the first one) and a list of links, each attached to the one before it. *)
(* The positions of the joints are listed in the order of the branches.    *)
(* Linear parts come first.                                                *)
(*                                                                         *)
(* A robot which has other joints is converted: the joints which turn      *)
(* around several axes become chains, and the robot is put on a base.      *)
(***************************************************************************)
EXTENDS Equiv, FiniteSets

Revolute == {"RxJoint", "RyJoint", "RzJoint"}
Multi == {"RzRyRxJoint", "RzRyJoint", "RzRxJoint", "RyRxJoint"}
\* the links which are below the link r
RECURSIVE Below(_, _)
Below(c, r) == LET K == {j \in 1..Len(c.links) : c.links[j].parent = c.links[r].child} IN K \cup UNION {Below(c, k) : k \in K}

\* ------------------------------------------------- what is written
KidLinks(c, b) == LET F[j \in 0..Len(c.links)] == IF j = 0 THEN <<>> ELSE IF c.links[j].parent = b THEN Append(F[j-1], j) ELSE F[j-1] IN F[Len(c.links)]
\* branches: sequence of [root, ls], where ls is a sequence of links
RECURSIVE Go(_, _, _, _), Rest(_, _, _, _)
Go(c, B, ks, parent) ==
  IF ks = <<>> THEN B
  ELSE LET b == Len(B)
           B1 == [B EXCEPT ![b].ls = Append(@, ks[1])]
           B2 == Go(c, B1, KidLinks(c, c.links[ks[1]].child), <<b, Len(B1[b].ls)>>)
       IN Rest(c, B2, Tail(ks), parent)
Rest(c, B, ks, parent) ==
  IF ks = <<>> THEN B
  ELSE LET B1 == Append(B, [root |-> parent, ls |-> <<ks[1]>>])
           B2 == Go(c, B1, KidLinks(c, c.links[ks[1]].child), <<Len(B1), 1>>)
       IN Rest(c, B2, Tail(ks), parent)
Branches(c, r) == Go(c, <<[root |-> <<0, 0>>, ls |-> <<>>]>>, <<r>>, <<0, 0>>)

\* ------------------------------------------------- what is read
\* B is a list of branches, whose links are numbered all together: [par, l]
\* are the number of the one it is attached to, 0 for the first one, and the
\* link
Offset(B, b) == LET F[j \in 0..(b-1)] == IF j = 0 THEN 0 ELSE F[j-1] + Len(B[j].ls) IN F[b-1]
Number(B, x) == Offset(B, x[1]) + x[2]
Flat(B) ==
  LET Links(b) == LET o == Offset(B, b)  p == IF B[b].root = <<0, 0>> THEN 0 ELSE Number(B, B[b].root)
                      L(d) == [par |-> IF d = 1 THEN p ELSE o + d - 1, l |-> B[b].ls[d]]
                  IN EqSeq(Len(B[b].ls), L)
      F[b \in 0..Len(B)] == IF b = 0 THEN <<>> ELSE F[b-1] \o Links(b)
  IN F[Len(B)]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* the link x of the list E, with all that is attached to it, is the link k
\* with all its descendants; Like[x][k]: both links are alike. This is an
\* equivalence: any pairing of the children which are the same will do
RECURSIVE Same2(_, _, _, _, _), Paired(_, _, _, _, _)
Same2(E, x, c, k, Like) ==
  /\ Like[x][k]
  /\ LET A == {y \in 1..Len(E) : E[y].par = x}  K == {j \in 1..Len(c.links) : c.links[j].parent = c.links[k].child}
     IN Cardinality(A) = Cardinality(K) /\ Paired(E, SeqOf(A), c, K, Like)
Paired(E, A, c, K, Like) ==
  IF A = <<>> THEN TRUE
  ELSE LET M == {k \in K : Same2(E, A[1], c, k, Like)}
       IN IF M = {} THEN FALSE ELSE LET m == CHOOSE k \in M : TRUE IN Paired(E, Tail(A), c, K \ {m}, Like)

\* ------------------------------------------------- what is converted
SmallMass == FDiv(One, FInt(100))
Intermediate == Diag(<<SmallMass, SmallMass, SmallMass, FDiv(SmallMass, FInt(10)), FDiv(SmallMass, FInt(10)), FDiv(SmallMass, FInt(10))>>)
Base == BoxMass(<<FDiv(One, FInt(4)), FDiv(One, FInt(10)), FDiv(One, FInt(20))>>, FInt(10000))
\* the links which replace the link k of c, from the parent to the child;
\* n: the joint is the same one, h0, h1: frames
Suffix(t) == CASE t = "RxJoint" -> "Rx" [] t = "RyJoint" -> "Ry" [] t = "RzJoint" -> "Rz"
Chained(c, k) ==
  LET l == c.links[k]  ax == Axes(l.type)  n == Len(ax)
      P(m) == [type |-> TypeOfAxis(ax[m]), old |-> FALSE, h0 |-> IF m = 1 THEN l.h0 ELSE I4, h1 |-> IF m = n THEN l.h1 ELSE I4]
  IN EqSeq(n, P)
Replaced(c, k, r) ==
  LET l == c.links[k]
      keep == [type |-> l.type, old |-> TRUE, h0 |-> l.h0, h1 |-> l.h1]
  IN IF k = r THEN (IF l.type = "FreeJoint" THEN <<keep>>
                    ELSE LET free == [type |-> "FreeJoint", old |-> FALSE, h0 |-> l.h0, h1 |-> I4]
                             own == IF l.type \in Multi THEN Chained(c, k) ELSE <<keep>>
                         IN <<free>> \o [own EXCEPT ![1].h0 = I4])
     ELSE IF k \in Below(c, r) /\ l.type \in Multi THEN Chained(c, k) ELSE <<keep>>
=============================================================================
