------------------------------ MODULE MCMatlab ------------------------------
(***************************************************************************)
(* Robots for Matlab, for all small trees: what is written is read as the  *)
(* same tree, the branches come after their root; converting the joints    *)
(* one after the other, in any order, keeps the poses and ends with joints *)
(* which turn around one axis.                                             *)
(***************************************************************************)
EXTENDS Matlab, TLC, Json, IOUtils
NB == atoi(IOEnv.NB)
Deep == IOEnv.DEEP = "1"
Types == IF Deep THEN {"RxJoint", "RzJoint", "RzRyRxJoint", "RyRxJoint"} ELSE {"RzJoint", "RzRxJoint"}
Roots == {"FreeJoint", "RyJoint"} \cup (IF Deep THEN {"RzRyJoint"} ELSE {})
VARIABLES c0, c, cor, done, id
vars == <<c0, c, cor, done, id>>
Disp(n) == CASE n = 0 -> I4
             [] n = 1 -> Hom(RotOf(RotZ(One)), <<Half, Zero, FInt(-1)>>)
             [] n = 2 -> Hom(RotOf(RotX(FInt(2))), <<Zero, One, Half>>)
World(par, ty) ==
  LET L(j) == [parent |-> par[j], child |-> j, type |-> ty[j], h0 |-> Disp(j % 3), h1 |-> Disp((2*j + 1) % 3)]
      Q(j) == IF ty[j] = "FreeJoint" THEN Disp(2) ELSE LET F(m) == FDiv(FInt(3*j - 2*m), FInt(4)) IN EqSeq(NDofOf(ty[j]), F)
      V(j) == LET F(m) == FInt(1 - j + m) IN EqSeq(NDofOf(ty[j]), F)
      M(j) == Mat0(6, 6)
  IN [nb |-> NB, links |-> EqSeq(NB, L), mass |-> EqSeq(NB, M), visc |-> EqSeq(NB, M), up |-> <<Zero, One, Zero>>, q |-> EqSeq(NB, Q), v |-> EqSeq(NB, V)]
\* numbers of the links of the first world, 0 for those which are made
Init == \E par \in {p \in [1..NB -> 0..(NB-1)] : p[1] = 0 /\ \A j \in 2..NB : p[j] < j /\ p[j] > 0},
           ty \in {t \in [1..NB -> Types \cup Roots] : t[1] \in Roots /\ \A j \in 2..NB : t[j] \in Types} :
          /\ c0 = World(par, ty) /\ c = c0 /\ cor = Same(c0) /\ done = FALSE
          /\ id = [j \in 1..NB |-> j]
          /\ PrintT("B " \o ToJson([par |-> par, ty |-> ty]))
Todo == {k \in 1..NL(c) : c.links[k].type \in Multi}
Next == /\ ~done
        /\ IF Todo = {} THEN done' = TRUE /\ UNCHANGED <<c, cor, id>>
           ELSE \E k \in Todo : LET r == Rewrite(c, [op |-> "chain", k |-> k])  n == Len(Axes(c.links[k].type))
                IN /\ c' = r.c /\ cor' = Then(cor, r.cor) /\ done' = FALSE
                   /\ id' = [j \in 1..NL(r.c) |-> IF j < k THEN id[j] ELSE IF j < k + n THEN 0 ELSE id[j - n + 1]]
        /\ UNCHANGED c0
Spec == Init /\ [][Next]_vars
Tol == Eps(12)
Root(x) == CHOOSE k \in 1..NL(x) : x.links[k].parent = 0
\* read again, the branches are the tree
Same3(B) == LET E == Flat(B) IN Same2(E, 1, c, Root(c), [x \in 1..Len(E) |-> [k \in 1..NL(c) |-> E[x].l = k]])
Writes == LET B == Branches(c, Root(c))
          IN /\ Len(Flat(B)) = NL(c)
             /\ Same3(B)
             /\ \A b \in 2..Len(B) : B[b].root[1] \in 1..(b-1) /\ B[b].root[2] \in 1..Len(B[B[b].root[1]].ls)
\* another tree is not taken for it
Tells == LET B == Branches(c, Root(c))
         IN \A b \in 2..Len(B) : \A y \in UNION {{<<a, d>> : d \in 1..Len(B[a].ls)} : a \in 1..(b-1)} :
              Same3([B EXCEPT ![b].root = y]) <=> y = B[b].root
Poses == LET J0 == BodyJets(c0, c0.q, c0.v)  J1 == BodyJets(c, c.q, c.v)
         IN \A x \in 1..NB : MNear(J1[cor.b[x+1][1]].h, J0[x].h, Tol)
\* the chains are those of the definition
Chains == done => \A k \in 1..NB : LET x == Replaced(c0, k, Root(c0))
                                       own == IF c0.links[k].type \in Multi THEN Chained(c0, k) ELSE <<>>
                                   IN /\ own # <<>> => SubSeq([x EXCEPT ![Len(x) - Len(own) + 1].h0 = I4], Len(x) - Len(own) + 1, Len(x)) = [own EXCEPT ![1].h0 = I4]
                                      /\ \A m \in 1..Len(x) : x[m].type \in Revolute \cup {"FreeJoint"}
Ends == done => \A k \in 1..NL(c) : c.links[k].type \in Revolute \cup {"FreeJoint"}
=============================================================================
