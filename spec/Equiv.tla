------------------------------- MODULE Equiv -------------------------------
(***************************************************************************)
(* Several descriptions of the same mechanical system.                     *)
(*                                                                         *)
(* A rewriting changes the description of a tree of bodies (see Tree.tla,  *)
(* with the vertical axis c.up, the positions c.q and velocities c.v of    *)
(* the links) but neither the bodies nor their motion.  It comes with the  *)
(* correspondence between both descriptions:                               *)
(*   h     the displacement of the ground: what was at the pose X is at    *)
(*         the pose h X,                                                   *)
(*   b     for each body x, b[x+1] = <<y, D>>: the body y is now at the    *)
(*         pose h X D when x was at the pose X,                            *)
(*   k     for each degree of freedom m of the link j, k[j][m] = <<i, n,   *)
(*         s>>: it is now the n-th one of the link i, with the sign s,     *)
(*   a     the masses and the forces are multiplied by a.                  *)
(***************************************************************************)
EXTENDS Tree

EqSeq(n, F(_)) == LET g[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(g[k-1], F(k)) IN g[n]
NL(c) == Len(c.links)
Same(c) == LET B(x) == <<x-1, I4>>
               K(j) == LET D(m) == <<j, m, 1>> IN EqSeq(DofOf(c, j), D)
           IN [h |-> I4, b |-> EqSeq(c.nb + 1, B), k |-> EqSeq(NL(c), K), a |-> One]
\* c0 is described by cor as c1, which is described by d as c2
Then(cor, d) ==
  LET B(x) == LET p == cor.b[x]  r == d.b[p[1]+1] IN <<r[1], MMul(p[2], r[2])>>
      K(j) == LET D(m) == LET p == cor.k[j][m]  r == d.k[p[1]][p[2]] IN <<r[1], r[2], p[3] * r[3]>> IN EqSeq(Len(cor.k[j]), D)
  IN [h |-> MMul(d.h, cor.h), b |-> EqSeq(Len(cor.b), B), k |-> EqSeq(Len(cor.k), K), a |-> FMul(d.a, cor.a)]

\* frames: from a body to the one which replaces it
Moved(cor, b, h) == MMul(HInv(cor.b[b+1][2]), h)

Insert(s, pos, xs) == SubSeq(s, 1, pos - 1) \o xs \o SubSeq(s, pos, Len(s))
Remove(s, pos) == SubSeq(s, 1, pos - 1) \o SubSeq(s, pos + 1, Len(s))
ParentLink(c, b) == CHOOSE k \in 1..NL(c) : c.links[k].child = b
Index(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
TypeOfAxis(a) == <<"RxJoint", "RyJoint", "RzJoint", "TxJoint", "TyJoint", "TzJoint">>[a]

\* the whole world is placed elsewhere
Place(c, H) ==
  LET L(j) == IF c.links[j].parent = 0 THEN [c.links[j] EXCEPT !.h0 = MMul(H, @)] ELSE c.links[j]
  IN [c |-> [c EXCEPT !.links = EqSeq(NL(c), L), !.up = MoveVector(H, @)],
      cor |-> [Same(c) EXCEPT !.h = H, !.b[1] = <<0, HInv(H)>>]]
\* the links are attached in another order: the new j-th one is perm[j]
Reorder(c, perm) ==
  LET P(s) == LET F(j) == s[perm[j]] IN EqSeq(NL(c), F)
      K(j) == LET D(m) == <<Index(perm, j), m, 1>> IN EqSeq(DofOf(c, j), D)
  IN [c |-> [c EXCEPT !.links = P(@), !.q = P(@), !.v = P(@)],
      cor |-> [Same(c) EXCEPT !.k = EqSeq(NL(c), K)]]
\* another origin and other axes for a body
Origin(c, b, D) ==
  LET L(j) == LET l == c.links[j]
              IN [l EXCEPT !.h0 = IF l.parent = b THEN MMul(HInv(D), @) ELSE @,
                           !.h1 = IF l.child = b THEN MMul(HInv(D), @) ELSE @]
  IN [c |-> [c EXCEPT !.links = EqSeq(NL(c), L), !.mass[b] = Transport(@, D), !.visc[b] = Transport(@, D)],
      cor |-> [Same(c) EXCEPT !.b[b+1] = <<b, D>>]]
\* the links move when others are inserted, or removed, from the position pos
Shifted(c, pos, n) ==
  LET K(j) == LET D(m) == <<IF j < pos THEN j ELSE j + n, m, 1>> IN EqSeq(DofOf(c, j), D)
  IN [Same(c) EXCEPT !.k = EqSeq(NL(c), K)]
\* a part of a body becomes another body, which is fixed to it and bears some
\* of the links
Split(c, b, P, Q, share, kids) ==
  LET X == MMul(P, HInv(Q))
      n == c.nb + 1
      pos == IF b = 0 THEN 1 ELSE ParentLink(c, b) + 1
      L(j) == IF j \in kids THEN [c.links[j] EXCEPT !.parent = n, !.h0 = MMul(HInv(X), @)] ELSE c.links[j]
      new == [parent |-> b, child |-> n, type |-> "FixedJoint", h0 |-> P, h1 |-> Q]
      M == IF b = 0 THEN Mat0(6, 6) ELSE Transport(MScale(share, c.mass[b]), X)
  IN [c |-> [c EXCEPT !.nb = n, !.links = Insert(EqSeq(NL(c), L), pos, <<new>>),
                      !.q = Insert(@, pos, <<<<>>>>), !.v = Insert(@, pos, <<<<>>>>),
                      !.mass = Append(IF b = 0 THEN @ ELSE [@ EXCEPT ![b] = MScale(FSub(One, share), @)], M),
                      !.visc = Append(@, Mat0(6, 6))],
      cor |-> Shifted(c, pos, 1)]
\* two bodies which are fixed to each other are one body
Merge(c, k) ==
  LET l == c.links[k]  x == l.child  p == l.parent
      X == MMul(l.h0, HInv(l.h1))
      Body(y) == IF y > x THEN y - 1 ELSE y
      L(j) == LET g == c.links[j]
              IN IF g.parent = x THEN [g EXCEPT !.parent = Body(p), !.child = Body(@), !.h0 = MMul(X, @)]
                 ELSE [g EXCEPT !.parent = Body(@), !.child = Body(@)]
      Sum2(s) == IF p = 0 THEN s ELSE [s EXCEPT ![p] = MAdd(@, Transport(s[x], HInv(X)))]
      B(y) == IF y - 1 = x THEN <<Body(p), HInv(X)>> ELSE <<Body(y - 1), I4>>
  IN [c |-> [c EXCEPT !.nb = @ - 1, !.links = Remove(EqSeq(NL(c), L), k), !.q = Remove(@, k), !.v = Remove(@, k),
                      !.mass = Remove(Sum2(@), x), !.visc = Remove(Sum2(@), x)],
      cor |-> [Shifted(c, k, -1) EXCEPT !.b = EqSeq(c.nb + 1, B)]]
\* a joint becomes a chain of simple joints between massless bodies
Chain(c, k) ==
  LET l == c.links[k]  ax == Axes(l.type)  n == Len(ax)
      New(m) == [parent |-> IF m = 1 THEN l.parent ELSE c.nb + m - 1,
                 child |-> IF m = n THEN l.child ELSE c.nb + m,
                 type |-> TypeOfAxis(ax[m]),
                 h0 |-> IF m = 1 THEN l.h0 ELSE I4,
                 h1 |-> IF m = n THEN l.h1 ELSE I4]
      One1(s) == LET F(m) == <<s[m]>> IN EqSeq(n, F)
      Swap(s, xs) == Insert(Remove(s, k), k, xs)
      Z(m) == Mat0(6, 6)
      K(j) == LET D(m) == IF j = k THEN <<k + m - 1, 1, 1>> ELSE <<IF j < k THEN j ELSE j + n - 1, m, 1>>
              IN EqSeq(DofOf(c, j), D)
  IN [c |-> [c EXCEPT !.nb = @ + n - 1, !.links = Swap(@, EqSeq(n, New)),
                      !.q = Swap(@, One1(c.q[k])), !.v = Swap(@, One1(c.v[k])),
                      !.mass = @ \o EqSeq(n - 1, Z), !.visc = @ \o EqSeq(n - 1, Z)],
      cor |-> [Same(c) EXCEPT !.k = EqSeq(NL(c), K)]]
\* both frames of a joint are turned: its axis is reversed, or has another name
Turned(c, k, F) == [c.links[k] EXCEPT !.h0 = MMul(@, F), !.h1 = MMul(@, F)]
Flip(c, k) ==
  LET a == ((Axes(c.links[k].type)[1] - 1) % 3) + 1
      S(i) == LET j == i IN IF j = 4 \/ j = a THEN (IF j = 4 THEN One ELSE FInt(-1))
                       ELSE IF j = (a % 3) + 1 THEN FInt(-1) ELSE One
      F == Diag(EqSeq(4, S))
  IN [c |-> [c EXCEPT !.links[k] = Turned(c, k, F), !.q[k] = VNeg(@), !.v[k] = VNeg(@)],
      cor |-> [Same(c) EXCEPT !.k[k] = <<<<k, 1, -1>>>>]]
Rename(c, k, t) ==
  LET a == Axes(c.links[k].type)[1]  b == Axes(t)[1]
      s == (a - b + 6) % 3
      \* the axis i becomes the axis i + s
      Row(i) == LET Col(j) == IF i = 4 \/ j = 4 THEN (IF i = j THEN One ELSE Zero)
                             ELSE IF i = ((j - 1 + s) % 3) + 1 THEN One ELSE Zero IN EqSeq(4, Col)
      F == EqSeq(4, Row)
  IN [c |-> [c EXCEPT !.links[k] = [Turned(c, k, F) EXCEPT !.type = t]], cor |-> Same(c)]
\* other units of mass
Scale(c, a) ==
  LET F(s) == LET G(b) == MScale(a, s[b]) IN EqSeq(c.nb, G)
  IN [c |-> [c EXCEPT !.mass = F(@), !.visc = F(@)], cor |-> [Same(c) EXCEPT !.a = a]]

RangeOf(s) == {s[j] : j \in 1..Len(s)}
\* what may be rewritten
Simple(t) == Len(IF t = "FreeJoint" THEN <<>> ELSE Axes(t)) = 1
Applies(c, op) ==
  CASE op.op \in {"place", "scale"} -> TRUE
    [] op.op = "order" -> /\ RangeOf(op.perm) = 1..NL(c) /\ Len(op.perm) = NL(c)
                          /\ \A j \in 1..NL(c) : LET p == c.links[op.perm[j]].parent
                                                 IN p = 0 \/ \E i \in 1..(j-1) : c.links[op.perm[i]].child = p
    [] op.op = "origin" -> op.b \in 1..c.nb
    [] op.op = "split" -> op.b \in 0..c.nb /\ \A j \in RangeOf(op.kids) : c.links[j].parent = op.b
    [] op.op = "merge" -> op.k \in 1..NL(c) /\ c.links[op.k].type = "FixedJoint"
    [] op.op = "chain" -> op.k \in 1..NL(c) /\ c.links[op.k].type \in {"RzRyRxJoint", "RzRyJoint", "RzRxJoint", "RyRxJoint", "TxTyTzJoint"}
    [] op.op = "flip" -> op.k \in 1..NL(c) /\ Simple(c.links[op.k].type)
    [] op.op = "rename" -> /\ op.k \in 1..NL(c) /\ Simple(c.links[op.k].type) /\ Simple(op.type)
                           /\ (Axes(op.type)[1] > 3) = (Axes(c.links[op.k].type)[1] > 3)
Rewrite(c, op) ==
  CASE op.op = "place" -> Place(c, op.H)
    [] op.op = "order" -> Reorder(c, op.perm)
    [] op.op = "origin" -> Origin(c, op.b, op.H)
    [] op.op = "split" -> Split(c, op.b, op.P, op.Q, op.a, RangeOf(op.kids))
    [] op.op = "merge" -> Merge(c, op.k)
    [] op.op = "chain" -> Chain(c, op.k)
    [] op.op = "flip" -> Flip(c, op.k)
    [] op.op = "rename" -> Rename(c, op.k, op.type)
    [] op.op = "scale" -> Scale(c, op.a)
RECURSIVE Rewritten(_, _, _)
Rewritten(c, cor, ops) ==
  IF ops = <<>> THEN [c |-> c, cor |-> cor]
  ELSE LET r == Rewrite(c, ops[1]) IN Rewritten(r.c, Then(cor, r.cor), Tail(ops))
=============================================================================
