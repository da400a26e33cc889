----------------------------- MODULE WorldTree -----------------------------
(***************************************************************************)
(* The structure of a world (arboris/core.py): bodies linked by joints in  *)
(* a tree whose root is the ground, frames, shapes, constraints and        *)
(* controllers registered in the world, degrees of freedom.                *)
(*                                                                         *)
(* The operators take the universe U of the existing objects:              *)
(*   U.nb      bodies 1..nb, the ground is 0                               *)
(*   U.nd      U.nd[j] is the number of dof of the joint j                 *)
(*   U.fb      U.fb[k] is the body of the subframe k                       *)
(*   U.sf      U.sf[s] is the frame given to the shape s at its creation   *)
(*   U.cf      U.cf[c] are the moving frames of the constraint c           *)
(*   U.nc      controllers 1..nc                                           *)
(* A frame is the body b itself (number b) or the subframe k (100 + k).    *)
(*                                                                         *)
(* The state of a world is a record w:                                     *)
(*   w.kids    w.kids[b]: joints attached to b, in order                   *)
(*   w.par     w.par[b]: the parent joint of b, or 0                       *)
(*   w.fr      w.fr[j]: << frame0, frame1 >>, << >> for an unused joint    *)
(*   w.frames, w.shapes, w.cons, w.ctrls: registered objects, in order     *)
(*   w.ready   the world was initialised after the last change             *)
(*   w.dof     w.dof[j]: << start, stop >> given by the last init          *)
(*   w.q, w.v  position and velocity of the joints (opaque values)         *)
(*   w.sf      w.sf[s]: current frame of the shape s                       *)
(*   w.moved   shapes which were given another frame and were not          *)
(*             registered since then                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SUBFRAME == 100
BodyOf(U, f) == IF f < SUBFRAME THEN f ELSE U.fb[f - SUBFRAME]

Bodies(U) == 0..U.nb
Joints(U) == 1..Len(U.nd)

Empty(U, q, v) ==
  [kids |-> [b \in Bodies(U) |-> <<>>], par |-> [b \in Bodies(U) |-> 0],
   fr |-> [j \in Joints(U) |-> <<>>],
   frames |-> <<>>, shapes |-> <<>>, cons |-> <<>>, ctrls |-> <<>>,
   ready |-> FALSE, dof |-> [j \in Joints(U) |-> <<-1, -1>>],
   q |-> q, v |-> v, sf |-> U.sf, moved |-> {}]

Parent(U, w, b) == BodyOf(U, w.fr[w.par[b]][1])
Child(U, w, j)  == BodyOf(U, w.fr[j][2])

-----------------------------------------------------------------------------
(* Traversals                                                              *)

RECURSIVE DescJoints(_, _, _), DescOf(_, _, _)
DescOf(U, w, js) == IF js = <<>> THEN <<>>
  ELSE <<js[1]>> \o DescJoints(U, w, Child(U, w, js[1])) \o DescOf(U, w, Tail(js))
\* joints below the body b: depth first, children in order of attachment
DescJoints(U, w, b) == DescOf(U, w, w.kids[b])

\* bodies below b
DescBodies(U, w, b) == LET js == DescJoints(U, w, b)
                       IN [i \in 1..Len(js) |-> Child(U, w, js[i])]

RECURSIVE AncJoints(_, _, _)
AncJoints(U, w, b) == IF w.par[b] = 0 THEN <<>>
                      ELSE <<w.par[b]>> \o AncJoints(U, w, Parent(U, w, b))
AncBodies(U, w, b) == LET js == AncJoints(U, w, b)
                      IN [i \in 1..Len(js) |-> BodyOf(U, w.fr[js[i]][1])]

AllJoints(U, w) == DescJoints(U, w, 0)
AllBodies(U, w) == <<0>> \o DescBodies(U, w, 0)
Range(s) == {s[i] : i \in 1..Len(s)}
InWorld(U, w, b) == b \in Range(AllBodies(U, w))

RECURSIVE SumDof(_, _)
SumDof(U, js) == IF js = <<>> THEN 0 ELSE U.nd[js[1]] + SumDof(U, Tail(js))
NDof(U, w) == SumDof(U, AllJoints(U, w))

-----------------------------------------------------------------------------
(* Changes                                                                 *)

AddOnce(s, x) == IF x \in Range(s) THEN s ELSE Append(s, x)
RegFrame(w, f) == IF f < SUBFRAME THEN w ELSE [w EXCEPT !.frames = AddOnce(@, f)]
RECURSIVE RegFrames(_, _)
RegFrames(w, fs) == IF fs = <<>> THEN w ELSE RegFrames(RegFrame(w, fs[1]), Tail(fs))

\* a link which would give a second parent to a body, or close a loop
Refused(U, w, l) ==
  LET b0 == BodyOf(U, l[1])  b1 == BodyOf(U, l[3])
  IN \/ w.par[b1] # 0
     \/ b1 = 0
     \/ b1 = b0
     \/ b1 \in Range(AncBodies(U, w, b0))

Link(U, w, l) ==
  LET f0 == l[1]  j == l[2]  f1 == l[3]
      w1 == [w EXCEPT !.kids[BodyOf(U, f0)] = Append(@, j),
                      !.par[BodyOf(U, f1)] = j,
                      !.fr[j] = <<f0, f1>>,
                      !.ready = FALSE]
  IN RegFrame(RegFrame(w1, f0), f1)

\* links are added one after the other, up to the first one which is refused
RECURSIVE AddLinks(_, _, _)
AddLinks(U, w, ls) ==
  IF ls = <<>> THEN [w |-> w, ok |-> TRUE]
  ELSE IF Refused(U, w, ls[1]) THEN [w |-> w, ok |-> FALSE]
  ELSE AddLinks(U, Link(U, w, ls[1]), Tail(ls))

\* joints may be linked when they are not used
AddEnabled(U, w, ls) ==
  /\ \A i \in 1..Len(ls) : w.fr[ls[i][2]] = <<>>
  /\ \A i, k \in 1..Len(ls) : i # k => ls[i][2] # ls[k][2]

RECURSIVE Number(_, _, _, _)
Number(U, js, start, dof) ==
  IF js = <<>> THEN dof
  ELSE Number(U, Tail(js), start + U.nd[js[1]],
              [dof EXCEPT ![js[1]] = <<start, start + U.nd[js[1]]>>])
Init1(U, w) == [w EXCEPT !.ready = TRUE, !.dof = Number(U, AllJoints(U, w), 0, @)]

IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
\* replace the joint old by the links ls: a chain or, more generally, a tree of
\* new bodies which hangs on the first body and whose last link leads to the
\* second one
ReplaceEnabled(U, w, old, ls) ==
  /\ w.fr[old] # <<>>
  /\ Len(ls) >= 1
  /\ AddEnabled(U, w, ls)
  /\ BodyOf(U, ls[1][1]) = BodyOf(U, w.fr[old][1])
  /\ BodyOf(U, ls[Len(ls)][3]) = BodyOf(U, w.fr[old][2])
  /\ \A i \in 1..(Len(ls)-1) :
       LET b == BodyOf(U, ls[i][3])
       IN /\ BodyOf(U, ls[i+1][1]) \in {BodyOf(U, ls[1][1])} \cup {BodyOf(U, ls[k][3]) : k \in 1..i}
          /\ b # 0 /\ w.par[b] = 0 /\ w.kids[b] = <<>>
          /\ b # BodyOf(U, w.fr[old][1]) /\ b # BodyOf(U, w.fr[old][2])
          /\ \A k \in 1..(i-1) : BodyOf(U, ls[k][3]) # b
Replace(U, w, old, ls) ==
  LET b0 == BodyOf(U, w.fr[old][1])
      b1 == BodyOf(U, w.fr[old][2])
      i  == IndexOf(w.kids[b0], old)
      w1 == [w EXCEPT !.par[b1] = 0, !.fr[old] = <<>>]
      w2 == AddLinks(U, w1, ls).w        \* the new branch is the last child
      n  == Len(w2.kids[b0])
      w3 == [w2 EXCEPT !.kids[b0] = [k \in 1..(n-1) |-> IF k = i THEN @[n] ELSE @[k]]]
  IN Init1(U, w3)

RegShape(U, w, s) == RegFrame([w EXCEPT !.shapes = AddOnce(@, s), !.moved = @ \ {s}], w.sf[s])
\* the user gives another frame to a shape
Reframe(U, w, s, f) == [w EXCEPT !.sf[s] = f, !.moved = @ \cup {s}]
RegCons(U, w, c)  == IF c \in Range(w.cons) THEN w
                     ELSE RegFrames([w EXCEPT !.cons = Append(@, c), !.ready = FALSE], U.cf[c])
RegCtrl(U, w, c)  == [w EXCEPT !.ctrls = AddOnce(@, c), !.ready = (@ /\ c \in Range(w.ctrls))]

-----------------------------------------------------------------------------
(* One operation of a history.  ok is FALSE when the request is refused.   *)

Enabled(U, w, op) ==
  CASE op.op = "add" -> AddEnabled(U, w, op.links)
    [] op.op = "replace" -> ReplaceEnabled(U, w, op.old, op.links)
    [] op.op \in {"setv", "setq"} -> TRUE
    [] op.op = "step" -> w.ready
    [] OTHER -> TRUE

Apply(U, w, op) ==
  CASE op.op = "add" -> AddLinks(U, w, op.links)
    [] op.op = "replace" -> [w |-> Replace(U, w, op.old, op.links), ok |-> TRUE]
    [] op.op = "frame" -> [w |-> RegFrame(w, op.id), ok |-> TRUE]
    [] op.op = "shape" -> [w |-> RegShape(U, w, op.id), ok |-> TRUE]
    [] op.op = "reframe" -> [w |-> Reframe(U, w, op.id, op.f), ok |-> TRUE]
    [] op.op = "cons" -> [w |-> RegCons(U, w, op.id), ok |-> TRUE]
    [] op.op = "ctrl" -> [w |-> RegCtrl(U, w, op.id), ok |-> TRUE]
    [] op.op \in {"joint", "junk"} -> [w |-> w, ok |-> FALSE]
    [] op.op = "init" -> [w |-> Init1(U, w), ok |-> TRUE]
    [] op.op = "setv" -> [w |-> [w EXCEPT !.v[op.id] = op.val], ok |-> TRUE]
    [] op.op = "setq" -> [w |-> [w EXCEPT !.q[op.id] = op.val], ok |-> TRUE]
    \* an integration moves the joints of the world only
    [] op.op = "step" -> [w |-> [w EXCEPT
         !.q = [j \in Joints(U) |-> IF j \in Range(AllJoints(U, w)) THEN op.q[j] ELSE w.q[j]],
         !.v = [j \in Joints(U) |-> IF j \in Range(AllJoints(U, w)) THEN op.v[j] ELSE w.v[j]]], ok |-> TRUE]
    \* changes made by the user to what the world returned
    [] op.op = "scribble" -> [w |-> w, ok |-> TRUE]

-----------------------------------------------------------------------------
(* Invariants of the design                                                *)

NoDup(s) == \A i, k \in 1..Len(s) : i # k => s[i] # s[k]

\* each linked body has one parent joint, whose frames are on its parent and
\* on itself, and the ground is reached by following the parents
TreeInv(U, w) ==
  /\ w.par[0] = 0
  /\ \A b \in 1..U.nb : w.par[b] # 0 =>
       /\ Child(U, w, w.par[b]) = b
       /\ w.par[b] \in Range(w.kids[Parent(U, w, b)])
  /\ \A b \in Bodies(U) : /\ NoDup(w.kids[b])
                          /\ \A j \in Range(w.kids[b]) :
                               /\ w.fr[j] # <<>>
                               /\ BodyOf(U, w.fr[j][1]) = b
                               /\ w.par[Child(U, w, j)] = j
  /\ NoDup(AllBodies(U, w)) /\ NoDup(AllJoints(U, w))
  /\ \A i \in 2..Len(AllBodies(U, w)) :
       LET b == AllBodies(U, w)[i] a == AncBodies(U, w, b)
       IN a[Len(a)] = 0 /\ NoDup(a) /\ b \notin Range(a)

\* contiguous ranges in the order of enumeration
DofInv(U, w) ==
  w.ready =>
    LET js == AllJoints(U, w)
    IN \A i \in 1..Len(js) :
         /\ w.dof[js[i]][1] = (IF i = 1 THEN 0 ELSE w.dof[js[i-1]][2])
         /\ w.dof[js[i]][2] = w.dof[js[i]][1] + U.nd[js[i]]

RegInv(U, w) ==
  /\ NoDup(w.frames) /\ NoDup(w.shapes) /\ NoDup(w.cons) /\ NoDup(w.ctrls)
  /\ \A s \in Range(w.shapes) \ w.moved : w.sf[s] >= SUBFRAME => w.sf[s] \in Range(w.frames)
  /\ \A c \in Range(w.cons) : Range(U.cf[c]) \subseteq Range(w.frames)
  /\ \A j \in Joints(U) : w.fr[j] # <<>> =>
        \A f \in Range(w.fr[j]) : f >= SUBFRAME => f \in Range(w.frames)

-----------------------------------------------------------------------------
(* Traversal by a visitor: log is a sequence of << kind, id >>, for links  *)
(* << "link", j >>.  Bodies are visited with kind "frame".                 *)

PosIn(s, x) == IF x \in Range(s) THEN IndexOf(s, x) ELSE 0
VisitOK(U, w, log) ==
  LET pos(x) == PosIn(log, x)
      visible == {f \in Range(w.frames) : InWorld(U, w, BodyOf(U, f))}
      shapes == {s \in Range(w.shapes) : /\ InWorld(U, w, BodyOf(U, w.sf[s]))
                                         /\ w.sf[s] < SUBFRAME \/ w.sf[s] \in Range(w.frames)}
      expected == {<<"frame", b>> : b \in Range(AllBodies(U, w))}
            \cup {<<"frame", f>> : f \in visible}
            \cup {<<"link", j>> : j \in Range(AllJoints(U, w))}
            \cup {<<"shape", s>> : s \in shapes}
            \cup {<<"cons", c>> : c \in Range(w.cons)}
            \cup {<<"ctrl", c>> : c \in Range(w.ctrls)}
      last == {i \in 1..Len(log) : log[i][1] \in {"cons", "ctrl"}}
  IN /\ NoDup(log)
     /\ Range(log) = expected
     /\ log[1] = <<"frame", 0>>
     /\ \A j \in Range(AllJoints(U, w)) :
          /\ pos(<<"link", j>>) > pos(<<"frame", BodyOf(U, w.fr[j][1])>>)
          /\ pos(<<"frame", Child(U, w, j)>>) = pos(<<"link", j>>) + 1
     /\ \A f \in visible : pos(<<"frame", f>>) > pos(<<"frame", BodyOf(U, f)>>)
     /\ \A s \in shapes : pos(<<"shape", s>>) > pos(<<"frame", w.sf[s]>>)
     /\ \A i \in last : \A k \in (1..Len(log)) \ last : k < i
=============================================================================
