---------------------------- MODULE MCWorldTree ----------------------------
(***************************************************************************)
(* Exhaustive exploration of WorldTree within small universes.  Every      *)
(* transition of the state graph is printed with a shortest history which  *)
(* leads to it: these histories are replayed on the implementation.        *)
(***************************************************************************)
EXTENDS WorldTree, TLC, Json, IOUtils, SequencesExt, Randomization

\* "links": additions and replacements; "register": registrations
Mode == IOEnv.MODE
MaxLen == atoi(IOEnv.MAXLEN)

U == IF Mode = "links"
     THEN [nb |-> 3, nd |-> <<1, 0, 2>>, fb |-> <<0, 1>>, sf |-> <<>>, cf |-> <<>>, cs |-> <<>>, nc |-> 0]
     ELSE IF Mode = "random"
     THEN [nb |-> 5, nd |-> <<1, 0, 2, 3, 6, 1, 0>>, fb |-> <<0, 1, 2, 3, 1, 4, 1, 2, 0, 2>>,
           sf |-> <<101, 1, 103, 4>>, cf |-> <<<<107, 108>>, <<109, 110>>>>,
           cs |-> <<<<2, 3>>, <<1, 3>>>>, nc |-> 2]
     ELSE [nb |-> 2, cs |-> <<<<1, 2>>>>, nd |-> <<1, 2>>, fb |-> <<0, 1, 0, 1>>, sf |-> <<101, 1>>, cf |-> <<<<103, 104>>>>, nc |-> 1]

\* subframes which are the moving frames of constraints are not used alone
MovingFrames == UNION {Range(U.cf[c]) : c \in 1..Len(U.cf)}
SubFrames == {SUBFRAME + k : k \in 1..Len(U.fb)} \ MovingFrames
Frames == Bodies(U) \cup SubFrames

VARIABLES w, hist
vars == <<w, hist>>
View == w

Unused == {j \in Joints(U) : w.fr[j] = <<>>}
\* joints are interchangeable but for their dof: the first unused ones serve
J1 == CHOOSE j \in Unused : \A k \in Unused : j <= k
J2 == CHOOSE j \in Unused \ {J1} : \A k \in Unused \ {J1} : j <= k

LinkOps ==
  IF Unused = {} THEN {}
  ELSE [op : {"add"}, links : {<<l>> : l \in Frames \X {J1} \X Frames}]
LinkOps2 ==      \* two links in one call
  IF Cardinality(Unused) < 2 THEN {}
  ELSE [op : {"add"}, links : (Bodies(U) \X {J1} \X (1..U.nb)) \X (Bodies(U) \X {J2} \X Bodies(U))]

Replacements ==
  LET used == Joints(U) \ Unused
      one == IF Unused = {} THEN {}
             ELSE {[op |-> "replace", old |-> o, short |-> s, links |-> <<<<w.fr[o][1], J1, w.fr[o][2]>>>>] :
                      o \in used, s \in BOOLEAN}
      two == IF Cardinality(Unused) < 2 THEN {}
             ELSE {[op |-> "replace", old |-> o, short |-> FALSE,
                    links |-> <<<<w.fr[o][1], J1, b>>, <<b, J2, w.fr[o][2]>>>>] :
                      o \in used, b \in 1..U.nb}
      \* not a chain: another body is linked to the same parent, or to the new body
      fork == IF Cardinality(Unused) < 2 THEN {}
              ELSE {[op |-> "replace", old |-> o, short |-> FALSE,
                     links |-> <<<<w.fr[o][1], J1, b>>, <<w.fr[o][1], J2, w.fr[o][2]>>>>] :
                       o \in used, b \in 1..U.nb}
      side == IF Cardinality(Unused) < 3 THEN {}
              ELSE LET J3 == CHOOSE j \in Unused : j \notin {J1, J2}
                   IN {[op |-> "replace", old |-> o, short |-> FALSE,
                        links |-> <<<<w.fr[o][1], J1, b>>, <<IF s THEN b ELSE w.fr[o][1], J2, c>>, <<b, J3, w.fr[o][2]>>>>] :
                          o \in used, b \in 1..U.nb, c \in 1..U.nb, s \in BOOLEAN}
  IN {r \in one \cup two \cup fork \cup side : ReplaceEnabled(U, w, r.old, r.links)}

RegOps == {[op |-> "frame", id |-> f] : f \in Frames}
     \cup {[op |-> "shape", id |-> s] : s \in 1..Len(U.sf)}
     \cup {[op |-> "cons", id |-> c] : c \in 1..Len(U.cf)}
     \cup {[op |-> "ctrl", id |-> c] : c \in 1..U.nc}
     \cup {[op |-> "joint", id |-> 1], [op |-> "junk", id |-> 0]}
     \cup {[op |-> "reframe", id |-> s, f |-> f] : s \in 1..Len(U.sf), f \in (IF Mode = "random" THEN Frames ELSE {1, 102})}

Ops == {[op |-> "init"]} \cup
       (IF Mode = "links" THEN LinkOps \cup LinkOps2 \cup Replacements
        ELSE RegOps \cup LinkOps)

\* long random histories: the kind of operation is drawn first
StateOps == {[op |-> k, id |-> j, val |-> n] : k \in {"setv", "setq"}, j \in Joints(U), n \in 1..3}
Kind(x) == RandomElement({"add", "add", "add1", "init", "init1", "state", "state1", "step", "step1", "reg", "replace", "scribble"})
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
RandomOp1 ==
  LET k == Kind(w)
  IN IF k \in {"add", "add1"}
       THEN Pick(IF Unused = {} THEN {}
                 ELSE IF RandomElement(1..3) = 1 THEN LinkOps ELSE
                 \* requests which are more often accepted
                 LET free == {b \in 1..U.nb : w.par[b] = 0}
                     good == {l \in Frames \X Unused \X Frames :
                                 /\ BodyOf(U, l[3]) \in free
                                 /\ RandomElement(1..4) = 1 \/ InWorld(U, w, BodyOf(U, l[1]))}
                 IN {[op |-> "add", links |-> <<l>>] : l \in good})
     ELSE IF k \in {"init", "init1"} THEN {[op |-> "init"]}
     ELSE IF k \in {"state", "state1"} THEN Pick(StateOps)
     ELSE IF k \in {"step", "step1"} THEN {[op |-> "step", q |-> w.q, v |-> w.v]}
     ELSE IF k = "reg" THEN Pick(RegOps)
     ELSE IF k = "replace" THEN Pick(Replacements)
     ELSE {[op |-> "scribble"]}
RandomOps == LET s == {op \in RandomOp1 : Enabled(U, w, op)}
             IN IF s = {} THEN {[op |-> "init"]} ELSE s

NoState == [j \in Joints(U) |-> 0]
Init == w = Empty(U, NoState, NoState) /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in (IF Mode = "random" THEN RandomOps ELSE Ops) :
             /\ Enabled(U, w, op)
             /\ LET r == Apply(U, w, op)
                IN /\ w' = r.w
                   /\ hist' = Append(hist, op)
                   /\ Assert(r.ok \/ op.op # "add" \/ Len(op.links) > 1 \/ r.w = w, "refusal with an effect")
                   /\ IF Mode = "random" THEN TRUE ELSE PrintT("B " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

TypeOK == TreeInv(U, w) /\ DofInv(U, w) /\ RegInv(U, w)

\* a replacement leaves the other links as they were, and puts the new branch
\* at the place of the old one
Others(old, new) == Joints(U) \ ({old} \cup new)
ReplaceProp ==
  [][ (hist' # hist /\ hist'[Len(hist')].op = "replace") =>
      LET op == hist'[Len(hist')]
          new == {op.links[i][2] : i \in 1..Len(op.links)}
          b0 == BodyOf(U, w.fr[op.old][1])
      IN /\ \A j \in Others(op.old, new) : w'.fr[j] = w.fr[j]
         /\ w'.fr[op.old] = <<>>
         /\ LET mine == SelectSeq(op.links, LAMBDA x : BodyOf(U, x[1]) = b0)
                js == [i \in 1..Len(mine) |-> mine[i][2]]
            IN w'.kids[b0] = [i \in 1..Len(w.kids[b0]) |-> IF w.kids[b0][i] = op.old THEN Last(js) ELSE w.kids[b0][i]]
                             \o Front(js)
         /\ w'.ready ]_vars
\* registrations are never undone
Grows == [][ /\ IsPrefix(w.frames, w'.frames) /\ IsPrefix(w.shapes, w'.shapes)
             /\ IsPrefix(w.cons, w'.cons) /\ IsPrefix(w.ctrls, w'.ctrls) ]_vars

\* in simulation mode, print each behaviour when it is complete
Emit == (Mode = "random" /\ Len(hist) = MaxLen) => PrintT("B " \o ToJson(hist))
=============================================================================
