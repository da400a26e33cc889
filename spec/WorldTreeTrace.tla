--------------------------- MODULE WorldTreeTrace ---------------------------
(***************************************************************************)
(* Validation of histories recorded on the implementation against          *)
(* WorldTree: each recorded operation must have the outcome of the model,  *)
(* and everything which was observed afterwards must be the projection of  *)
(* the state of the model.  A clause which fails is printed with the       *)
(* number of the case and of the event.                                    *)
(***************************************************************************)
EXTENDS WorldTree, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE).cases
Prop == IOEnv.PROP

VARIABLES i, l, w

Filter(s, T(_)) == SelectSeq(s, T)
SeqSet(s) == Range(s)

\* the state after the event e
After(U, m, e) == IF e.op = "crash" \/ ~Enabled(U, m, e) THEN [w |-> m, ok |-> TRUE] ELSE Apply(U, m, e)

RECURSIVE Cat(_, _)
Cat(vs, js) == IF js = <<>> THEN <<>> ELSE vs[js[1]] \o Cat(vs, Tail(js))
RECURSIVE DofCat(_, _)
Ints(a, b) == [k \in 1..(b-a) |-> a + k - 1]
DofCat(dof, js) == IF js = <<>> THEN <<>>
                   ELSE Ints(dof[js[1]][1], dof[js[1]][2]) \o DofCat(dof, Tail(js))

\* names of the clauses of the property p which do not hold after the event e,
\* m and n being the states of the model before and after it
B(name, ok) == IF ok THEN {} ELSE {name}

Outcome(r, e) == IF r.ok THEN e.res = "ok" ELSE e.res = "refused"

Links(U, n, o) ==
     B("parent joints", o.par = [b \in 1..(U.nb+1) |-> n.par[b-1]])
\cup B("children joints", o.kids = [b \in 1..(U.nb+1) |-> n.kids[b-1]])
\cup B("frames of the joints", o.fr = n.fr /\ o.fr2 = n.fr)
Enumerations(U, n, o) ==
     B("iterbodies", o.bodies = AllBodies(U, n) /\ o.getbodies = AllBodies(U, n))
\cup B("iterjoints", o.joints = AllJoints(U, n))
\cup B("ancestors", /\ o.anc = [b \in 1..(U.nb+1) |-> AncBodies(U, n, b-1)]
                    /\ o.ancj = [b \in 1..(U.nb+1) |-> AncJoints(U, n, b-1)])
\cup B("descendants", /\ o.desc = [b \in 1..(U.nb+1) |-> DescBodies(U, n, b-1)]
                      /\ o.descj = [b \in 1..(U.nb+1) |-> DescJoints(U, n, b-1)])
Registers(U, n, o) ==
     B("frames", o.frames = n.frames)
\cup B("all the frames", /\ o.getframes = AllBodies(U, n) \o n.frames
                         /\ o.iterframes = AllBodies(U, n) \o n.frames /\ o.movingok)
\cup B("shapes", o.shapes = n.shapes /\ o.getshapes = n.shapes)
\cup B("constraints", o.cons = n.cons /\ o.getcons = n.cons)
\cup B("controllers", o.ctrls = n.ctrls)
Numbering(U, n, e) ==
  IF ~n.ready THEN {}
  ELSE LET o == e.obs
           js == AllJoints(U, n)
           nd == NDof(U, n)
       IN B("number of dof", o.ndof = nd)
     \cup B("dof of the joints", \A k \in 1..Len(js) : o.dof[js[k]] = n.dof[js[k]])
     \cup B("sizes", o.sizes = <<<<nd, nd>>, <<nd, nd>>, <<nd, nd>>, <<nd>>, <<nd>>>>)
     \cup B("selection of joints", \A k \in 1..Len(e.sel) : e.sel[k].dof = DofCat(n.dof, e.sel[k].js))
State(n, o) == B("positions", o.q = n.q) \cup B("velocities", o.v = n.v)
Sharing(U, n, o) == B("worldwide velocity", n.ready => o.gvel = Cat(n.v, AllJoints(U, n)))

Bad(U, m, r, e) ==
  LET n == r.w  o == e.obs
  IN IF e.op = "crash" THEN {"exception: " \o e.res}
     ELSE IF ~Enabled(U, m, e) THEN {"operation out of the model"}
     ELSE
     CASE Prop = "S01" ->
            (IF e.op \in {"add", "replace"} THEN B("outcome: " \o e.res, Outcome(r, e)) ELSE {})
            \cup Links(U, n, o) \cup Enumerations(U, n, o)
       [] Prop = "S02" ->
            IF e.op # "add" THEN {}
            ELSE B("outcome: " \o e.res, Outcome(r, e))
                 \cup Links(U, n, o) \cup Registers(U, n, o) \cup State(n, o)
       [] Prop = "S03" ->
            IF e.op # "replace" THEN {}
            ELSE B("outcome: " \o e.res, Outcome(r, e)) \cup Links(U, n, o)
                 \cup Enumerations(U, n, o) \cup State(n, o) \cup Numbering(U, n, e) \cup Sharing(U, n, o)
       [] Prop = "S04" -> (IF e.op = "init" THEN B("outcome: " \o e.res, Outcome(r, e)) ELSE {})
                          \cup Numbering(U, n, e)
       [] Prop = "S05" ->
            (IF e.op \in {"init", "setv", "setq", "step", "scribble"}
             THEN B("outcome: " \o e.res, Outcome(r, e)) ELSE {})
            \cup State(n, o) \cup Sharing(U, n, o)
       [] Prop = "S06" ->
            (IF e.op \in {"frame", "shape", "reframe", "cons", "ctrl", "joint", "junk"}
             THEN B("outcome: " \o e.res, Outcome(r, e)) ELSE {})
            \cup Registers(U, n, o)
       [] Prop = "S07" ->
            B("outcome: " \o e.res, e.res \in {"ok", "refused"}) \cup B("visit", VisitOK(U, n, e.log))

Init == /\ i \in 1..Len(Cases)
        /\ l = 0
        /\ w = LET c == Cases[i]
                   E == Empty(c.U, c.q0, c.v0)
               IN E
Next == /\ l < Len(Cases[i].ev)
        /\ LET U == Cases[i].U
               e == Cases[i].ev[l+1]
               r == After(U, w, e)
               bad == Bad(U, w, r, e)
           IN /\ w' = r.w
              /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1
        /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l, w>>
\* the model itself stays within its invariants along the traces
Inv == TreeInv(Cases[i].U, w) /\ DofInv(Cases[i].U, w)
=============================================================================
