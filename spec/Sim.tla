-------------------------------- MODULE Sim --------------------------------
(***************************************************************************)
(* The protocol of a simulation: who is called, when, in which state of    *)
(* the world.  The world is a body of unit mass on a slider, so that its   *)
(* state is exactly predicted: the unit of time is 1/64 s, of velocity     *)
(* 1/64 m/s, of position 1/4096 m, and forces are integers.                *)
(*                                                                         *)
(* A configuration C is made of                                            *)
(*   v0   initial velocity                                                 *)
(*   ctl  controllers, [f, g, from]: force at the step k is f + g k; from is*)
(*        the number of the first simulation before which it is registered *)
(*   con  constraints, [f, from, on, act]: force, enabled at first, active *)
(*        at the step k if act[k]                                          *)
(*   tog  changes made by the user's code: [sim, k, who, id, con]: the     *)
(*        constraint con is enabled or disabled by the controller or the   *)
(*        observer id when it is called at the step k of the simulation    *)
(*   sims sequence of [tl, obs]: timelines and sequences of observers      *)
(*                                                                         *)
(* A state m: s simulation, ph phase, k step, left the elements which are  *)
(* still to be called in this phase, oi number of observers already called,*)
(* t, q, v time, position and velocity, on enabled constraints, gf force.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start(C) == [s |-> 0, ph |-> "idle", k |-> 0, left |-> {}, oi |-> 0, t |-> 0, q |-> 0, v |-> C.v0,
             on |-> [j \in 1..Len(C.con) |-> C.con[j].on], gf |-> 0]

Ctls(C, m) == {c \in 1..Len(C.ctl) : C.ctl[c].from <= m.s}
Cons(C, m) == {j \in 1..Len(C.con) : C.con[j].from <= m.s}
Enabled(C, m) == {j \in Cons(C, m) : m.on[j]}
ActiveAt(C, m, j) == C.con[j].act[((m.k - 1) % Len(C.con[j].act)) + 1]
Acting(C, m) == {j \in Enabled(C, m) : ActiveAt(C, m, j)}
Obs(C, m) == C.sims[m.s].obs
Tl(C, m) == C.sims[m.s].tl
Steps(C, m) == Len(Tl(C, m)) - 1
Dur(C, m) == Tl(C, m)[m.k + 1] - Tl(C, m)[m.k]

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
CtlForce(C, m) == SumF([c \in 1..Len(C.ctl) |-> C.ctl[c].f + C.ctl[c].g * m.k], Ctls(C, m))
ConForce(C, m) == SumF([j \in 1..Len(C.con) |-> C.con[j].f], Acting(C, m))

Toggle(C, m, who, id) ==
  LET S == {j \in 1..Len(C.con) : \E x \in 1..Len(C.tog) : LET g == C.tog[x]
                IN g.sim = m.s /\ g.k = m.k /\ g.who = who /\ g.id = id /\ g.con = j}
  IN [m EXCEPT !.on = [j \in 1..Len(C.con) |-> IF j \in S THEN ~@[j] ELSE @[j]]]

-----------------------------------------------------------------------------
(* Internal transitions: the end of a phase                                *)

BeginStep(C, m) == [m EXCEPT !.ph = "ctl", !.k = @ + 1, !.left = Ctls(C, m), !.oi = 0, !.gf = 0]
Integrate(C, m) == LET d == Dur(C, m)
                       w == m.v + d * m.gf
                   IN [m EXCEPT !.v = w, !.q = @ + d * w, !.t = @ + d]
AfterStep(C, m) == IF m.k < Steps(C, m) THEN BeginStep(C, m) ELSE [m EXCEPT !.ph = "ofin", !.oi = 0]
Done(C, m) ==
  CASE m.ph = "idle" -> FALSE
    [] m.ph \in {"oinit", "obs", "ofin"} -> m.oi = Len(Obs(C, m))
    [] OTHER -> m.left = {}
Tau(C, m) ==
  CASE m.ph = "init" -> [m EXCEPT !.ph = "oinit", !.oi = 0]
    [] m.ph = "oinit" -> AfterStep(C, m)
    [] m.ph = "ctl" -> [m EXCEPT !.ph = "con", !.left = Enabled(C, m), !.gf = CtlForce(C, m)]
    [] m.ph = "con" -> [m EXCEPT !.ph = "solve", !.left = Acting(C, m)]
    [] m.ph = "solve" -> [m EXCEPT !.ph = "obs", !.oi = 0, !.gf = @ + ConForce(C, m)]
    [] m.ph = "obs" -> AfterStep(C, Integrate(C, m))
    [] m.ph = "ofin" -> [m EXCEPT !.ph = "idle"]

-----------------------------------------------------------------------------
(* Calls.  An event e has the fields w ("ctl", "con", "obs", "sim"), id, m *)
(* (the method).                                                           *)

Allowed(C, m, e) ==
  CASE e.w = "sim" /\ e.m = "begin" -> m.ph = "idle" /\ m.s < Len(C.sims)
    [] e.w = "sim" /\ e.m = "end" -> m.ph = "idle"
    [] e.w \in {"ctl", "con"} /\ e.m = "init" -> m.ph = "init" /\ <<e.w, e.id>> \in m.left
    [] e.w = "obs" /\ e.m = "init" -> m.ph = "oinit" /\ m.oi < Len(Obs(C, m)) /\ Obs(C, m)[m.oi + 1] = e.id
    [] e.w = "obs" /\ e.m = "finish" -> m.ph = "ofin" /\ m.oi < Len(Obs(C, m)) /\ Obs(C, m)[m.oi + 1] = e.id
    [] e.w = "obs" /\ e.m = "update" -> m.ph = "obs" /\ m.oi < Len(Obs(C, m)) /\ Obs(C, m)[m.oi + 1] = e.id
    [] e.w \in {"ctl", "con"} /\ e.m = "update" -> m.ph = e.w /\ e.id \in m.left
    [] e.w = "con" /\ e.m = "solve" -> m.ph = "solve" /\ e.id \in Acting(C, m)
    [] OTHER -> FALSE
Call(C, m, e) ==
  CASE e.w = "sim" /\ e.m = "begin" ->
         LET n == [m EXCEPT !.s = @ + 1, !.ph = "init", !.k = 0]
         IN [n EXCEPT !.left = {<<"ctl", c>> : c \in Ctls(C, n)} \cup {<<"con", j>> : j \in Cons(C, n)}, !.t = Tl(C, n)[1], !.oi = 0, !.gf = 0]
    [] e.w = "sim" /\ e.m = "end" -> m
    [] e.m = "init" /\ e.w # "obs" -> [m EXCEPT !.left = @ \ {<<e.w, e.id>>}]
    [] e.w = "obs" -> LET n == [m EXCEPT !.oi = @ + 1] IN IF e.m = "update" THEN Toggle(C, n, "obs", e.id) ELSE n
    [] e.w = "ctl" -> Toggle(C, [m EXCEPT !.left = @ \ {e.id}], "ctl", e.id)
    [] OTHER -> [m EXCEPT !.left = @ \ {e.id}]

\* the state in which the event is received, after the ends of phases
RECURSIVE Receive(_, _, _)
Receive(C, m, e) == IF Allowed(C, m, e) THEN m
                    ELSE IF Done(C, m) THEN Receive(C, Tau(C, m), e) ELSE [ph |-> "refused"]
\* the order of two iterations of the solver is free: a constraint may be solved again
=============================================================================
