------------------------------- MODULE MCSim -------------------------------
(* All the orders of calls of small simulations; invariants of the protocol. *)
EXTENDS Sim, TLC, Json, IOUtils, Randomization
Deep == IOEnv.DEEP = "1"
Timelines == {<<5>>, <<0, 2>>, <<4, 5, 9>>} \cup (IF Deep THEN {<<0, 1, 2, 4>>} ELSE {})
ObsSeqs == {<<>>, <<1>>, <<1, 2>>, <<2, 1>>}
CtlSets == {<<>>, <<[f |-> 3, g |-> 1, from |-> 1]>>, <<[f |-> -1, g |-> 0, from |-> 1], [f |-> 2, g |-> 1, from |-> 2]>>}
Acts == {<<TRUE>>, <<FALSE, TRUE>>}
ConSets == {<<>>} \cup {<<[f |-> 7, from |-> 1, on |-> b, act |-> a]>> : b \in BOOLEAN, a \in Acts}
           \cup {<<[f |-> 7, from |-> 1, on |-> b, act |-> <<TRUE>>], [f |-> -4, from |-> f, on |-> TRUE, act |-> a]>> : b \in BOOLEAN, f \in {1, 2}, a \in Acts}
Togs(nc, nk, no) == {<<>>}
  \cup (IF nk = 0 THEN {} ELSE
        {<<[sim |-> s, k |-> k, who |-> "ctl", id |-> i, con |-> j]>> : s \in {1, 2}, k \in {1, 2}, i \in 1..nc, j \in 1..nk}
        \cup {<<[sim |-> s, k |-> 1, who |-> "obs", id |-> i, con |-> j]>> : s \in {1, 2}, i \in 1..no, j \in 1..nk})
VARIABLES C, m, cnt
vars == <<C, m, cnt>>
\* calls received in this simulation, by element and method
Zeros == [x \in {"ctl", "con", "obs"} \X {1, 2} \X {"init", "update", "finish", "solve"} |-> 0]
\* a part of the configurations in the quick tier
Kept(x) == Deep \/ RandomElement(1..12) = 1
Init == \E c \in CtlSets, x \in ConSets, o \in ObsSeqs : \E g \in Togs(Len(c), Len(x), Len(o)), t \in Timelines, u \in (IF Deep THEN Timelines ELSE {<<0, 2>>, <<5>>}) :
        /\ Kept(<<c, x, o, g, t, u>>)
        /\ C = [v0 |-> 5, ctl |-> c, con |-> x, tog |-> g, sims |-> <<[tl |-> t, obs |-> o], [tl |-> u, obs |-> o]>>]
        /\ m = Start(C) /\ cnt = Zeros /\ PrintT("B " \o ToJson(C))
Events == [w : {"ctl", "con", "obs"}, id : {1, 2}, m : {"init", "update", "finish", "solve"}]
Begin == /\ Allowed(C, m, [w |-> "sim", m |-> "begin", id |-> 0])
         /\ m' = Call(C, m, [w |-> "sim", m |-> "begin", id |-> 0]) /\ cnt' = Zeros
\* a constraint may be solved several times: twice in the model
Receives == \E e \in Events : /\ Allowed(C, m, e) /\ cnt[<<e.w, e.id, e.m>>] < (IF e.m = "solve" THEN 2 * m.k ELSE 10)
                              /\ m' = Call(C, m, e) /\ cnt' = [cnt EXCEPT ![<<e.w, e.id, e.m>>] = @ + 1]
End == Done(C, m) /\ m' = Tau(C, m) /\ cnt' = cnt
Next == (Begin \/ Receives \/ End) /\ UNCHANGED C
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Finished == m.ph = "idle" /\ m.s > 0
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Count(w, i, x) == cnt[<<w, i, x>>]
\* at the end of a simulation each element was initialised once, each observer and each
\* controller was updated once per step and the time is the last instant
CallsInv == Finished =>
  /\ \A i \in 1..2 : /\ Count("obs", i, "init") = (IF i \in RangeOf(Obs(C, m)) THEN 1 ELSE 0)
                     /\ Count("obs", i, "finish") = Count("obs", i, "init")
                     /\ Count("obs", i, "update") = Steps(C, m) * Count("obs", i, "init")
                     /\ Count("ctl", i, "init") = (IF i \in Ctls(C, m) THEN 1 ELSE 0)
                     /\ Count("ctl", i, "update") = Steps(C, m) * Count("ctl", i, "init")
                     /\ Count("con", i, "init") = (IF i \in Cons(C, m) THEN 1 ELSE 0)
                     /\ Count("con", i, "update") <= Steps(C, m) * Count("con", i, "init")
                     /\ (C.tog = <<>> /\ i \in Cons(C, m)) => Count("con", i, "update") = (IF C.con[i].on THEN Steps(C, m) ELSE 0)
  /\ m.t = Tl(C, m)[Len(Tl(C, m))]
\* observers never see a part of a step; nobody is called in between
OrderInv == m.ph = "obs" => \A c \in Ctls(C, m) : Count("ctl", c, "update") = m.k
SolveInv == m.ph = "obs" => \A j \in 1..Len(C.con) : Count("con", j, "solve") > 0 => Count("con", j, "update") > 0
\* the motion does not depend on the order of the calls nor on the observers: it is a
\* function of the configuration
RECURSIVE Motion(_, _, _, _)
Motion(s, k, q, v) ==
  IF s = m.s + 1 THEN <<q, v>>
  ELSE IF k = Len(C.sims[s].tl) THEN Motion(s + 1, 1, q, v)
  ELSE LET d == C.sims[s].tl[k+1] - C.sims[s].tl[k]
           n == [s |-> s, k |-> k, on |-> [j \in 1..Len(C.con) |-> C.con[j].on]]
           w == v + d * (CtlForce(C, n) + ConForce(C, n))
       IN Motion(s, k + 1, q + d * w, w)
MotionInv == (Finished /\ C.tog = <<>>) => <<m.q, m.v>> = Motion(1, 1, 0, C.v0)
=============================================================================
