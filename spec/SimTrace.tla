------------------------------ MODULE SimTrace ------------------------------
(***************************************************************************)
(* T02: the calls recorded along simulations must be the ones of Sim, in   *)
(* the states of Sim.                                                      *)
(***************************************************************************)
EXTENDS Sim, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l, m
B(name, ok) == IF ok THEN {} ELSE {name}
Conf == Cases[i].conf
Bad(C, n, e) ==
     B("time", e.m = "begin" \/ e.t = n.t)
  \cup B("position", e.q = n.q)
  \cup B("velocity", e.v = n.v)
  \cup (IF e.m \in {"update", "solve"}
        THEN B("duration of the step", e.dt = Dur(C, n)) \cup B("model up to date", e.pose = n.q /\ e.twist = n.v)
        ELSE {})
  \cup (IF e.m = "update" /\ e.w # "ctl" THEN B("forces", e.gf = n.gf) ELSE {})
  \cup (IF e.w = "obs" /\ e.m = "init" THEN B("timeline given to the observers", e.tl = Tl(C, n)) ELSE {})
Init == i \in 1..Len(Cases) /\ l = 0 /\ m = Start(Cases[i].conf)
Next ==
  /\ l < Len(Cases[i].ev)
  /\ LET e == Cases[i].ev[l+1]
         n == IF e.w = "crash" THEN m ELSE Receive(Conf, m, e)
         bad == IF m.ph = "refused" THEN {}
                ELSE IF e.w = "crash" THEN {"exception: " \o e.res}
                ELSE IF n.ph = "refused" THEN {"call out of the protocol: " \o e.w \o " " \o ToString(e.id) \o " " \o e.m}
                ELSE Bad(Conf, n, e)
     IN /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ m' = IF m.ph = "refused" \/ n.ph = "refused" THEN [ph |-> "refused"] ELSE IF e.w = "crash" THEN m ELSE Call(Conf, n, e)
  /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l, m>>
=============================================================================
