------------------------------ MODULE ComTrace ------------------------------
(***************************************************************************)
(* O05: what viewers of simulations receive through the sockets of their   *)
(* observers.  Ports are counted from the first one of the case.           *)
(***************************************************************************)
EXTENDS Com, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
Range(s) == {s[k] : k \in 1..Len(s)}
Port(e, k) == FirstFree(e.coms[k].req, Range(e.busy) \cup {e.coms[j].port : j \in 1..(k-1)})
Com(e, k) ==
  LET c == e.coms[k]
  IN B("port", c.port = Port(e, k))
     \cup B("what the viewer receives", Received(c.plan, e.sent, c.got))
     \cup B("connected when a viewer comes, and only then", c.connected = (c.plan.kind # "never"))
     \cup B("the port is released", c.released)
Bad(e) ==
  IF e.op = "crash" THEN {"exception: " \o e.res}
  ELSE B("the simulation ends", e.ended)
       \cup (IF e.ended THEN B("a call per step", Len(e.sent) = e.steps) \cup UNION {Com(e, k) : k \in 1..Len(e.coms)} ELSE {})
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i].ev[l+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
