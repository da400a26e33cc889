------------------------------ MODULE CollTrace ------------------------------
(* G01, G02: results of the collision solvers, and enumerations of contacts. *)
EXTENDS Pairs, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(8)
\* the distance and the frames, relatively to the size of the scene
Solve(e) ==
  LET sw == Swapped(e.s[1].t, e.s[2].t)
      a == IF sw THEN e.s[2] ELSE e.s[1]
      b == IF sw THEN e.s[1] ELSE e.s[2]
  IN B("order", e.order = (IF sw THEN <<2, 1>> ELSE <<1, 2>>))
     \cup B("order of the other call", e.order2 = (IF sw \/ e.s[1].t = e.s[2].t THEN <<2, 1>> ELSE <<1, 2>>))
     \cup BadWitness(a, b, e.d, e.h0, e.h1, FMul(Tol, e.size))
     \cup B("same distance in the other order", Near(e.d2, e.d, FMul(Tol, e.size)))
     \cup B("nothing is modified", e.kept)
     \cup B("same result again", e.again)
Choose(e) ==
  LET a == e.s[1] b == e.s[2]
  IN IF ~Supported(a, b) THEN B("unsupported pair", e.res = "NotImplementedError")
     ELSE B("supported pair", e.res = "ok")
          \cup (IF e.res # "ok" THEN {} ELSE
                B("order", e.order = InOrder(<<[t |-> a], [t |-> b]>>, 1, 2))
                \cup B("solver", e.callable))
\* a sequence without repetition
Distinct(x) == \A j, k \in 1..Len(x) : j # k => x[j] # x[k]
Range(x) == {x[k] : k \in 1..Len(x)}
All(e) ==
  LET up(x) == IF x[1] < x[2] THEN x ELSE <<x[2], x[1]>>
      got == [k \in 1..Len(e.pairs) |-> up(e.pairs[k])]
  IN B("no contact twice", Distinct(got))
     \cup B("missing contacts", Pairs(e.sh) \subseteq Range(got))
     \cup B("unwanted contacts", Range(got) \subseteq Pairs(e.sh))
     \cup B("order in the pairs", \A k \in 1..Len(e.pairs) : got[k] \in Pairs(e.sh) => e.pairs[k] = InOrder(e.sh, got[k][1], got[k][2]))
     \cup B("parameters", \A k \in 1..Len(e.par) : e.par[k] = e.want)
     \cup B("class", e.cls)
     \cup B("nothing is modified", e.kept)
     \cup B("forces and names", e.fresh)
Bad(e) == CASE e.op = "crash" -> {"exception: " \o e.res}
            [] e.op = "solve" -> Solve(e)
            [] e.op = "choose" -> Choose(e)
            [] e.op = "all" -> All(e)
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i].ev[l+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
