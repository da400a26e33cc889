------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* O02: what is read back from the files of the loggers.  Values are the   *)
(* exact texts of floats.                                                  *)
(***************************************************************************)
EXTENDS Logger, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
IndexOf(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
\* value of the key of a group in a snapshot
ValueOf(L, W, g, key, s) ==
  CASE g = "gpositions" -> s.q[IndexOf(W.jn, key)]
    [] g = "gvelocities" -> s.v[IndexOf(W.jn, key)]
    [] g = "model" -> s[key]
    [] g = "transforms" ->
         LET x == CHOOSE x \in Transformed(L, W) : NameOf(W, x) = key
         IN IF x \in Bases(L, W) THEN (IF L.flat THEN s.bpose[x[2]] ELSE s.jpose[IndexOf(W.f1, x)])
            ELSE IF L.flat THEN s.spose[x[2]] ELSE s.sbpose[x[2]]
Group(e, g) ==
  LET d == e.file.data[IndexOf(e.file.groups, g)]
      keys == {d[k].key : k \in 1..Len(d)}
  IN B("elements of " \o g, keys = Keys(e.L, e.V, g) /\ Cardinality(keys) = Len(d))
     \cup (IF keys # Keys(e.L, e.V, g) THEN {}
           ELSE B("one value per step: " \o g, \A k \in 1..Len(d) : Len(d[k].val) = e.n /\ d[k].shape[1] = e.n)
                \cup B("values of " \o g, \A k \in 1..Len(d) : \A j \in 1..e.n : j <= Len(d[k].val) => d[k].val[j] = ValueOf(e.L, e.V, g, d[k].key, e.snaps[j])))
Bad(e) ==
  IF e.op = "crash" THEN {"exception: " \o e.res}
  ELSE IF Refused(e.L, e.W) THEN B("elements which cannot be told apart are accepted", e.res = "refused")
  ELSE IF e.res = "refused" THEN {"refused without reason"}
  ELSE B("names", Named(e.W, e.V))
       \cup B("one call per step", Len(e.snaps) = e.n)
       \cup B("instants", e.file.time = [k \in 1..e.n |-> e.snaps[k].t])
       \cup B("groups", {e.file.groups[k] : k \in 1..Len(e.file.groups)} = Groups(e.L))
       \cup (IF ~Named(e.W, e.V) \/ Len(e.snaps) # e.n \/ {e.file.groups[k] : k \in 1..Len(e.file.groups)} # Groups(e.L) THEN {}
             ELSE UNION {Group(e, g) : g \in Groups(e.L)})
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i].ev[l+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
