----------------------------- MODULE NamesTrace -----------------------------
(* Validation of recorded operations on lists of named objects, and of the  *)
(* naming of the elements of worlds.                                        *)
EXTENDS Names, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l, m
B(name, ok) == IF ok THEN {} ELSE {name}

After(c, st, e) ==
  IF e.op \in {"nameall", "world"} THEN [st EXCEPT !.name = e.obs.names] ELSE ApplyList(st, e)

Queries(st, o) ==
     B("content", o.s = st.s /\ o.len = Len(st.s))
\cup B("names", o.names = st.name)
\cup B("index by name", \A k \in 1..Len(o.keys) : o.get[k] = Get(st.name, st.s, o.keys[k]))
\cup B("find", \A k \in 1..Len(o.keys) : o.find[k] = Find(st.name, st.s, o.keys[k]))
\cup B("index by position", o.at = st.s)
\cup (IF ~NoDup(NamedOf(st.name, st.s)) THEN {}
      ELSE IF Duplicated(st.name, st.s) THEN B("duplicates in as_dict", o.dictres = "DuplicateNameError")
      ELSE B("as_dict", /\ o.dictres = "ok"
                        /\ {<<p[1], p[2]>> : p \in Range(o.dict)} = Dict(st.name, st.s)
                        /\ Len(o.dict) = Cardinality(Dict(st.name, st.s))))

Naming(st, e) ==
  LET new == e.obs.names
  IN B("naming", NamingOK(st.name, st.s, new))
     \cup (IF ~NoDup(st.s) THEN {}
           ELSE B("unicity", e.res = (IF e.check /\ Duplicated(st.name, st.s) THEN "DuplicateNameError" ELSE "ok")))

\* all the elements of a world: joints, frames, shapes, constraints, controllers
World(st, e) ==
  LET dup == \E k \in 1..Len(e.lists) : Duplicated(st.name, e.lists[k])
  IN IF e.check /\ dup THEN B("unicity: " \o e.res, e.res = "DuplicateNameError")
     ELSE B("outcome: " \o e.res, e.res = "ok")
          \cup B("naming of the world", \A k \in 1..Len(e.lists) :
                   /\ \A o \in Range(e.lists[k]) : e.obs.names[o] # NoName
                   /\ \A o \in Range(e.lists[k]) : st.name[o] # NoName => e.obs.names[o] = st.name[o]
                   /\ \A o, p \in Range(e.lists[k]) :
                        (o # p /\ st.name[o] = NoName) => e.obs.names[o] # e.obs.names[p])

Bad(st, n, e) ==
  IF e.op = "crash" THEN {"exception: " \o e.res}
  ELSE IF e.op = "world" THEN World(st, e)
  ELSE IF ~EnabledList(st, e) THEN {"operation out of the model"}
  ELSE IF e.op = "nameall" THEN Naming(st, e) \cup Queries(n, e.obs)
  ELSE B("outcome: " \o e.res, e.res = "ok") \cup Queries(n, e.obs)

Init == /\ i \in 1..Len(Cases) /\ l = 0
        /\ m = [s |-> <<>>, name |-> Cases[i].names]
Next == /\ l < Len(Cases[i].ev)
        /\ LET e == Cases[i].ev[l+1]
               n == IF e.op = "crash" THEN m ELSE After(Cases[i], m, e)
               bad == Bad(m, n, e)
           IN /\ m' = n
              /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l, m>>
=============================================================================
