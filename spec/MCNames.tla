------------------------------ MODULE MCNames ------------------------------
EXTENDS Names, TLC, Json, IOUtils
Size == atoi(IOEnv.SIZE)
MaxLen == atoi(IOEnv.MAXLEN)
Names0 == <<"a", "a", "b", NoName, NoName, Foreign, "">>
Objs == 1..Len(Names0)
Keys == {"a", "b", "", "absent"}
VARIABLES m, hist
View == m
Ops ==
  {[op |-> "append", o |-> o] : o \in Objs}
  \cup {[op |-> "insert", o |-> o, k |-> k] : o \in {1, 4, 6}, k \in 1..Len(m.s)}
  \cup {[op |-> "remove", k |-> k] : k \in 1..Len(m.s)}
  \cup {[op |-> "replace", o |-> o, k |-> k] : o \in {2, 5}, k \in 1..Len(m.s)}
  \cup {[op |-> "reverse"]}
  \cup {[op |-> "rename", o |-> o, x |-> x] : o \in {1, 4, 7}, x \in {"a", "b", "c", NoName}}
  \cup {[op |-> "nameall", check |-> c, iter |-> t] : c, t \in BOOLEAN}
Fresh == [o \in Objs |-> "#" \o ToString(o)]
Init == m = [s |-> <<>>, name |-> Names0] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops :
           /\ EnabledList(m, op)
           /\ m' = (IF op.op = "nameall" THEN [m EXCEPT !.name = NameAll(@, m.s, Fresh)] ELSE ApplyList(m, op))
           /\ Len(m'.s) <= Size
           /\ hist' = Append(hist, op)
           /\ PrintT("B " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<m, hist>>
\* every object which has a name is found by it, and nothing else
FindInv == \A x \in Keys : LET f == Find(m.name, m.s, x)
  IN /\ Range(f) = {o \in Range(m.s) : m.name[o] = x}
     /\ Get(m.name, m.s, x) = 0 <=> f = <<>>
\* without duplicates, the dictionary is a function and agrees with the indexing
DictInv == ~Duplicated(m.name, m.s) =>
  \A p \in Dict(m.name, m.s) : Get(m.name, m.s, p[1]) = p[2]
NamingInv == NamingOK(m.name, m.s, NameAll(m.name, m.s, Fresh)) \/ \E o \in Objs : m.name[o] = Fresh[o]
=============================================================================
