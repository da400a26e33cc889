------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Lists of possibly named objects (NamedObjectsList of arboris/core.py).  *)
(* A list is a sequence of objects, name[o] is the name of the object o:   *)
(* NoName for an unnamed one, Foreign for an object which has no name      *)
(* attribute at all.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoName == "<none>"
Foreign == "<foreign>"
Range(s) == {s[k] : k \in 1..Len(s)}
NoDup(s) == \A i, k \in 1..Len(s) : i # k => s[i] # s[k]

\* objects named x, in order
RECURSIVE Find(_, _, _)
Find(name, s, x) == IF s = <<>> THEN <<>>
  ELSE (IF name[s[1]] = x THEN <<s[1]>> ELSE <<>>) \o Find(name, Tail(s), x)
\* the object indexed by x, 0 for an error
Get(name, s, x) == LET f == Find(name, s, x) IN IF f = <<>> THEN 0 ELSE f[1]

IsNamed(name, o) == name[o] \notin {NoName, Foreign}
NamedOf(name, s) == SelectSeq(s, LAMBDA o : IsNamed(name, o))
Duplicated(name, s) == LET t == NamedOf(name, s) IN ~NoDup([k \in 1..Len(t) |-> name[t[k]]])
\* the dictionary, as the set of << name, object >>
Dict(name, s) == {<<name[o], o>> : o \in Range(NamedOf(name, s))}

\* naming all the objects of s, with the fresh names given by the function f
NameAll(name, s, f) == [o \in DOMAIN name |-> IF o \in Range(s) /\ name[o] = NoName THEN f[o] ELSE name[o]]
\* a naming is acceptable when it changes nothing else than the unnamed objects,
\* and gives them distinct new names
NamingOK(name, s, new) ==
  /\ DOMAIN new = DOMAIN name
  /\ \A o \in DOMAIN name : (o \notin Range(s) \/ name[o] # NoName) => new[o] = name[o]
  /\ \A o \in Range(s) : new[o] # NoName
  /\ \A o, p \in Range(s) : (o # p /\ name[o] = NoName) => new[o] # new[p]

InsertAt(s, k, o) == SubSeq(s, 1, k-1) \o <<o>> \o SubSeq(s, k, Len(s))
RemoveAt(s, k) == SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))

\* list operations
ApplyList(m, op) ==
  CASE op.op = "new" -> [m EXCEPT !.s = op.objs]
    [] op.op = "append" -> [m EXCEPT !.s = Append(@, op.o)]
    [] op.op = "extend" -> [m EXCEPT !.s = @ \o op.objs]
    [] op.op = "insert" -> [m EXCEPT !.s = InsertAt(@, op.k, op.o)]
    [] op.op = "remove" -> [m EXCEPT !.s = RemoveAt(@, op.k)]
    [] op.op = "replace" -> [m EXCEPT !.s[op.k] = op.o]
    [] op.op = "reverse" -> [m EXCEPT !.s = [k \in 1..Len(@) |-> @[Len(@) + 1 - k]]]
    [] op.op = "rename" -> [m EXCEPT !.name[op.o] = op.x]
    [] OTHER -> m
EnabledList(m, op) ==
  CASE op.op = "insert" -> op.k \in 1..(Len(m.s)+1)
    [] op.op \in {"remove", "replace"} -> op.k \in 1..Len(m.s)
    [] op.op = "rename" -> m.name[op.o] # Foreign
    [] op.op = "nameall" -> \A o \in Range(m.s) : m.name[o] # Foreign
    [] OTHER -> TRUE
=============================================================================
