------------------------------- MODULE MCAdded -------------------------------
(***************************************************************************)
(* Shapes are added to a file which already has some, call after call.     *)
(* The files of shapes have the same ids for different things.  What is in *)
(* the file is a library, by id, and places in the scene which refer to it *)
(***************************************************************************)
EXTENDS Added, TLC, Json, IOUtils, FiniteSets
N == atoi(IOEnv.N)
Files == {1, 2}
\* node a (leaf g) has a node b (leaf h) below it; c is alone, and shows the node l of the library (leaf g again)
Nodes == <<[id |-> "a", up |-> 0, leaves |-> <<"g">>, inst |-> <<>>], [id |-> "b", up |-> 1, leaves |-> <<"h">>, inst |-> <<>>],
           [id |-> "c", up |-> 0, leaves |-> <<>>, inst |-> <<4>>], [id |-> "l", up |-> -1, leaves |-> <<"g">>, inst |-> <<>>]>>
Frames == {"b1", "nobody"}
Picks == {"", "a", "b", "c", "l", "none"}
Entry == [frame : Frames, file : Files, pick : Picks]
Show == [p \in Picks |-> ShownBy(Nodes, p)]
ASSUME Len(Show[""]) = Len(Show["a"]) + Len(Show["c"])   \* a node shows what is below it: the scene shows as much as its nodes
VARIABLES lib, shown, ops, cut, done
vars == <<lib, shown, ops, cut, done>>
\* the geometry g of the file which receives the shapes is number 0
Init == lib = [x \in {<<0, "g">>} |-> <<0, "g">>] /\ shown = {<<0, "b1", 1, <<0, "g">>>>} /\ ops = <<>> /\ cut = <<>> /\ done = FALSE
\* the id under which something is put in the library
Key(file, id) == <<file, id>>
Add == /\ ~done /\ Len(ops) < N
       /\ \E e \in Entry, newcall \in IF ops = <<>> THEN {TRUE} ELSE BOOLEAN :
            LET s == IF e.frame = "nobody" THEN <<>> ELSE Show[e.pick]
            IN /\ shown' = shown \cup {<<Len(ops) + 1, e.frame, k, Key(e.file, s[k].leaf)>> : k \in 1..Len(s)}
               /\ lib' = [x \in DOMAIN lib \cup {Key(e.file, s[k].leaf) : k \in 1..Len(s)} |-> IF x \in DOMAIN lib THEN lib[x] ELSE <<e.file, x[2]>>]
               /\ ops' = Append(ops, e) /\ cut' = Append(cut, newcall)
       /\ UNCHANGED done
Stop == /\ ~done /\ Len(ops) = N /\ done' = TRUE /\ UNCHANGED <<lib, shown, ops, cut>>
        /\ PrintT("B " \o ToJson([ops |-> ops, cut |-> cut]))
Next == Add \/ Stop
Spec == Init /\ [][Next]_vars
Content(s) == lib[s[4]]
\* everything is shown by what it comes from, and the entries stay where they have been added
Right == \A s \in shown : s[4] \in DOMAIN lib /\ IF s[1] = 0 THEN Content(s) = <<0, "g">>
                          ELSE LET e == ops[s[1]]  w == Show[e.pick] IN s[3] <= Len(w) /\ Content(s) = <<e.file, w[s[3]].leaf>> /\ s[2] = e.frame
Complete == \A k \in 1..Len(ops) : Cardinality({s \in shown : s[1] = k}) = IF ops[k].frame = "nobody" THEN 0 ELSE Len(Show[ops[k].pick])
Others == \A s \in shown : s[1] = 0 => Content(s) = <<0, "g">>
==============================================================================
