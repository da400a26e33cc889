-------------------------------- MODULE MCCom --------------------------------
(***************************************************************************)
(* Simulations with up to two communications, for all plans of the viewers *)
(* and all interleavings of the steps with the network.                    *)
(***************************************************************************)
EXTENDS Com, TLC, Json, IOUtils
VARIABLES busy, req, plan, steps, port, pc, turn, conn, net, got, client, n
vars == <<busy, req, plan, steps, port, pc, turn, conn, net, got, client, n>>
NC == atoi(IOEnv.NC)
MAXSTEPS == atoi(IOEnv.MAXSTEPS)
Plans == {[kind |-> "never", after |-> 0], [kind |-> "stay", after |-> 0]} \cup [kind : {"drop"}, after : 0..MAXSTEPS]
Msg(k) == ToString(k)
\* pc: "create", "init", 0..steps (steps done), "finish", "done"; turn: the next observer
Init == /\ n = 0
        /\ busy \in SUBSET {1, 2} /\ req \in [1..NC -> {1, 2}] /\ plan \in [1..NC -> Plans] /\ steps \in 0..MAXSTEPS
        /\ port = <<>> /\ pc = "create" /\ turn = 1
        /\ conn = [k \in 1..NC |-> "none"] /\ net = [k \in 1..NC |-> <<>>] /\ got = [k \in 1..NC |-> <<>>]
        /\ client = [k \in 1..NC |-> IF plan[k].kind = "never" THEN "gone" ELSE "wait"]
Then(next) == IF turn < NC THEN turn' = turn + 1 /\ pc' = pc ELSE turn' = 1 /\ pc' = next
Taken == busy \cup {port[k] : k \in 1..Len(port)}
Create == /\ pc = "create"
          /\ port' = Append(port, FirstFree(req[turn], Taken))
          /\ Then("init")
          /\ UNCHANGED <<busy, req, plan, steps, conn, net, got, client, n>>
Open == /\ pc = "init"
        /\ IF client[turn] = "wait"
           THEN conn' = [conn EXCEPT ![turn] = "up"] /\ client' = [client EXCEPT ![turn] = "up"]
           ELSE UNCHANGED <<conn, client>>      \* nobody: the delay is over
        /\ Then("run")
        /\ UNCHANGED <<busy, req, plan, steps, port, net, got, n>>
Put(x) == net' = [net EXCEPT ![turn] = IF conn[turn] = "up" THEN Append(@, x) ELSE @]
Update == /\ pc = "run" /\ n < steps
          /\ Put(Msg(n + 1))
          /\ IF turn < NC THEN turn' = turn + 1 /\ n' = n ELSE turn' = 1 /\ n' = n + 1
          /\ UNCHANGED <<busy, req, plan, steps, port, pc, conn, got, client>>
Finish == /\ IF pc = "run" THEN n = steps /\ turn = 1 ELSE pc = "finish"
          /\ Put(CLOSE)
          /\ conn' = [conn EXCEPT ![turn] = "closed"]
          /\ IF turn < NC THEN turn' = turn + 1 /\ pc' = "finish" ELSE turn' = 1 /\ pc' = "done"
          /\ UNCHANGED <<busy, req, plan, steps, port, got, client, n>>
\* the network and the viewers
Read(k) == /\ client[k] = "up" /\ Len(got[k]) < Len(net[k])
           /\ ~(plan[k].kind = "drop" /\ Len(got[k]) >= plan[k].after)
           /\ got' = [got EXCEPT ![k] = Append(@, net[k][Len(@) + 1])]
           /\ UNCHANGED <<busy, req, plan, steps, port, pc, turn, conn, net, client, n>>
Drop(k) == /\ client[k] = "up" /\ plan[k].kind = "drop" /\ Len(got[k]) = plan[k].after
           /\ client' = [client EXCEPT ![k] = "gone"]
           /\ UNCHANGED <<busy, req, plan, steps, port, pc, turn, conn, net, got, n>>
End == /\ pc = "done" /\ \A k \in 1..NC : ~ENABLED Read(k)
       /\ PrintT("B " \o ToJson([busy |-> busy, req |-> req, plan |-> plan, steps |-> steps]))
       /\ pc' = "end" /\ UNCHANGED <<busy, req, plan, steps, port, turn, conn, net, got, client, n>>
Next == Create \/ Open \/ Update \/ Finish \/ (\E k \in 1..NC : Read(k) \/ Drop(k)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sent == [j \in 1..steps |-> Msg(j)]
Ordered == \A k \in 1..NC : IsPrefix(got[k], Stream(Sent))
Ports == \A j, k \in 1..Len(port) : j # k => port[j] # port[k] /\ port[j] \notin busy
Nearest == \A k \in 1..Len(port) : \A p \in req[k]..(port[k] - 1) : p \in busy \cup {port[j] : j \in 1..(k-1)}
Complete == pc = "end" => \A k \in 1..NC : Received(plan[k], Sent, got[k])
Ends == <>(pc = "end")
=============================================================================
