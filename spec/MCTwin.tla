------------------------------ MODULE MCTwin -------------------------------
(***************************************************************************)
(* T03: self-composition of two simulations of the same world from the     *)
(* same state.  One is watched by other observers, is cut in several       *)
(* consecutive simulations, and its calls are received in another order:   *)
(* both end in the same state.                                             *)
(***************************************************************************)
EXTENDS Sim, TLC, IOUtils
Deep == IOEnv.DEEP = "1"
Full == IF Deep THEN <<0, 1, 3, 4, 6>> ELSE <<0, 1, 3, 4>>
N == Len(Full)
\* timelines of consecutive simulations, cut at the instants of a set of indices
RECURSIVE Cut(_, _)
Cut(from, S) == LET T == {k \in S : k > from}
                    k == IF T = {} THEN N ELSE CHOOSE k \in T : \A j \in T : k <= j
                IN <<SubSeq(Full, from, k)>> \o (IF k = N THEN <<>> ELSE Cut(k, S))
Ctl == <<[f |-> 3, g |-> 0, from |-> 1], [f |-> -1, g |-> 0, from |-> 1]>>
Con == <<[f |-> 7, from |-> 1, on |-> TRUE, act |-> <<TRUE>>], [f |-> -4, from |-> 1, on |-> TRUE, act |-> <<TRUE>>]>>
Conf(tls, o) == [v0 |-> 5, ctl |-> Ctl, con |-> Con, tog |-> <<>>, sims |-> [k \in 1..Len(tls) |-> [tl |-> tls[k], obs |-> o]]]
VARIABLES C, D, m, n
vars == <<C, D, m, n>>
Init == /\ \E o \in {<<>>, <<1>>, <<2, 1>>}, S \in SUBSET (2..(N - 1)) : D = Conf(Cut(1, S), o)
        /\ C = Conf(<<Full>>, <<>>) /\ m = Start(C) /\ n = Start(D)
Events == [w : {"ctl", "con", "obs"}, id : {1, 2}, m : {"init", "update", "finish", "solve"}]
BeginE == [w |-> "sim", m |-> "begin", id |-> 0]
\* successors; each constraint is solved once per step
Succ(X, s) == (IF Allowed(X, s, BeginE) THEN {Call(X, s, BeginE)} ELSE {})
              \cup {Call(X, s, e) : e \in {e \in Events : Allowed(X, s, e) /\ (e.m = "solve" => e.id \in s.left)}}
              \cup (IF Done(X, s) THEN {Tau(X, s)} ELSE {})
Over(X, s) == s.ph = "idle" /\ s.s = Len(X.sims)
\* the second one runs after the first one
Next == \/ ~Over(C, m) /\ (\E t \in Succ(C, m) : m' = t) /\ UNCHANGED <<C, D, n>>
        \/ Over(C, m) /\ (\E t \in Succ(D, n) : n' = t) /\ UNCHANGED <<C, D, m>>
Spec == Init /\ [][Next]_vars
SameMotion == Over(C, m) /\ Over(D, n) => <<m.t, m.q, m.v>> = <<n.t, n.q, n.v>>
=============================================================================
