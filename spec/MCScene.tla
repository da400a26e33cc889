------------------------------- MODULE MCScene -------------------------------
(***************************************************************************)
(* Drawing small worlds, item after item, then animating them: every node  *)
(* is shown where the world has what it stands for, at any time.           *)
(***************************************************************************)
EXTENDS Scene, TLC, Json, IOUtils
VARIABLES par, ty, ends, extra, flat, todo, s, x
vars == <<par, ty, ends, extra, flat, todo, s, x>>
NB == atoi(IOEnv.NB)
Types == IF IOEnv.TYPES = "all" THEN {"RzJoint", "RyRxJoint", "FreeJoint"} ELSE {"RzJoint", "FreeJoint"}
Seqn(n, F(_)) == LET g[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(g[k-1], F(k)) IN g[n]
\* each link has frames of its own at none, one or both ends; then an extra frame
\* ends[j] in {0, 1, 2, 3}: 1 for a frame on the parent, 2 on the child
HasF0(j) == ends[j] % 2 = 1
HasF1(j) == ends[j] > 1
LinkFrames(j) == (IF HasF0(j) THEN <<[body |-> par[j], moving |-> FALSE]>> ELSE <<>>) \o (IF HasF1(j) THEN <<[body |-> j, moving |-> FALSE]>> ELSE <<>>)
AllFrames == LET g[k \in 0..NB] == IF k = 0 THEN IF extra.at < 0 THEN <<>> ELSE <<[body |-> extra.at, moving |-> extra.moving]>>
                                   ELSE g[k-1] \o LinkFrames(k)
             IN g[NB]
CountTo(j) == LET g[k \in 0..NB] == IF k = 0 THEN IF extra.at < 0 THEN 0 ELSE 1 ELSE g[k-1] + Len(LinkFrames(k)) IN g[j]
C == LET L(j) == [parent |-> par[j], child |-> j, type |-> ty[j], h0 |-> I4, h1 |-> I4,
                  f0 |-> IF HasF0(j) THEN CountTo(j-1) + 1 ELSE 0, f1 |-> IF HasF1(j) THEN CountTo(j) ELSE 0]
     IN [nb |-> NB, links |-> Seqn(NB, L), frames |-> AllFrames]
QOf(j, m, k) == FDiv(FInt(3*j + m - 2*k), FInt(4))
Q(k) == LET F(j) == IF ty[j] = "FreeJoint" THEN Hom(RotOf(MMul(RotZ(QOf(j, 1, k)), RotX(QOf(j, 2, k)))), <<QOf(j, 3, k), One, QOf(j, 1, k)>>)
                    ELSE LET G(m) == QOf(j, m, k) IN Seqn(NDofOf(ty[j]), G)
        IN Seqn(NB, F)
\* moving frames move
H(k) == LET F(i) == LET y == IF AllFrames[i].moving THEN k ELSE 0 IN Hom(RotOf(MMul(RotX(FInt(i + y)), RotY(FInt(1 + y)))), <<FInt(y), Half, FInt(i)>>)
        IN Seqn(Len(AllFrames), F)

Init == /\ par \in {p \in [1..NB -> 0..(NB-1)] : \A j \in 1..NB : p[j] < j}
        /\ ty \in [1..NB -> Types] /\ ends \in [1..NB -> 0..3]
        /\ extra \in {[at |-> -1, moving |-> FALSE]} \cup [at : 0..NB, moving : BOOLEAN]
        /\ flat \in BOOLEAN
        /\ todo = Visit(C) /\ s = <<>> /\ x = 0
Step == /\ todo # <<>>
        /\ LET c == C IN s' = Draw(c, flat, Q(0), H(0), s, Head(todo))
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<par, ty, ends, extra, flat, x>>
Move == /\ todo = <<>> /\ x < 1
        /\ x' = x + 1 /\ s' = Apply(s, Transforms(C, flat, Q(x + 1), H(x + 1)))
        /\ UNCHANGED <<par, ty, ends, extra, flat, todo>>
        /\ PrintT("B " \o ToJson([par |-> par, ty |-> ty, ends |-> ends, extra |-> extra, flat |-> flat]))
Next == Step \/ Move
Spec == Init /\ [][Next]_vars
Tol == Eps(12)
Faithful == LET c == C  q == Q(x)  h == H(x)
            IN \A k \in 1..Len(s) : MNear(Shown(s, k), WorldPose(c, q, h, s[k].of), Tol)
Once == \A i, k \in 1..Len(s) : i # k => s[i].of # s[k].of
Rooted == \A k \in 1..Len(s) : s[k].up < k
Complete == todo = <<>> => \A y \in 1..(NB + Len(AllFrames)) : Drawn(s, y)
Moves == todo = <<>> => LET tr == Transforms(C, flat, Q(x), H(x))
                        IN {s[k].of : k \in {j \in 1..Len(s) : ~s[j].const}} = {tr[j].of : j \in 1..Len(tr)}
=============================================================================
