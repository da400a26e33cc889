------------------------------- MODULE Human --------------------------------
(***************************************************************************)
(* The anthropometric model: its lengths are fractions of the height, its  *)
(* masses fractions of the mass.  Each side is described once, in the      *)
(* frame where x is forward, y upward and z to the right; the left side is *)
(* its mirror.                                                             *)
(***************************************************************************)
EXTENDS Robots
\* 10^-4
Frac(n) == FDiv(FInt(n), FInt(10000))
Of(n, x) == FMul(Frac(n), x)

SideLengths == {"yfoot", "ytibia", "yfemur", "ysternoclav", "zsternoclav", "xsternoclav", "yshoulder", "zshoulder", "xshoulder", "yhumerus", "yforearm", "yhand", "xfoot", "xheel"}
MidLengths == {"yvT10", "xvT10", "zhip", "yvC7", "yhead"}
LengthNames == MidLengths \cup {x \o s : x \in SideLengths, s \in {"R", "L"}}
Base(x, h) ==
  CASE x = "yfoot" -> Of(222, h) [] x = "ytibia" -> Of(2493, h) [] x = "yfemur" -> Of(2425, h)
    [] x = "ysternoclav" -> Of(980, h) [] x = "xsternoclav" -> Of(1052, h)
    [] x = "zsternoclav" -> FDiv(FInt(127), FInt(10000))                \* half an inch
    [] x = "yshoulder" -> Of(104, h) [] x = "xshoulder" -> Of(526, h)
    [] x = "zshoulder" -> FSub(Of(1295, h), FDiv(FInt(127), FInt(10000)))
    [] x = "yhumerus" -> Of(1618, h) [] x = "yforearm" -> Of(1544, h) [] x = "yhand" -> Of(1091, h)
    [] x = "xfoot" -> Of(1482, h) [] x = "xheel" -> Of(248, h)
    [] x = "yvT10" -> Of(2075, h) [] x = "xvT10" -> Of(526, h) [] x = "zhip" -> Of(1002, h)
    [] x = "yvC7" -> Of(1390, h) [] x = "yhead" -> Of(1395, h)
Lengths(h) == [n \in LengthNames |-> Base(CHOOSE x \in SideLengths \cup MidLengths : n \in {x, x \o "R", x \o "L"}, h)]
Add3(a, b, c) == FAdd(a, FAdd(b, c))
HeightOf(L) == FAdd(Add3(L["yfootL"], L["ytibiaL"], L["yfemurL"]), Add3(L["yvT10"], L["yvC7"], L["yhead"]))

\* the names of the two sides
Side(s) == IF s = "R" THEN "Right" ELSE "Left"
Epicondyle(s) == IF s = "R" THEN "Femoral lateral epicondyle" ELSE "Left femoral lateral epicondyle"

\* a solid of mass m, center of mass c, whose radii of gyration about the axes are g
Segment(m, c, g) == At(Diag([k \in 1..6 |-> IF k <= 3 THEN FMul(m, Sq(g[k])) ELSE m]), Transl(c))
Gyr(a, b, c, len) == <<FMul(FDiv(FInt(a), FInt(1000)), len), FMul(FDiv(FInt(b), FInt(1000)), len), FMul(FDiv(FInt(c), FInt(1000)), len)>>
Mean(L, x) == FMul(Half, FAdd(L[x \o "R"], L[x \o "L"]))

Human(L, m, p) ==
  LET h == HeightOf(L)
      B(n, mass, c, g, parent, t, jt, jn) ==
        BodyRec(p \o n, p \o n, Segment(Of(mass, m), c, g), IF parent = GroundKey THEN parent ELSE p \o parent, Transl(t), jt, p \o jn,
                IF jt = "FreeJoint" THEN I4 ELSE Vec0(CASE jt = "RzRyRxJoint" -> 3 [] jt = "RzJoint" -> 1 [] OTHER -> 2),
                Vec0(CASE jt = "FreeJoint" -> 6 [] jt = "RzRyRxJoint" -> 3 [] jt = "RzJoint" -> 1 [] OTHER -> 2))
      Down(n, x) == <<Zero, FNeg(Of(n, x)), Zero>>
      Below(x) == <<Zero, FNeg(x), Zero>>
      Leg(s) ==
        LET z == IF s = "R" THEN One ELSE FInt(-1)  X(x) == L[x \o s] IN
        <<B("Thigh" \o s, 1416, Down(4095, X("yfemur")), Gyr(329, 149, 329, X("yfemur")),
            "LPT", <<Zero, Zero, FMul(z, FMul(Half, L["zhip"]))>>, "RzRyRxJoint", "Hip" \o s),
          B("Shank" \o s, 433, Down(4459, X("ytibia")), Gyr(255, 103, 249, X("ytibia")),
            "Thigh" \o s, Below(X("yfemur")), "RzJoint", "Knee" \o s),
          B("Foot" \o s, 137, <<FSub(Of(4415, X("xfoot")), X("xheel")), FNeg(FMul(Half, X("yfoot"))), Zero>>, Gyr(124, 257, 245, X("xfoot")),
            "Shank" \o s, Below(X("ytibia")), "RzRxJoint", "Ankle" \o s)>>
      Arm(s) ==
        LET z == IF s = "R" THEN One ELSE FInt(-1)  X(x) == L[x \o s] IN
        <<B("Scapula" \o s, 0, <<Zero, Zero, Zero>>, <<Zero, Zero, Zero>>,
            "UPT", <<X("xsternoclav"), X("ysternoclav"), FMul(z, X("zsternoclav"))>>, "RyRxJoint", "Torso-Scap" \o s),
          B("Arm" \o s, 271, Down(5772, X("yhumerus")), Gyr(285, 158, 269, X("yhumerus")),
            "Scapula" \o s, <<FNeg(X("xshoulder")), X("yshoulder"), FMul(z, X("zshoulder"))>>, "RzRyRxJoint", "Arm-Scap" \o s),
          B("Forearm" \o s, 162, Down(4574, X("yforearm")), Gyr(276, 121, 265, X("yforearm")),
            "Arm" \o s, Below(X("yhumerus")), "RzRyJoint", "Elbow" \o s),
          B("Hand" \o s, 61, Down(3691, X("yhand")), Gyr(288, 184, 235, X("yhand")),
            "Forearm" \o s, Below(X("yforearm")), "RzRxJoint", "Wrist" \o s)>>
      Trunk ==
        <<B("LPT", 2750, <<Zero, Of(5108, L["yvT10"]), Zero>>, [k \in 1..3 |-> Of(<<2722, 2628, 2260>>[k], L["yvT10"])],
            GroundKey, <<Zero, Add3(L["yfootL"], L["ytibiaL"], L["yfemurL"]), Zero>>, "FreeJoint", "Root"),
          B("UPT", 1596, <<FMul(Half, Mean(L, "xsternoclav")), Of(7001, Mean(L, "ysternoclav")), Zero>>, Gyr(716, 659, 454, Mean(L, "ysternoclav")),
            "LPT", <<FNeg(L["xvT10"]), L["yvT10"], Zero>>, "RzRyRxJoint", "Back"),
          B("Head", 694, <<Zero, Of(4998, L["yhead"]), Zero>>, Gyr(303, 261, 315, L["yhead"]),
            "UPT", <<L["xvT10"], L["yvC7"], Zero>>, "RzRyRxJoint", "Neck")>>
      T(n, b, x, y, z) == [name |-> p \o n, body |-> p \o b, h |-> Transl(<<x, y, z>>)]
      Tags(s) ==
        LET z(x) == IF s = "R" THEN x ELSE FNeg(x)  X(x) == L[x \o s]  N(x) == Side(s) \o " " \o x IN
        <<T(N("foot toe tip"), "Foot" \o s, Add3(X("xfoot"), FNeg(X("xheel")), Of(1, h)), FNeg(X("yfoot")), Zero),
          T(N("foot heel"), "Foot" \o s, FNeg(X("xheel")), FNeg(X("yfoot")), Zero),
          T(N("foot phalange 5"), "Foot" \o s, Of(662, h), FNeg(X("yfoot")), z(Of(305, h))),
          T(N("foot phalange 1"), "Foot" \o s, Of(662, h), FNeg(X("yfoot")), FNeg(z(Of(305, h)))),
          T(N("foot lateral malleolus"), "Shank" \o s, Zero, FNeg(X("ytibia")), z(Of(249, h))),
          T(Epicondyle(s), "Thigh" \o s, Zero, FNeg(X("yfemur")), z(Of(290, h))),
          T(N("great trochanter"), "Thigh" \o s, Zero, Zero, z(FSub(Of(941, h), FMul(Half, L["zhip"])))),
          T(N("iliac crest"), "LPT", Of(271, h), Of(366, h), z(Of(697, h))),
          T(N("acromion"), "Scapula" \o s, FNeg(X("xshoulder")), FAdd(Of(198, h), X("yshoulder")), z(X("zshoulder"))),
          T(N("humeral lateral epicondyle (radiale)"), "Arm" \o s, Zero, FNeg(X("yhumerus")), z(Of(211, h))),
          T(N("stylion"), "Forearm" \o s, Zero, FNeg(Of(1533, h)), z(Of(331, h))),
          T(N("3rd dactylion"), "Hand" \o s, Zero, FNeg(X("yhand")), Zero)>>
      Middle == <<T("Substernale (Xyphoid)", "UPT", Of(1219, h), Zero, Zero),
                  T("Suprasternale", "UPT", Mean(L, "xsternoclav"), Mean(L, "ysternoclav"), Zero),
                  T("Cervicale", "UPT", L["xvT10"], L["yvC7"], Zero),
                  T("Vertex", "Head", Zero, L["yhead"], Zero)>>
      Points(s) == LET t == Tags(s) IN <<t[1], t[2], t[3], t[4]>>
      PS == Points("R") \o Points("L")
      Shape(t) == [name |-> t.name, t |-> "Point", body |-> t.body, h |-> t.h, dims |-> <<>>]
      f[k \in 0..8] == IF k = 0 THEN <<>> ELSE Append(f[k-1], Shape(PS[k]))
  IN [bodies |-> Trunk \o Leg("R") \o Leg("L") \o Arm("R") \o Arm("L"),
      frames |-> Tags("R") \o Tags("L") \o Middle, shapes |-> f[8]]

\* with the lengths of the sides exchanged
Swap(L) == [n \in LengthNames |-> L[IF n \in MidLengths THEN n
                                    ELSE LET x == CHOOSE x \in SideLengths : n \in {x \o "R", x \o "L"}
                                         IN IF n = x \o "R" THEN x \o "L" ELSE x \o "R"]]
=============================================================================
