------------------------------ MODULE FixTest ------------------------------
(***************************************************************************)
(* The overrides of java/FixOverrides.java compute the TLA+ definitions of *)
(* Fix and Mat: the same cases are evaluated with the overrides and        *)
(* without them, and compared with the expected results (computed by       *)
(* bin/fixtest.py with Python integers).                                   *)
(***************************************************************************)
EXTENDS Mat, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE)

Eval(c) ==
  CASE c.op = "add" -> FAdd(c.a, c.b)
    [] c.op = "sub" -> FSub(c.a, c.b)
    [] c.op = "mul" -> FMul(c.a, c.b)
    [] c.op = "div" -> FDiv(c.a, c.b)
    [] c.op = "sqrt" -> FSqrt(c.a)
    [] c.op = "cmp" -> FCmp(c.a, c.b)
    [] c.op = "lt" -> FLt(c.a, c.b)
    [] c.op = "le" -> FLe(c.a, c.b)
    [] c.op = "mmul" -> MMul(c.a, c.b)
    [] c.op = "madd" -> MAdd(c.a, c.b)
    [] c.op = "msub" -> MSub(c.a, c.b)
    [] c.op = "mscale" -> MScale(c.a, c.b)
    [] c.op = "mv" -> MV(c.a, c.b)
    [] c.op = "mt" -> MT(c.a)
    [] c.op = "vadd" -> VAdd(c.a, c.b)
    [] c.op = "vsub" -> VSub(c.a, c.b)
    [] c.op = "vscale" -> VScale(c.a, c.b)
    [] c.op = "dot" -> Dot(c.a, c.b)
    [] c.op = "vmax" -> VMax(c.a)
    [] c.op = "mmax" -> MMax(c.a)

VARIABLES i, ok
Init == i \in 1..Len(Cases) /\ ok = "new"
Next == /\ ok = "new"
        /\ ok' = (IF Eval(Cases[i]) = Cases[i].r THEN "yes" ELSE "no")
        /\ i' = i
        /\ IF ok' = "yes" THEN TRUE ELSE PrintT(<<"FAIL", i, Cases[i].op, Eval(Cases[i])>>)
Inv == ok # "no"
=============================================================================
