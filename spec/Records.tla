------------------------------ MODULE Records ------------------------------
(***************************************************************************)
(* The observers which record: along the operations                        *)
(*   sim   a simulation of n steps watched by the recorder                 *)
(*   poke  the user changes the state of the world                         *)
(*   keep  the user keeps the record, to read it later                     *)
(* a record has one value per step, the one of the world at the beginning  *)
(* of the step; a new simulation starts a new record and nothing changes   *)
(* the records which were kept.                                            *)
(*                                                                         *)
(* The state: val is the value of the world, rec the current record, kept  *)
(* the records which were kept.  Values(n) are the values of the world at  *)
(* the beginning of the n steps of a simulation.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Fresh == [rec |-> <<>>, kept |-> <<>>]
AfterSim(m, values) == [m EXCEPT !.rec = values]
AfterKeep(m) == [m EXCEPT !.kept = Append(@, m.rec)]
=============================================================================
