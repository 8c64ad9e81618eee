-------------------------------- MODULE Epoch --------------------------------
(***************************************************************************)
(* Flags that are reset all at once by counting up one number (the reuse   *)
(* of a calculator's data from query to query).  A flag is set when its    *)
(* stamp equals the epoch; when the epoch cannot be counted up any more,   *)
(* all stamps are reset.  The abstraction is the plain set `valid`.        *)
(*                                                                         *)
(* TLC explores all of it for a small Top; Apalache proves the inductive   *)
(* invariant Ind for the real Top, 2^32 - 1 (EpochProof.tla).              *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Set(Int);
  Nodes,
  \* @type: Int;
  Top

VARIABLES
  \* @type: Int -> Int;
  stamp,
  \* @type: Int;
  epoch,
  \* @type: Set(Int);
  valid

Init == stamp = [v \in Nodes |-> 0] /\ epoch = 1 /\ valid = {}

Set(v) == /\ stamp' = [stamp EXCEPT ![v] = epoch]
          /\ valid' = valid \cup {v}
          /\ UNCHANGED epoch

InvalidateAll ==
  /\ valid' = {}
  /\ IF epoch = Top
     THEN stamp' = [v \in Nodes |-> 0] /\ epoch' = 1
     ELSE epoch' = epoch + 1 /\ UNCHANGED stamp

(* very many queries at once: what the hook verif_set_epoch does to a calculator, followed by *)
(* the InvalidateAll that every query starts with                                             *)
Jump(x) == /\ x > epoch /\ x <= Top
           /\ epoch' = x /\ valid' = {}
           /\ UNCHANGED stamp

JumpTargets == {Top - 1, Top} \cup {epoch + 1}
Next == (\E v \in Nodes : Set(v)) \/ InvalidateAll \/ (\E x \in JumpTargets : Jump(x))
Spec == Init /\ [][Next]_<<stamp, epoch, valid>>

Faithful == \A v \in Nodes : stamp[v] = epoch <=> v \in valid
Ind ==
  /\ epoch >= 1 /\ epoch <= Top
  /\ valid \subseteq Nodes
  /\ \A v \in Nodes : stamp[v] >= 0 /\ stamp[v] <= epoch
  /\ Faithful

(* any state satisfying Ind, for the induction step *)
IndInit ==
  /\ stamp \in [Nodes -> Int]
  /\ epoch \in Int
  /\ valid \in SUBSET Nodes
  /\ Ind
=============================================================================
