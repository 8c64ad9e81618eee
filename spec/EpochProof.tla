----------------------------- MODULE EpochProof -----------------------------
(* Apalache: Ind holds initially and is preserved by every step, for the epochs of the implementation. *)
EXTENDS Epoch
ConstInit == Nodes = {0, 1, 2} /\ Top = 4294967295
=============================================================================
