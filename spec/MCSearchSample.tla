--------------------------- MODULE MCSearchSample ---------------------------
(* MCSearch on a random sample of larger graphs (TLC's random seed is fixed by the caller). *)
EXTENDS MCSearch, Randomization
CONSTANT K

(* weights drawn uniformly; number 0 and the heavier half of them stand for no edge *)
Draw(w) == [p \in PairsOf(V) |-> [w |-> IF w[p] \in W THEN w[p] ELSE WM, m |-> -1]]
InitSample ==
  /\ \E w \in RandomSubset(K, [PairsOf(V) -> 0..(2 * Cardinality(W))]) : e0 = Draw(w)
  /\ e = e0 /\ v = 0 /\ up = <<>> /\ dn = <<>>
  /\ S = <<>> /\ T = <<>> /\ q = <<>>
SpecSample == InitSample /\ [][Next]_vars
=============================================================================
