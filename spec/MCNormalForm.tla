---------------------------- MODULE MCNormalForm ----------------------------
(***************************************************************************)
(* The normal form of an edge list: what it is, and that it depends on     *)
(* nothing but the lightest weight per pair.  All edge lists up to a       *)
(* length, with loops and zero weights.                                    *)
(***************************************************************************)
EXTENDS PathTheory

CONSTANTS N, W, Depth

Accepted(e) == e[1] # e[2] /\ e[3] > 0
Edges == (0..(N - 1)) \X (0..(N - 1)) \X W

VARIABLES es,      \* everything added so far
          inc      \* frozen and thawed after every addition
Init == es = <<>> /\ inc = <<>>
Add(e) == /\ Len(es) < Depth
          /\ es' = IF Accepted(e) THEN Append(es, e) ELSE es
          /\ inc' = NormalForm(IF Accepted(e) THEN Append(inc, e) ELSE inc)
Next == \E e \in Edges : Add(e)
Spec == Init /\ [][Next]_<<es, inc>>

Normal     == IsNormal(NormalForm(es))
Definition == SeqRange(NormalForm(es)) = NormalSet(es)
RoundsDontMatter == inc = NormalForm(es)
OrderDoesntMatter == \A i \in 1..(Len(es) - 1) :
   NormalForm(es) = NormalForm([j \in 1..Len(es) |-> IF j = i THEN es[i+1] ELSE IF j = i + 1 THEN es[i] ELSE es[j]])
Idempotent == NormalForm(NormalForm(es)) = NormalForm(es)
CountStable == NodeCount(NormalForm(es)) = NodeCount(es)
=============================================================================
