----------------------------- MODULE HistOrders -----------------------------
(* Every sequence of numbers as a node ordering (C04). *)
EXTENDS Histories

Graphs == <<<<>>, <<<<1, 0, 2>>>>, <<<<0, 1, 2>>, <<1, 2, 1>>, <<0, 2, 5>>, <<2, 0, 1>>>>,
            <<<<0, 1, 1>>, <<1, 2, 1>>, <<2, 3, 1>>, <<3, 0, 1>>, <<0, 3, 9>>>>>>
Top == IF IOEnv.HALPHA = "small" THEN 3 ELSE 4

Prelude == [k \in 1..Top |-> [o |-> "build", i |-> k, es |-> Graphs[k]]]
NodesOf(k) == NodeCount(Graphs[k])
Orders(k) == UNION {[1..m -> 0..(NodesOf(k) + (IF k < 4 THEN 1 ELSE 0))] : m \in 0..(NodesOf(k) + 1)}
Alphabet == UNION {{[o |-> "prepo", g |-> k, i |-> k, ord |-> o, par |-> "default"] : o \in Orders(k)} : k \in 1..Top}

Spec == HInit /\ [][HNext(Prelude, Alphabet)]_<<vars, log>>
Emit == HEmit(Prelude)
Total == HTotal(Prelude, Alphabet)
OnlyPermutations == \A a \in 1..Len(pv) : IsPermutation(pv[a].ord, pv[a].n)
=============================================================================
