------------------------------ MODULE HistCalc ------------------------------
(* One calculator, many queries, on two graphs with as many nodes (C06), and on one with another *)
(* number of nodes.                                                                              *)
EXTENDS Histories

Q(g, s, t) == [o |-> "q", c |-> 0, g |-> g, s |-> s, t |-> t]
M(g, S, T) == [o |-> "mq", c |-> 0, g |-> g, S |-> S, T |-> T]

Prelude == <<[o |-> "build", i |-> 0, es |-> <<<<0, 1, 1>>, <<1, 2, 1>>, <<0, 2, 5>>, <<2, 3, 1>>, <<3, 1, 2>>>>],
             [o |-> "build", i |-> 1, es |-> <<<<3, 0, 2>>, <<0, 2, 3>>, <<2, 0, 1>>, <<1, 0, 9>>>>],
             [o |-> "build", i |-> 2, es |-> <<<<0, 1, 1>>>>],
             [o |-> "build", i |-> 3, es |-> <<<<0, 1, 1>>, <<1, 2, 9>>, <<0, 2, 5>>, <<2, 3, 3>>, <<3, 1, 7>>>>],
             [o |-> "prep", g |-> 0, i |-> 0, par |-> "default"],
             [o |-> "prep", g |-> 1, i |-> 1, par |-> "default"],
             [o |-> "prep", g |-> 2, i |-> 2, par |-> "default"],
             [o |-> "prep", g |-> 3, i |-> 3, par |-> "default"],
             [o |-> "cal", c |-> 0, g |-> 0]>>

WM == 1000000000
\* 3 is 0 with other weights
Small == {Q(3, 0, 3), Q(3, 3, 0), M(3, <<<<0, 4>>, <<1, 0>>>>, <<<<3, 1>>, <<2, 5>>>>), Q(0, 0, 3), Q(0, 3, 0), Q(0, 1, 1), Q(0, 4, 0), Q(1, 3, 2), Q(1, 1, 3), Q(1, 2, 4), Q(2, 0, 1),
          M(0, <<<<0, 4>>, <<1, 0>>>>, <<<<3, 1>>, <<2, 5>>>>), M(1, <<<<3, 0>>>>, <<<<1, 0>>>>),
          M(0, <<>>, <<<<1, 0>>>>), M(1, <<<<2, 0>>, <<0, WM>>>>, <<<<2, 3>>, <<0, 0>>>>)}
Large == Small \cup {Q(0, s, t) : s \in 0..1, t \in 2..3} \cup {Q(3, s, t) : s \in 0..3, t \in 2..3} \cup {Q(1, s, t) : s \in 2..3, t \in 0..1}
         \cup {M(0, <<<<0, 0>>, <<9, 0>>>>, <<<<1, 0>>>>), M(1, <<<<0, 0>>>>, <<<<0, 0>>, <<4, 1>>>>),
               M(0, <<<<0, 0>>>>, <<>>), M(0, <<<<2, WM>>>>, <<<<3, 0>>>>)}
Alphabet == IF IOEnv.HALPHA = "small" THEN Small ELSE Large

Spec == HInit /\ [][HNext(Prelude, Alphabet)]_<<vars, log>>
Emit == HEmit(Prelude)
Total == HTotal(Prelude, Alphabet)
=============================================================================
