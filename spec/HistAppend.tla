------------------------------ MODULE HistAppend ------------------------------
(* A graph with several edges is frozen and thawed, then edited with edges at every position    *)
(* relative to those it has, over further rounds (C08).                                         *)
EXTENDS Histories

A(f, t, w) == [o |-> "add", i |-> 0, f |-> f, t |-> t, w |-> w]
B(f, t, w) == [o |-> "addb", i |-> 0, f |-> f, t |-> t, w |-> w]
G(o) == [o |-> o, i |-> 0]

Prelude == <<[o |-> "build", i |-> 0, es |-> <<<<3, 1, 5>>, <<1, 2, 5>>, <<1, 5, 5>>, <<2, 2, 1>>, <<5, 3, 5>>,
                                               <<3, 1, 6>>, <<4, 1, 5>>, <<2, 4, 5>>>>],
             G("thw")>>
Small ==
  {A(1, 2, 4), A(1, 2, 6),             \* the first edge, lighter or heavier
   A(5, 3, 4), A(5, 3, 6),             \* the last edge
   A(0, 4, 5), A(5, 4, 5), A(6, 0, 5), \* before the first, just after the last, far after it
   A(2, 4, 4), A(2, 5, 5),             \* in between
   G("frz"), G("thw")}
Large == Small \cup {B(5, 3, 1), B(5, 6, 2), A(4, 4, 1), A(3, 1, 0), A(5, 3, 5), A(2, 4, 9)}
Alphabet == IF IOEnv.HALPHA = "small" THEN Small ELSE Large

Spec == HInit /\ [][HNext(Prelude, Alphabet)]_<<vars, log>>
Emit == HEmit(Prelude)
Total == HTotal(Prelude, Alphabet)
=============================================================================
