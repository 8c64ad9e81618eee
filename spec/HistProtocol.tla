----------------------------- MODULE HistProtocol -----------------------------
(* The freeze/thaw protocol and the normal form of the edges (C07, C08). *)
EXTENDS Histories

A(f, t, w) == [o |-> "add", i |-> 0, f |-> f, t |-> t, w |-> w]
B(f, t, w) == [o |-> "addb", i |-> 0, f |-> f, t |-> t, w |-> w]
G(o) == [o |-> o, i |-> 0]

Prelude == <<G("new")>>
Small ==
  {A(0, 1, 2), A(0, 1, 1), A(2, 0, 3), A(1, 1, 4), A(0, 3, 0), B(1, 0, 2)}
  \cup {G("frz"), G("thw"), G("edges"), G("nn")}
Large == Small \cup {G("ne"), G("str"), [o |-> "prep", g |-> 0, i |-> 0, par |-> "default"],
                     [o |-> "tof", i |-> 0, file |-> "f"]}
Alphabet == IF IOEnv.HALPHA = "small" THEN Small ELSE Large

Spec == HInit /\ [][HNext(Prelude, Alphabet)]_<<vars, log>>
Emit == HEmit(Prelude)
Total == HTotal(Prelude, Alphabet)
=============================================================================
