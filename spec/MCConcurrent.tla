---------------------------- MODULE MCConcurrent ----------------------------
(***************************************************************************)
(* Several searches over one shared hierarchy, interleaved step by step,   *)
(* each with its own search state, while the hierarchy of another graph is *)
(* still being made by a further thread: each ends with the answer it has  *)
(* when running alone, and nothing shared changes.                         *)
(***************************************************************************)
EXTENDS Search

CONSTANTS N, W, WM, Threads

V == 0..(N - 1)
PairsOf(X) == {p \in X \X X : p[1] # p[2]}

VARIABLES e0, up, dn,      \* the shared prepared graph, in full
          ask,             \* thread -> <<s, t>>
          q,               \* thread -> its search
          e, v             \* the graph that is being prepared meanwhile
vars == <<e0, up, dn, ask, q, e, v>>

Input(w) == [p \in PairsOf(V) |-> [w |-> w[p], m |-> -1]]

RECURSIVE Make(_, _, _, _)
(* one way of contracting: all shortcuts that may be left out are left out *)
Make(x, k, u, d) ==
  IF k = N THEN [up |-> u, dn |-> d]
  ELSE LET rest == (k + 1)..(N - 1)
       IN  Make(After(x, k, rest, Must(x, k, rest, WM), WM), k + 1,
                (k :> StoredOut(x, k, rest, WM)) @@ u, (k :> StoredIn(x, k, rest, WM)) @@ d)

Init ==
  /\ \E w \in [PairsOf(V) -> {WM} \cup W] :
       /\ e0 = Input(w)
       /\ LET h == Make(e0, 0, <<>>, <<>>) IN up = h.up /\ dn = h.dn
  /\ ask = <<>> /\ q = <<>>
  /\ e = e0 /\ v = 0

Ask(th) ==
  /\ th \notin DOMAIN ask
  /\ \E s, t \in V :
       /\ ask' = (th :> <<s, t>>) @@ ask
       /\ q' = (th :> Start(<<<<s, 0>>>>, <<<<t, 0>>>>, V, WM)) @@ q
  /\ UNCHANGED <<e0, up, dn, e, v>>

Move(th) ==
  /\ th \in DOMAIN ask /\ ~Finished(q[th])
  /\ \E x \in Steps([up |-> up, dn |-> dn], q[th], WM) : q' = [q EXCEPT ![th] = x]
  /\ UNCHANGED <<e0, up, dn, ask, e, v>>

Contract ==
  /\ v < N
  /\ LET rest == (v + 1)..(N - 1) IN e' = After(e, v, rest, Must(e, v, rest, WM), WM)
  /\ v' = v + 1
  /\ UNCHANGED <<e0, up, dn, ask, q>>

Next == Contract \/ \E th \in Threads : Ask(th) \/ Move(th)
Spec == Init /\ [][Next]_vars

D0 == DistOver(e0, V, WM)
EachExact == \A th \in DOMAIN ask :
  /\ q[th].best >= D0[ask[th][1]][ask[th][2]]
  /\ Finished(q[th]) => q[th].best = D0[ask[th][1]][ask[th][2]]
SharedUnchanged == [][UNCHANGED <<e0, up, dn>>]_vars
=============================================================================
