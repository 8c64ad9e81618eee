------------------------------ MODULE MCWitness ------------------------------
(***************************************************************************)
(* Every sequence of requests to one witness search: whatever the limits,  *)
(* an answer is never below the distance and always the weight of a real   *)
(* route, and without a limit on settled nodes it tells whether there is a *)
(* route within the weight limit.  Hence "a shortcut iff the answer is     *)
(* above the weight of the two edges" adds all of Contraction!Must: it is  *)
(* one of the choices MCSearch and MCHierarchy check.                      *)
(***************************************************************************)
EXTENDS Witness, TLC

CONSTANTS N, W, WM, Limits, Counts, MaxAsks,
          Into       \* edges into the start as well

VARIABLES e, ws, last, asks
vars == <<e, ws, last, asks>>

V == 0..(N - 1)
Pairs == {p \in V \X V : p[1] # p[2]}
s0 == 0

Con == INSTANCE Contraction
Es(x) == [p \in Pairs |-> [w |-> x[p], m |-> -1]]
D0 == Con!RowOver(Es(e), V, s0, WM)

Init ==
  /\ \E f \in [{p \in Pairs : Into \/ p[2] # s0} -> {WM} \cup W] :
       e = [p \in Pairs |-> IF p \in DOMAIN f THEN f[p] ELSE WM]
  /\ ws = Begin(V, s0, WM)
  /\ last = <<>>
  /\ asks = 0

Next ==
  /\ asks < MaxAsks
  /\ asks' = asks + 1
  /\ UNCHANGED e
  /\ \E t \in V, wl \in Limits, cl \in Counts :
       \E r \in Ask(e, V, s0, ws, t, wl, cl, WM) :
         /\ ws' = r[1]
         /\ last' = <<t, wl, cl, r[2]>>

Spec == Init /\ [][Next]_vars

Real == \A x \in V : ws.d[x] >= D0[x]
SettledExact == \A x \in ws.set : ws.d[x] = D0[x]
(* tentative weights are weights of routes: of an edge out of a settled node *)
Attained == \A x \in V : ws.d[x] < WM =>
              x = s0 \/ \E y \in ws.set : y # x /\ ws.d[x] = Sat(ws.d[y], e[<<y, x>>], WM)
AnswerBound == last # <<>> => last[4] >= D0[last[1]]
(* not limited: at most `limit' iff there is such a route *)
AnswerTells == (last # <<>> /\ last[3] > N) => ((last[4] <= last[2]) <=> (D0[last[1]] <= last[2]))
(* what contraction makes of an answer: needed shortcuts are never missed *)
NeverMissed == last # <<>> => (D0[last[1]] > last[2] => last[4] > last[2])
(* and with a search that settles at least the start no edge as good is overlooked *)
NoIdle == (last # <<>> /\ last[3] >= 1 /\ last[1] # s0) =>
            (last[4] > last[2] => e[<<s0, last[1]>>] > last[2])
=============================================================================
