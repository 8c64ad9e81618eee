-------------------------------- MODULE Witness --------------------------------
(***************************************************************************)
(* The search for another route, as a state machine: from one start node,  *)
(* never over the node being contracted, asked for one target after the    *)
(* other while keeping what it has found so far, each time with a limit on *)
(* the weight and a limit on the number of settled nodes since the start.  *)
(* An answer is an upper bound of the distance, WM if nothing is known.    *)
(*   ws.d, ws.set : tentative weights and settled nodes                    *)
(*   ws.h, ws.cnt : pending entries <<weight, node>>, settled so far       *)
(***************************************************************************)
EXTENDS PathTheory

Nearest(h) == {x \in h : \A y \in h : x[1] <= y[1]}

Begin(V, s, wm) == [d |-> [x \in V |-> IF x = s THEN 0 ELSE wm], set |-> {}, h |-> {<<0, s>>}, cnt |-> 0]

(* e: weight of the edge, wm if there is none; V does not contain the node avoided *)
SettleNode(e, V, ws, c, wm) ==
  LET x   == c[2]
      upd == {y \in V : y # x /\ e[<<x, y>>] < wm /\ Sat(c[1], e[<<x, y>>], wm) < ws.d[y]}
  IN  [d   |-> [y \in V |-> IF y \in upd THEN Sat(c[1], e[<<x, y>>], wm) ELSE ws.d[y]],
       set |-> (ws.set \cup {x}) \ upd,
       h   |-> (ws.h \ {c}) \cup {<<Sat(c[1], e[<<x, y>>], wm), y>> : y \in upd},
       cnt |-> ws.cnt + 1]

(* all results of one request, as <<state, answer>> (ties among nearest entries: any) *)
RECURSIVE Run(_, _, _, _, _, _, _)
Run(e, V, ws, t, wl, cl, wm) ==
  IF ws.h = {} \/ ws.cnt >= cl \/ (\E c \in Nearest(ws.h) : c[1] > wl) THEN {<<ws, ws.d[t]>>}
  ELSE UNION {
         IF c[2] \in ws.set
         THEN Run(e, V, [ws EXCEPT !.h = @ \ {c}], t, wl, cl, wm)
         ELSE LET n == SettleNode(e, V, ws, c, wm)
              IN  IF c[2] = t \/ (n.d[t] < ws.d[t] /\ n.d[t] <= wl) THEN {<<n, n.d[t]>>}
                  ELSE Run(e, V, n, t, wl, cl, wm)
         : c \in Nearest(ws.h)}

Ask(e, V, s, ws, t, wl, cl, wm) ==
  IF t = s THEN {<<ws, 0>>}
  ELSE IF ws.d[t] < wm /\ (t \in ws.set \/ ws.d[t] <= wl) THEN {<<ws, ws.d[t]>>}
  ELSE Run(e, V, ws, t, wl, cl, wm)
=============================================================================
