------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The bidirectional upward search with stall-on-demand, as a transition   *)
(* system over one record q per running search:                            *)
(*   d[i]   : tentative weights (WM: none); i = 1 forward, 2 backward      *)
(*   done[i]: settled nodes                                                *)
(*   heap[i]: set of <<weight, node>>                                      *)
(*   par[i] : predecessor in the search tree (itself at a root)            *)
(*   best, meet : best connection so far                                   *)
(* h is a hierarchy: up[v], dn[v] map the neighbours x above v to the edge *)
(* v -> x, x -> v, as [w, m] (see Contraction).                            *)
(*                                                                         *)
(* Which direction moves next and which of several entries of equal weight *)
(* is taken are left open; so is whether an entry of weight equal to best  *)
(* is still looked at.  The implementation is one resolution of these.     *)
(***************************************************************************)
EXTENDS Contraction

Lists(S, V, wm) ==    \* initial weight of every node: the lightest entry
  [v \in V |-> FoldLeft(LAMBDA w, x : IF x[1] = v THEN Min2(w, Min2(x[2], wm)) ELSE w, wm, S)]

Start(S, T, V, wm) ==
  LET a == <<Lists(S, V, wm), Lists(T, V, wm)>>
  IN  [d |-> a, done |-> <<{}, {}>>,
       heap |-> [i \in 1..2 |-> {<<a[i][v], v>> : v \in {x \in V : a[i][x] < wm}}],
       par |-> [i \in 1..2 |-> [v \in V |-> v]],
       best |-> wm, meet |-> -1]

Along(h, i, v)   == IF i = 1 THEN h.up[v] ELSE h.dn[v]
Against(h, i, v) == IF i = 1 THEN h.dn[v] ELSE h.up[v]

Stallable(h, q, i, k, v, wm) ==
  \E x \in DOMAIN Against(h, i, v) :
     Sat(q.d[i][x], Against(h, i, v)[x].w, wm) < k

Lightest(H) == {x \in H : \A y \in H : x[1] <= y[1]}

Settle(h, q, i, x, wm) ==
  LET k == x[1]
      v == x[2]
      es == Along(h, i, v)
      better == {y \in DOMAIN es : Sat(k, es[y].w, wm) < q.d[i][y]}
      d2 == [y \in DOMAIN q.d[i] |-> IF y \in better THEN Sat(k, es[y].w, wm) ELSE q.d[i][y]]
      tot == Sat(k, q.d[3 - i][v], wm)
  IN  [q EXCEPT
         !.d[i] = d2,
         !.par[i] = [y \in DOMAIN @ |-> IF y \in better THEN v ELSE @[y]],
         !.done[i] = (@ \cup {v}) \ better,
         !.heap[i] = (@ \ {x}) \cup {<<d2[y], y>> : y \in better},
         !.best = IF tot < @ THEN tot ELSE @,
         !.meet = IF tot < q.best THEN v ELSE @]

(* everything one side can do with its lightest entry *)
Moves(h, q, i, wm) ==
  UNION {
    LET drop == [q EXCEPT !.heap[i] = @ \ {x}]
    IN  IF x[2] \in q.done[i] THEN {drop}
        ELSE IF x[1] > q.best THEN {drop}
        ELSE (IF x[1] = q.best THEN {drop} ELSE {}) \cup
             (IF Stallable(h, q, i, x[1], x[2], wm) THEN {drop} ELSE {Settle(h, q, i, x, wm)})
    : x \in Lightest(q.heap[i])}

Steps(h, q, wm) == Moves(h, q, 1, wm) \cup Moves(h, q, 2, wm)
Finished(q) == q.heap = <<{}, {}>>

-----------------------------------------------------------------------------
(* the route found *)

RECURSIVE Expand(_, _, _, _)
(* nodes after a on the way from a to b along the stored edge e *)
Expand(h, a, b, e) ==
  IF e.m = -1 THEN <<b>>
  ELSE Expand(h, a, e.m, h.dn[e.m][a]) \o Expand(h, e.m, b, h.up[e.m][b])

RECURSIVE FromRoot(_, _, _)
FromRoot(h, q, v) == LET p == q.par[1][v] IN
  IF p = v THEN <<v>> ELSE FromRoot(h, q, p) \o Expand(h, p, v, h.up[p][v])
RECURSIVE ToRoot(_, _, _)
ToRoot(h, q, v) == LET p == q.par[2][v] IN
  IF p = v THEN <<>> ELSE Expand(h, v, p, h.dn[p][v]) \o ToRoot(h, q, p)

RouteOf(h, q) == FromRoot(h, q, q.meet) \o ToRoot(h, q, q.meet)
=============================================================================
