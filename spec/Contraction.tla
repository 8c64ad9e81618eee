----------------------------- MODULE Contraction -----------------------------
(***************************************************************************)
(* How a graph may be turned into a hierarchy.  Nodes are contracted one   *)
(* after another; by renaming nodes, in the order 0, 1, 2, ...             *)
(*                                                                         *)
(* A weighted edge set is a function from ordered pairs to [w, m]: weight  *)
(* (WM: no edge) and the node a shortcut leads over (-1: input edge).      *)
(* When v is contracted, every two-edge route u -> v -> x without another  *)
(* route of at most the same weight among the nodes that remain must be    *)
(* replaced by a shortcut; any other two-edge route may be replaced (the   *)
(* search for another route may give up early, in any way).                *)
(***************************************************************************)
EXTENDS PathTheory

Absent(wm) == [w |-> wm, m |-> -1]

(* distances in the edge set e between nodes of V *)
RECURSIVE Relax(_, _, _, _)
Relax(e, V, d, wm) ==
  LET n == [x \in V |->
              LET ws == {d[x]} \cup {Sat(d[y], e[<<y, x>>].w, wm) : y \in V \ {x}}
              IN  CHOOSE w \in ws : \A z \in ws : w <= z]
  IN  IF n = d THEN d ELSE Relax(e, V, n, wm)
RowOver(e, V, s, wm) == Relax(e, V, [x \in V |-> IF x = s THEN 0 ELSE wm], wm)
DistOver(e, V, wm)   == [s \in V |-> RowOver(e, V, s, wm)]

(* routes over v that have to be, and that may be replaced; rest = remaining nodes without v *)
Over(e, v, p, wm)  == Sat(e[<<p[1], v>>].w, e[<<v, p[2]>>].w, wm)
Candidates(e, v, rest, wm) ==
  {p \in rest \X rest : p[1] # p[2] /\ Over(e, v, p, wm) < e[p].w}
Must(e, v, rest, wm) ==
  LET D == DistOver(e, rest, wm)
  IN  {p \in Candidates(e, v, rest, wm) : Over(e, v, p, wm) < D[p[1]][p[2]]}

(* the edges among the remaining nodes after contracting v with shortcuts for c *)
After(e, v, rest, c, wm) ==
  [p \in {q \in rest \X rest : q[1] # q[2]} |->
     IF p \in c THEN [w |-> Over(e, v, p, wm), m |-> v] ELSE e[p]]

(* the edges stored for v: upwards out of it, and (reversed) upwards into it *)
StoredOut(e, v, rest, wm) == [x \in {y \in rest : e[<<v, y>>].w < wm} |-> e[<<v, x>>]]
StoredIn(e, v, rest, wm)  == [x \in {y \in rest : e[<<y, v>>].w < wm} |-> e[<<x, v>>]]
=============================================================================
