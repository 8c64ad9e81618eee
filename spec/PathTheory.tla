----------------------------- MODULE PathTheory -----------------------------
(***************************************************************************)
(* Weights, paths and shortest distances of directed graphs.               *)
(*                                                                         *)
(* A weight is a natural number; every weight >= wm stands for "infinite"  *)
(* (the implementation's maximum weight) and sums saturate at wm.          *)
(* An edge is a triple <<from, to, weight>>, a graph a sequence of edges.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Sat(a, b, wm) == IF a >= wm \/ b >= wm THEN wm
                 ELSE IF a + b >= wm THEN wm ELSE a + b

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

SeqRange(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
(* Normal form of an edge sequence: sorted, one edge per ordered pair, the  *)
(* lightest one.                                                            *)

EdgeLess(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ a[2] < b[2]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

(* going through the set keeps TLC's sorting fast; any order of its elements would do *)
NormalForm(es) ==
  LET s    == SortSeq(SetToSeq(SeqRange(es)), EdgeLess)
      keep == SelectSeq([i \in 1..Len(s) |-> i],
                        LAMBDA i : i = 1 \/ s[i][1] # s[i-1][1] \/ s[i][2] # s[i-1][2])
  IN  [j \in 1..Len(keep) |-> s[keep[j]]]

(* The same, as a definition instead of an algorithm (checked equal by TLC). *)
NormalSet(es) ==
  LET R == SeqRange(es)
  IN  {e \in R : \A f \in R : (f[1] = e[1] /\ f[2] = e[2]) => e[3] <= f[3]}

IsNormal(es) ==
  /\ \A i \in 1..Len(es) : es[i][1] # es[i][2] /\ es[i][3] > 0
  /\ \A i \in 1..(Len(es)-1) :
       \/ es[i][1] < es[i+1][1]
       \/ es[i][1] = es[i+1][1] /\ es[i][2] < es[i+1][2]

NodeCount(es) == FoldLeft(LAMBDA n, e : Max2(n, Max2(e[1], e[2]) + 1), 0, es)

Endpoints(es) == {es[(i + 1) \div 2][(i % 2) + 1] : i \in 1..(2 * Len(es))}

-----------------------------------------------------------------------------
(* Adjacency of a graph in normal form, over its active nodes. *)

(* first position in 1..k+1 whose edge does not start before u; es is sorted *)
RECURSIVE FirstFrom(_, _, _, _)
FirstFrom(es, u, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN  IF es[m][1] < u THEN FirstFrom(es, u, m + 1, hi) ELSE FirstFrom(es, u, lo, m)

OutAdj(es, act) ==
  [u \in act |-> SubSeq(es, FirstFrom(es, u, 1, Len(es) + 1), FirstFrom(es, u + 1, 1, Len(es) + 1) - 1)]

InAdj(es, act) ==
  IF Len(es) <= 400
  THEN [u \in act |-> SelectSeq(es, LAMBDA e : e[2] = u)]
  ELSE LET flip(x) == [i \in 1..Len(x) |-> <<x[i][2], x[i][1], x[i][3]>>]
           rev == TLCEval(SortSeq(SetToSeq(SeqRange(flip(es))), EdgeLess))
       IN  [u \in act |-> flip(SubSeq(rev, FirstFrom(rev, u, 1, Len(rev) + 1),
                                           FirstFrom(rev, u + 1, 1, Len(rev) + 1) - 1))]

EdgeWeight(adj, u, v, wm) ==
  IF u \notin DOMAIN adj THEN wm
  ELSE FoldLeft(LAMBDA w, e : IF e[2] = v /\ e[3] < w THEN e[3] ELSE w, wm, adj[u])

(* Weight of a node sequence; wm if two consecutive nodes are not joined. *)
PathWeight(adj, p, wm) ==
  FoldLeft(LAMBDA w, i : Sat(w, EdgeWeight(adj, p[i], p[i+1], wm), wm),
           0, [i \in 1..(Len(p)-1) |-> i])

-----------------------------------------------------------------------------
(* Distances, three ways.                                                   *)
(*  DefDist    : the definition, minimum over all simple paths              *)
(*  DistRow    : fixpoint of relaxation (used to check single queries)      *)
(*  CertifiedRow : a claimed row d from s is exact iff it is feasible       *)
(*               (triangle inequality along every edge) and attained by     *)
(*               real paths -- linear in the graph, used for large graphs.  *)
(*  TightRow   : likewise, attained by a last edge from a node nearer to s  *)
(*               (weights are positive); for distances without routes.      *)
(* TLC checks their agreement exhaustively on small graphs (MCPathTheory).  *)

SimplePaths(nodes, s, t) ==
  IF s = t THEN {<<s>>}
  ELSE {p \in UNION {[1..k -> nodes] : k \in 2..Cardinality(nodes)} :
          /\ p[1] = s /\ p[Len(p)] = t
          /\ \A i, j \in 1..Len(p) : p[i] = p[j] => i = j}

DefDist(adj, nodes, s, t, wm) ==
  LET ws == {PathWeight(adj, p, wm) : p \in SimplePaths(nodes, s, t)} \cup {wm}
  IN  CHOOSE w \in ws : \A x \in ws : w <= x

RECURSIVE RelaxFix(_, _, _)
RelaxFix(radj, d, wm) ==
  LET e == TLCEval([v \in DOMAIN radj |->
             FoldLeft(LAMBDA w, x : Min2(w, Sat(d[x[1]], x[3], wm)), d[v], radj[v])])
  IN  IF e = d THEN d ELSE RelaxFix(radj, e, wm)

DistRow(radj, s, wm) ==
  RelaxFix(radj, [v \in DOMAIN radj |-> IF v = s THEN 0 ELSE wm], wm)

DistMatrix(radj, wm) == [s \in DOMAIN radj |-> DistRow(radj, s, wm)]

(* d and p: functions from the active nodes to claimed distance and path *)
Feasible(adj, s, d, wm) ==
  /\ d[s] = 0
  /\ \A u \in DOMAIN adj : \A i \in 1..Len(adj[u]) :
        d[adj[u][i][2]] <= Sat(d[u], adj[u][i][3], wm)

IsPath(adj, p, s, t, w, wm) ==
  /\ Len(p) >= 1
  /\ p[1] = s
  /\ p[Len(p)] = t
  /\ w < wm
  /\ PathWeight(adj, p, wm) = w

CertifiedRow(adj, s, d, p, wm) ==
  /\ Feasible(adj, s, d, wm)
  /\ \A t \in DOMAIN adj : IF d[t] >= wm THEN p[t] = <<>>
                           ELSE IsPath(adj, p[t], s, t, d[t], wm)

TightRow(es, adj, s, d, wm) ==
  LET tight(e) == d[e[2]] < wm /\ d[e[2]] = Sat(d[e[1]], e[3], wm)
  IN  /\ Feasible(adj, s, d, wm)
      /\ {t \in DOMAIN adj : t # s /\ d[t] < wm} = {es[i][2] : i \in {j \in 1..Len(es) : tight(es[j])}}
      /\ \A t \in DOMAIN adj : d[t] <= wm

-----------------------------------------------------------------------------
IsPermutation(o, n) ==
  /\ Len(o) = n
  /\ {o[i] : i \in 1..n} = 0..(n-1)
=============================================================================
