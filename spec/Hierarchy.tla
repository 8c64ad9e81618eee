------------------------------ MODULE Hierarchy ------------------------------
(***************************************************************************)
(* What a prepared graph has to be, independently of how it was computed:  *)
(* a sound contraction hierarchy over the input graph.                     *)
(*                                                                         *)
(* A hierarchy is a record with                                            *)
(*   ranks     : ranks[v+1] is the rank of node v                          *)
(*   fwd, bwd  : sequences of <<base, adj, weight, rin, rout>>.  An entry  *)
(*               of fwd is the edge base -> adj, one of bwd adj -> base.   *)
(*               rin/rout are 0-based indices into bwd/fwd of the two      *)
(*               edges a shortcut stands for, or -1 for an original edge   *)
(*   ff, fb    : entries of the node of rank k are ff[k+1]..ff[k+2]-1      *)
(*               (0-based), likewise fb                                    *)
(***************************************************************************)
EXTENDS PathTheory

Rank(h, v) == h.ranks[v + 1]




ShapeOK(n, h) ==
  /\ IsPermutation(h.ranks, n)
  /\ \A p \in {<<h.ff, h.fwd>>, <<h.fb, h.bwd>>} :
       /\ Len(p[1]) = n + 1
       /\ p[1][1] = 0
       /\ p[1][n + 1] = Len(p[2])
       /\ \A k \in 1..n : p[1][k] <= p[1][k + 1]
       /\ \A v \in 0..(n - 1) :
            \A x \in (p[1][Rank(h, v) + 1] + 1)..p[1][Rank(h, v) + 2] : p[2][x][1] = v

(* edges lead upwards *)
Upward(n, h) ==
  \A es \in {h.fwd, h.bwd} : \A x \in 1..Len(es) :
     /\ es[x][1] \in 0..(n - 1) /\ es[x][2] \in 0..(n - 1)
     /\ Rank(h, es[x][1]) < Rank(h, es[x][2])

(* f -> t with weight w, standing for rin, rout *)
Grounded(adj, h, f, t, w, rin, rout, wm) ==
  IF rin = -1 \/ rout = -1
  THEN /\ rin = -1 /\ rout = -1
       /\ \E i \in 1..Len(adj[f]) : adj[f][i][2] = t /\ adj[f][i][3] = w
  ELSE /\ rin \in 0..(Len(h.bwd) - 1)
       /\ rout \in 0..(Len(h.fwd) - 1)
       /\ LET a == h.bwd[rin + 1]
              b == h.fwd[rout + 1]
          IN  /\ a[1] = b[1]                      \* the common node
              /\ Rank(h, a[1]) < Rank(h, f) /\ Rank(h, a[1]) < Rank(h, t)
              /\ a[2] = f /\ b[2] = t
              /\ w = Sat(a[3], b[3], wm)
              /\ w < wm

AllGrounded(adj, h, wm) ==
  /\ \A x \in 1..Len(h.fwd) : LET e == h.fwd[x] IN Grounded(adj, h, e[1], e[2], e[3], e[4], e[5], wm)
  /\ \A x \in 1..Len(h.bwd) : LET e == h.bwd[x] IN Grounded(adj, h, e[2], e[1], e[3], e[4], e[5], wm)

(* all stored edges as a graph, and those between nodes of rank >= k *)
Stored(h) == [x \in 1..Len(h.fwd) |-> <<h.fwd[x][1], h.fwd[x][2], h.fwd[x][3]>>]
             \o [x \in 1..Len(h.bwd) |-> <<h.bwd[x][2], h.bwd[x][1], h.bwd[x][3]>>]
From(h, n, k) == {v \in 0..(n - 1) : Rank(h, v) >= k}
Remaining(h, all, k) == SelectSeq(all, LAMBDA e : Rank(h, e[1]) >= k /\ Rank(h, e[2]) >= k)

(* leaving out the lowest nodes one after another never changes a distance *)
PreservedAlways(n, D, h, wm) ==
  LET all == TLCEval(Stored(h))
  IN  \A k \in 0..(n - 1) :
        LET nodes == From(h, n, k)
            radj  == TLCEval(InAdj(Remaining(h, all, k), nodes))
        IN  \A s \in nodes : LET d == DistRow(radj, s, wm)
                             IN  \A t \in nodes : d[t] = D[s][t]

(* the same as a condition on single contractions, cheaper for larger graphs: every  *)
(* two-edge route over the node left out has a replacement.  Looked at for the ranks *)
(* K, and at most `most` in-edges of each node.                                       *)
PreservedAt(n, h, K, most, wm) ==
  LET all == TLCEval(Stored(h))
  IN  \A k \in K :
           LET v    == CHOOSE x \in 0..(n - 1) : Rank(h, x) = k
               ins  == SelectSeq(all, LAMBDA e : e[2] = v /\ Rank(h, e[1]) > k)
               outs == SelectSeq(all, LAMBDA e : e[1] = v /\ Rank(h, e[2]) > k)
           IN  Len(ins) = 0 \/ Len(outs) = 0 \/
               LET radj == TLCEval(InAdj(Remaining(h, all, k + 1), From(h, n, k + 1)))
               IN  \A a \in 1..Min2(Len(ins), most) :
                     LET d == DistRow(radj, ins[a][1], wm)
                     IN  \A b \in 1..Len(outs) : d[outs[b][2]] <= Sat(ins[a][3], outs[b][3], wm)

PreservedLocally(n, es, h, wm) ==
  /\ LET radj == TLCEval(InAdj(Stored(h), 0..(n - 1)))
     IN  \A u \in {es[i][1] : i \in 1..Len(es)} :
           LET d == DistRow(radj, u, wm)
           IN  \A i \in 1..Len(es) : es[i][1] = u => d[es[i][2]] <= es[i][3]
  /\ PreservedAt(n, h, 0..(n - 1), 2 * n, wm)

(* upward distances, and what any exhaustive upward bidirectional search finds *)
UpEdges(h)   == [x \in 1..Len(h.fwd) |-> <<h.fwd[x][1], h.fwd[x][2], h.fwd[x][3]>>]
DownEdges(h) == [x \in 1..Len(h.bwd) |-> <<h.bwd[x][1], h.bwd[x][2], h.bwd[x][3]>>]  \* reversed

UpDownExact(n, D, h, wm) ==
  LET nodes == 0..(n - 1)
      up    == TLCEval(DistMatrix(TLCEval(InAdj(UpEdges(h), nodes)), wm))
      down  == TLCEval(DistMatrix(TLCEval(InAdj(DownEdges(h), nodes)), wm))
  IN  \A s, t \in nodes :
        /\ \E x \in nodes : Sat(up[s][x], down[t][x], wm) = D[s][t]
        /\ \A x \in nodes : Sat(up[s][x], down[t][x], wm) >= D[s][t]

(* For hierarchies too large for all that: the distances from the nodes S over all   *)
(* stored edges, and going up and then down, are those of the input graph.            *)
ExactFrom(n, es, h, S, wm) ==
  LET nodes == 0..(n - 1)
      turned == [x \in 1..Len(h.bwd) |-> <<h.bwd[x][2], h.bwd[x][1], h.bwd[x][3]>>]
      radj  == TLCEval(InAdj(es, nodes))
      all   == TLCEval(InAdj(Stored(h), nodes))
      up    == TLCEval(InAdj(UpEdges(h), nodes))
      down  == TLCEval(InAdj(turned, nodes))
  IN  \A s \in S :
        LET d == TLCEval(DistRow(radj, s, wm))
        IN  /\ DistRow(all, s, wm) = d
            /\ RelaxFix(down, TLCEval(DistRow(up, s, wm)), wm) = d

Sample(n, k) == {(i * (n - 1)) \div k : i \in 0..k}

(* `focus` : nodes at which a large hierarchy is looked at in any case *)
HierarchyOK(v, h, focus, wm) ==
  /\ ShapeOK(v.n, h)
  /\ Upward(v.n, h)
  /\ AllGrounded(v.adj, h, wm)
  /\ IF v.n > 40
     THEN /\ ExactFrom(v.n, v.es, h, Sample(v.n, 4) \cup focus, wm)
          /\ PreservedAt(v.n, h, Sample(v.n, IF v.n <= 200 THEN 20 ELSE 6) \cup {Rank(h, x) : x \in focus}, 8, wm)
     ELSE /\ IF v.n <= 12 THEN PreservedAlways(v.n, v.D, h, wm) ELSE PreservedLocally(v.n, v.es, h, wm)
          /\ v.n > 0 => UpDownExact(v.n, v.D, h, wm)
=============================================================================
