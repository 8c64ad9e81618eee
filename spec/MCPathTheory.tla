---------------------------- MODULE MCPathTheory ----------------------------
(***************************************************************************)
(* The three notions of distance agree, and certification is equivalent to *)
(* exactness: checked for every graph over N nodes with weights from W,    *)
(* including saturation at WM.                                             *)
(***************************************************************************)
EXTENDS PathTheory

CONSTANTS N, W, WM

Nodes == 0..(N - 1)
AllPairs == {<<u, v>> \in Nodes \X Nodes : u # v}

VARIABLE w      \* weight of every ordered pair, 0: no edge
Init == w \in [AllPairs -> {0} \cup W]
Next == UNCHANGED w
Spec == Init /\ [][Next]_w

Es == NormalForm(SetToSeq({<<p[1], p[2], w[p]>> : p \in {q \in AllPairs : w[q] > 0}}))
Adj == OutAdj(Es, Nodes)
RAdj == InAdj(Es, Nodes)

D == DistMatrix(RAdj, WM)

DistancesAgree ==
  \A s, t \in Nodes : D[s][t] = DefDist(Adj, Nodes, s, t, WM)

(* some shortest path for every reachable target *)
ARoute(s, t) == IF D[s][t] >= WM THEN <<>>
                ELSE CHOOSE p \in SimplePaths(Nodes, s, t) : PathWeight(Adj, p, WM) = D[s][t]

(* exact rows are certified; rows that differ in one place are not *)
CertificationComplete ==
  \A s \in Nodes : CertifiedRow(Adj, s, D[s], [t \in Nodes |-> ARoute(s, t)], WM)

Near(d) == {x \in {d - 1, d + 1, WM, 0} : x >= 0 /\ x <= WM /\ x # d}
CertificationSound ==
  \A s, t \in Nodes : \A x \in Near(D[s][t]) :
    \A p \in SimplePaths(Nodes, s, t) \cup {<<>>} :
      ~CertifiedRow(Adj, s, [D[s] EXCEPT ![t] = x],
                    [u \in Nodes |-> IF u = t THEN p ELSE ARoute(s, u)], WM)

(* and among all rows there could be, the tight one is the exact one *)
TightMeansExact ==
  \A s \in Nodes : \A d \in [Nodes -> 0..WM] : TightRow(Es, Adj, s, d, WM) <=> d = D[s]

(* adjacency, by definition *)
AdjacencyRight == \A u \in Nodes : SeqRange(Adj[u]) = {Es[i] : i \in {j \in 1..Len(Es) : Es[j][1] = u}}

(* distances form a metric up to saturation *)
Triangle == \A a, b, c \in Nodes : D[a][c] <= Sat(D[a][b], D[b][c], WM)
Identity == \A a \in Nodes : D[a][a] = 0
Positive == \A a, b \in Nodes : a # b => D[a][b] > 0
=============================================================================
