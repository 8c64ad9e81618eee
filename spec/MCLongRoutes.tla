---------------------------- MODULE MCLongRoutes ----------------------------
(* The closed forms of LongRoutes agree with the definitions, for all small sizes: distances, and *)
(* the weight of any route written as runs.                                                       *)
EXTENDS LongRoutes

CONSTANTS Sizes, Weights, WM
VARIABLE g
Init == g \in {x \in [shape : {"chain", "dchain", "ring", "dring", "grid"}, n : Sizes, c : 1..4,
                      w1 : Weights, w2 : Weights] :
                 /\ (x.shape # "grid" => x.c = 1 /\ x.w2 = x.w1)
                 /\ (x.shape = "grid" => x.n % x.c = 0)
                 /\ (x.shape \in {"ring", "dring"} => x.n >= 3)}
Spec == Init /\ [][FALSE]_g

Nodes == 0..(g.n - 1)
Es == NormalForm(SetToSeq({<<p[1], p[2], LRWeight(g, p[1], p[2])>> : p \in {q \in Nodes \X Nodes : LREdge(g, q[1], q[2])}}))
D == DistMatrix(InAdj(Es, Nodes), WM)
Adj == OutAdj(Es, Nodes)

ClosedForm == LET d == D IN \A s, t \in Nodes : LRDist(g, s, t, WM) = d[s][t]

(* all routes of up to two runs, accepted exactly when they are real and of that weight *)
Runs == {<<a, c, s>> : a \in Nodes, c \in 1..3, s \in {-1, 1, g.c}}
Unroll(r) == [i \in 1..r[2] |-> r[1] + (i - 1) * r[3]]
RouteForm ==
  \A rs \in {<<a>> : a \in Runs} \cup (IF g.n <= 4 THEN {<<a, b>> : a \in Runs, b \in Runs} ELSE {}) :
    LET p  == FoldLeft(LAMBDA x, r : x \o Unroll(r), <<>>, rs)
        pw == PathWeight(Adj, p, WM)
        in == \A i \in 1..Len(p) : p[i] \in Nodes
    IN  \A w \in ({pw, pw + 1} \cup 0..(3 * Max2(g.w1, g.w2))) \ {WM} :
          LRRoute(g, rs, p[1], p[Len(p)], w) <=> (in /\ w < WM /\ pw = w)
=============================================================================
