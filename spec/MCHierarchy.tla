----------------------------- MODULE MCHierarchy -----------------------------
(***************************************************************************)
(* The conditions that real prepared graphs are checked against            *)
(* (Hierarchy!HierarchyOK) are the right ones: everything contraction can  *)
(* produce satisfies them, and for every hierarchy satisfying them, however *)
(* it came about, every search of Search.tla is exact.                     *)
(* Nodes are numbered by rank.                                             *)
(***************************************************************************)
EXTENDS MCSearch

H == INSTANCE Hierarchy

(* stored edges as lists, as they are in a prepared graph *)
Slots == SetToSortSeq({p \in V \X V : p[1] < p[2]},
                      LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
FwdAt == SelectSeq(Slots, LAMBDA p : p[2] \in DOMAIN up[p[1]])
BwdAt == SelectSeq(Slots, LAMBDA p : p[2] \in DOMAIN dn[p[1]])
Ix(s, p) == IF \E i \in 1..Len(s) : s[i] = p THEN (CHOOSE i \in 1..Len(s) : s[i] = p) - 1 ELSE 999

Entry(from, to, base, adj, x, fs, bs) ==
  IF x.m = -1 THEN <<base, adj, x.w, -1, -1>>
  ELSE <<base, adj, x.w, Ix(bs, <<x.m, from>>), Ix(fs, <<x.m, to>>)>>

Offsets(s) == [k \in 1..(N + 1) |-> Cardinality({i \in 1..Len(s) : s[i][1] < k - 1})]

AsStored ==
  LET fs == FwdAt
      bs == BwdAt
  IN  [ranks |-> [k \in 1..N |-> k - 1],
       fwd |-> [i \in 1..Len(fs) |-> Entry(fs[i][1], fs[i][2], fs[i][1], fs[i][2], up[fs[i][1]][fs[i][2]], fs, bs)],
       bwd |-> [i \in 1..Len(bs) |-> Entry(bs[i][2], bs[i][1], bs[i][1], bs[i][2], dn[bs[i][1]][bs[i][2]], fs, bs)],
       ff |-> Offsets(fs), fb |-> Offsets(bs)]

Es == NormalForm(SetToSeq({<<p[1], p[2], e0[p].w>> : p \in {x \in PairsOf(V) : e0[x].w < WM}}))
AsValue == [n |-> N, es |-> Es, adj |-> OutAdj(Es, V), D |-> D0]

Accepted == H!HierarchyOK(AsValue, AsStored, {}, WM)
AcceptedLarge ==
  /\ H!ExactFrom(N, Es, AsStored, V, WM)
  /\ H!PreservedAt(N, AsStored, V, 2 * N, WM)
AcceptedLocally == /\ H!PreservedLocally(N, Es, AsStored, WM)
                   /\ H!PreservedAlways(N, D0, AsStored, WM)
                   /\ AcceptedLarge

(* contraction only produces accepted hierarchies *)
Produced == (v = N /\ q = <<>>) => (Accepted /\ AcceptedLocally)

(* Start instead from anything that is accepted: every stored edge is left out, an input *)
(* edge, or a shortcut over a lower node, with the sum or the true distance as weight.   *)
Hows(p) == {-2, -1} \cup UNION {{m, m + N} : m \in {x \in V : x < p[1] /\ x < p[2]}}

Made(h, a, b) ==     \* h: pair -> how; weights from the bottom up
  LET RECURSIVE wt(_)
      wt(p) == CASE h[p] = -2 -> WM
                 [] h[p] = -1 -> e0[p].w
                 [] h[p] >= N -> D0[p[1]][p[2]]
                 [] OTHER     -> Sat(wt(<<p[1], h[p]>>), wt(<<h[p], p[2]>>), WM)
  IN  [w |-> wt(<<a, b>>), m |-> IF h[<<a, b>>] < 0 THEN -1 ELSE h[<<a, b>>] % N]

Lowest == {p \in PairsOf(V) : 0 \in {p[1], p[2]}}

InitAny ==
  /\ \E w \in [PairsOf(V) -> {WM} \cup W] : e0 = [p \in PairsOf(V) |-> [w |-> w[p], m |-> -1]]
  /\ \E h0 \in [Lowest -> {-2, -1}], h1 \in {f \in [PairsOf(V) \ Lowest -> -2..(2 * N - 3)] : \A p \in DOMAIN f : f[p] \in Hows(p)} :
       LET h == h0 @@ h1 IN
       /\ up = [a \in V |-> [b \in {x \in V : x > a /\ Made(h, a, x).w < WM} |-> Made(h, a, b)]]
       /\ dn = [a \in V |-> [b \in {x \in V : x > a /\ Made(h, x, a).w < WM} |-> Made(h, b, a)]]
  /\ e = <<>> /\ v = N
  /\ S = <<>> /\ T = <<>> /\ q = <<>>
  /\ H!ShapeOK(N, AsStored) /\ H!Upward(N, AsStored) /\ H!AllGrounded(OutAdj(Es, V), AsStored, WM)
SpecAny == InitAny /\ Accepted /\ [][Next]_vars
(* the condition for large hierarchies, with nothing left out *)
SpecLarge == InitAny /\ AcceptedLarge /\ [][Next]_vars

(* every weaker hierarchy is refused: leaving out the stored edge p changes some answer or      *)
(* is harmless, but never is a hierarchy accepted on which up-down search would be inexact      *)
UpDown == (q = <<>> /\ v = N) => H!UpDownExact(N, D0, AsStored, WM)
=============================================================================
