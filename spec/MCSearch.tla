------------------------------ MODULE MCSearch ------------------------------
(***************************************************************************)
(* Contraction and search together: every graph over N nodes with weights  *)
(* from W, every way to contract it, every query of the family Q, and      *)
(* every way to run the search.                                            *)
(***************************************************************************)
EXTENDS Search

CONSTANTS N, W, WM,
          IW,        \* initial weights; {0} for point-to-point queries
          MaxList    \* entries per source/target list

V == 0..(N - 1)
PairsOf(X) == {p \in X \X X : p[1] # p[2]}

VARIABLES e0,    \* the input edges
          e,     \* edges among the nodes that remain
          v,     \* next node to contract
          up, dn,
          S, T, q

vars == <<e0, e, v, up, dn, S, T, q>>

Init ==
  /\ \E w \in [PairsOf(V) -> {WM} \cup W] : e0 = [p \in PairsOf(V) |-> [w |-> w[p], m |-> -1]]
  /\ e = e0 /\ v = 0 /\ up = <<>> /\ dn = <<>>
  /\ S = <<>> /\ T = <<>> /\ q = <<>>

Rest == (v + 1)..(N - 1)

Contract ==
  /\ v < N
  /\ \E c \in SUBSET Candidates(e, v, Rest, WM) :
       /\ Must(e, v, Rest, WM) \subseteq c
       /\ e' = After(e, v, Rest, c, WM)
  /\ up' = (v :> StoredOut(e, v, Rest, WM)) @@ up
  /\ dn' = (v :> StoredIn(e, v, Rest, WM)) @@ dn
  /\ v' = v + 1
  /\ UNCHANGED <<e0, S, T, q>>

Hier == [up |-> up, dn |-> dn]
ListsOver == UNION {[1..k -> V \X IW] : k \in 1..MaxList}

Ask ==
  /\ v = N /\ q = <<>>
  /\ \E s \in ListsOver, t \in ListsOver : S' = s /\ T' = t /\ q' = Start(s, t, V, WM)
  /\ UNCHANGED <<e0, e, v, up, dn>>

Move ==
  /\ v = N /\ q # <<>> /\ ~Finished(q)
  /\ q' \in Steps(Hier, q, WM)
  /\ UNCHANGED <<e0, e, v, up, dn, S, T>>

Next == Contract \/ Ask \/ Move
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

-----------------------------------------------------------------------------
D0 == DistOver(e0, V, WM)

(* contraction never changes a distance between remaining nodes *)
Preserved ==
  q = <<>> =>
  LET R == v..(N - 1)
      D == DistOver(e, R, WM)
      D1 == D0
  IN  \A a, b \in R : D[a][b] = D1[a][b]

BestOf == FoldLeft(LAMBDA m, x : FoldLeft(LAMBDA m2, y :
             Min2(m2, Sat(x[2], Sat(D0[x[1]][y[1]], y[2], WM), WM)), m, T), WM, S)

RECURSIVE Len0(_)
Len0(p) == IF Len(p) <= 1 THEN 0 ELSE Sat(e0[<<p[1], p[2]>>].w, Len0(Tail(p)), WM)

(* nothing too good is ever found, and at the end the best *)
Exact ==
  q # <<>> =>
    LET b == BestOf IN
    /\ q.best >= b
    /\ Finished(q) =>
         /\ q.best = b
         /\ b >= WM <=> q.meet = -1
         /\ b < WM =>
              LET p == RouteOf(Hier, q)
              IN  /\ \A i \in 1..(Len(p) - 1) : p[i] # p[i + 1]
                  /\ \E i \in 1..Len(S), j \in 1..Len(T) :
                       /\ S[i][1] = p[1] /\ T[j][1] = p[Len(p)]
                       /\ Sat(S[i][2], Sat(Len0(p), T[j][2], WM), WM) = b

Terminates == <>(v = N /\ q # <<>> /\ Finished(q))
=============================================================================
