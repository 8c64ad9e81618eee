-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* One self-contained episode as a single step: a graph is built and       *)
(* prepared, possibly stored, loaded, converted, prepared again, and every *)
(* pair of nodes is queried.  The contract is that of FastPaths; the step  *)
(* leaves no state behind, so that very many small graphs can be checked.  *)
(***************************************************************************)
EXTENDS FastPaths, Hierarchy

(* Graphs enumerated by number: digit j of i to the base b is the weight of *)
(* the j-th ordered pair of distinct nodes of 0..n-1, 0 for no edge.        *)
RECURSIVE Pow(_, _)
Pow(b, j) == IF j = 0 THEN 1 ELSE b * Pow(b, j - 1)

Pairs(n) == [j \in 0..(n * (n - 1) - 1) |->
               LET f == j \div (n - 1)
                   x == j % (n - 1)
               IN  <<f, IF x < f THEN x ELSE x + 1>>]

Numbered(n, b, i) ==
  LET ps == Pairs(n)
      all == [j \in 1..(n * (n - 1)) |-> <<ps[j-1][1], ps[j-1][2], (i \div Pow(b, j - 1)) % b>>]
  IN  SelectSeq(all, LAMBDA e : e[3] > 0)

(* with the weights of the digits given by ws, if there is one *)
EpisodeEdges(e) ==
  IF "ix" \in DOMAIN e
  THEN LET es == Numbered(e.ix[1], e.ix[2], e.ix[3])
       IN  IF "ws" \in DOMAIN e THEN [i \in 1..Len(es) |-> [es[i] EXCEPT ![3] = e.ws[@ + 1]]] ELSE es
  ELSE e.es

Default(e) == "par" \notin DOMAIN e \/ e.par = "default"

(* a copy x of the prepared graph must be indistinguishable from it *)
SameAs(x, r, must) ==
  IF x.k = "ok"
  THEN /\ x.n = r.n /\ x.o = r.o /\ x.c = r.c /\ x.dig = r.dig /\ x.ad = r.ad
       /\ x.ds = r.ds
  ELSE ~must /\ x.k \in {"panic", "err"}

(* prepared again with the ordering it reports: same ordering, same distances, real routes *)
Reordered(x, r, v, wm) ==
  /\ x.k = "ok" /\ x.n = r.n /\ x.o = r.o /\ x.ends
  /\ \A s \in 0..(v.n - 1) : x.d[s + 1] = r.d[s + 1] /\ RowAnswer(v, s, x.d[s + 1], x.p[s + 1])

Episode(e, r) ==
  LET g    == Built(EpisodeEdges(e))
      hasO == "ord" \in DOMAIN e
  IN
  IF hasO /\ ~IsPermutation(e.ord, g.n)
  THEN IF Len(e.ord) # g.n THEN r = Err ELSE r \in {Err, Panic}
  ELSE
  LET act  == 0..(g.n - 1)
      adj  == TLCEval(OutAdj(g.es, act))
      base == [n |-> g.n, es |-> g.es, adj |-> adj, key |-> <<"", IF Default(e) THEN "default" ELSE "par">>]
  IN
  /\ r.k = "ok"
  /\ r.n = g.n
  /\ IsPermutation(r.o, g.n)
  /\ (hasO => r.o = e.ord)
  /\ r.ends
  /\ r.bad = 0                      \* invalid queries in between that were not refused
  /\ Len(r.d) = g.n /\ Len(r.p) = g.n
  /\ \A s \in act : RowAnswer(base, s, r.d[s + 1], r.p[s + 1])
  /\ LET D == [s \in act |-> [t \in act |-> r.d[s + 1][t + 1]]]
         v == [n |-> g.n, es |-> g.es, adj |-> adj, key |-> base.key, rows |-> D, D |-> D]
     IN
     /\ ("mq" \in DOMAIN e) =>
          /\ Len(r.ms) = Len(e.mq)
          /\ \A i \in 1..Len(e.mq) : Answer(v, e.mq[i][1], e.mq[i][2], r.ms[i])
     /\ ("hier" \in DOMAIN e) => HierarchyOK(v, r.h, {}, env.wm)
     /\ ("via" \in DOMAIN e) =>
          /\ Len(r.x) = Len(e.via)
          /\ \A i \in 1..Len(e.via) :
               IF e.via[i] = "reord" THEN Reordered(r.x[i], r, v, env.wm)
               ELSE SameAs(r.x[i], r, e.via[i] \notin {"c32", "c32bin", "c32json", "helper", "helperjson"}
                                      \/ MustConvert(v))

OneStep(e, r) == Episode(e, r) = TRUE /\ UNCHANGED vars
=============================================================================
