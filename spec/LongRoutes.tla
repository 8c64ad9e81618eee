----------------------------- MODULE LongRoutes -----------------------------
(***************************************************************************)
(* Regular graphs of any size with distances in closed form, and routes    *)
(* written as runs <<first, count, step>> of node ids.                     *)
(*   chain, ring   : both directions     dchain, dring : ascending only    *)
(*   grid          : c columns, weight w1 along rows, w2 along columns     *)
(***************************************************************************)
EXTENDS PathTheory

AbsV(x) == IF x < 0 THEN -x ELSE x

LREdge(g, u, v) ==
  /\ u \in 0..(g.n - 1) /\ v \in 0..(g.n - 1) /\ u # v
  /\ CASE g.shape = "chain"  -> AbsV(u - v) = 1
       [] g.shape = "dchain" -> v = u + 1
       [] g.shape = "ring"   -> AbsV(u - v) = 1 \/ AbsV(u - v) = g.n - 1
       [] g.shape = "dring"  -> v = u + 1 \/ (u = g.n - 1 /\ v = 0)
       [] g.shape = "grid"   -> \/ AbsV(u - v) = g.c
                                \/ AbsV(u - v) = 1 /\ u \div g.c = v \div g.c

LRWeight(g, u, v) == IF g.shape = "grid" /\ AbsV(u - v) = g.c THEN g.w2 ELSE g.w1

LRDist(g, s, t, wm) ==
  CASE g.shape = "chain"  -> AbsV(s - t) * g.w1
    [] g.shape = "dchain" -> IF s <= t THEN (t - s) * g.w1 ELSE wm
    [] g.shape = "ring"   -> Min2(AbsV(s - t), g.n - AbsV(s - t)) * g.w1
    [] g.shape = "dring"  -> (IF s <= t THEN t - s ELSE g.n - (s - t)) * g.w1
    [] g.shape = "grid"   -> AbsV((s % g.c) - (t % g.c)) * g.w1
                             + AbsV((s \div g.c) - (t \div g.c)) * g.w2

RunLast(x) == x[1] + (x[2] - 1) * x[3]

RunOK(g, x) ==
  /\ x[2] >= 1
  /\ x[1] \in 0..(g.n - 1) /\ RunLast(x) \in 0..(g.n - 1)
  /\ x[2] > 1 =>
       /\ LREdge(g, x[1], x[1] + x[3])
       /\ g.shape = "grid" /\ AbsV(x[3]) = 1 /\ g.c > 1 => x[1] \div g.c = RunLast(x) \div g.c

RunWeight(g, x) == IF x[2] = 1 THEN 0 ELSE (x[2] - 1) * LRWeight(g, x[1], x[1] + x[3])

LRRoute(g, runs, s, t, w) ==
  /\ Len(runs) >= 1
  /\ \A i \in 1..Len(runs) : RunOK(g, runs[i])
  /\ \A i \in 1..(Len(runs) - 1) : LREdge(g, RunLast(runs[i]), runs[i + 1][1])
  /\ runs[1][1] = s
  /\ RunLast(runs[Len(runs)]) = t
  /\ w = FoldLeft(LAMBDA a, i :
                    a + RunWeight(g, runs[i])
                      + (IF i = 1 THEN 0 ELSE LRWeight(g, RunLast(runs[i - 1]), runs[i][1])),
                  0, [i \in 1..Len(runs) |-> i])

LongOK(g, r, wm) ==
  /\ r.k = "ok"
  /\ Len(r.a) = Len(g.qs)
  /\ \A i \in 1..Len(g.qs) :
       LET s == g.qs[i][1]
           t == g.qs[i][2]
           d == LRDist(g, s, t, wm)
           a == r.a[i]
       IN  IF d >= wm THEN a.w = wm /\ a.runs = <<>>
           ELSE /\ a.w = d /\ a.s = s /\ a.t = t
                /\ LRRoute(g, a.runs, s, t, d)
=============================================================================
