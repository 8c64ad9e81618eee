------------------------------ MODULE Histories ------------------------------
(***************************************************************************)
(* All histories of calls over an alphabet, as far as the specification    *)
(* allows them, after a fixed prelude.  TLC checks the invariants of the   *)
(* design and that every call has an allowed response in every state, and  *)
(* writes each complete history down; the histories are then executed on   *)
(* the real crate and the recorded responses checked by FastPathsTrace.    *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils

CONSTANTS Depth, Emitting
VARIABLES log

Num(s) == CHOOSE n \in 0..100 : ToString(n) = s
HDepth == IF "HDEPTH" \in DOMAIN IOEnv THEN Num(IOEnv.HDEPTH) ELSE Depth

(* Responses worth trying: everything of a simple kind, and for calls that   *)
(* return data the data the specification has, and data it has not.          *)
OneRoute(v, S, T) ==
  LET best == BestTotal(v, S, T)
      act  == 0..(v.n - 1)
  IN  IF v.n = 0 \/ best >= env.wm THEN {}
      ELSE LET i == CHOOSE x \in (1..Len(S)) \X (1..Len(T)) :
                      Sat(S[x[1]][2], Sat(Dist(v, S[x[1]][1], T[x[2]][1]), T[x[2]][2], env.wm), env.wm) = best
               s == S[i[1]][1]
               t == T[i[2]][1]
               p == CHOOSE x \in SimplePaths(act, s, t) : PathWeight(v.adj, x, env.wm) = Dist(v, s, t)
           IN  {[k |-> "path", w |-> best, s |-> s, t |-> t, p |-> p],
                [k |-> "path", w |-> best + 1, s |-> s, t |-> t, p |-> p],
                [k |-> "path", w |-> best, s |-> s, t |-> t, p |-> Append(p, s)]}

ValidEnds(v, S, T) == /\ S # <<>> /\ T # <<>>
                      /\ \A i \in 1..Len(S) : S[i][1] \in 0..(v.n - 1)
                      /\ \A i \in 1..Len(T) : T[i][1] \in 0..(v.n - 1)

RowData(v, s) ==
  LET act == 0..(v.n - 1) IN
  [d |-> [t \in 1..v.n |-> Dist(v, s, t - 1)],
   p |-> [t \in 1..v.n |-> IF Dist(v, s, t - 1) >= env.wm THEN <<>>
            ELSE CHOOSE x \in SimplePaths(act, s, t - 1) : PathWeight(v.adj, x, env.wm) = Dist(v, s, t - 1)]]

AllData(v) == LET x == [s \in 1..v.n |-> RowData(v, s - 1)]
              IN  [k |-> "all", ends |-> TRUE, d |-> [s \in 1..v.n |-> x[s].d], p |-> [s \in 1..v.n |-> x[s].p]]

Identity(n) == [k \in 1..n |-> k - 1]

Tried(e) ==
  (IF e.o \in {"edges", "str", "nn", "ne", "cat", "ord", "cnt", "dig", "q", "mq", "all", "fall"}
   THEN {Panic, Err, None} ELSE {Panic, Err, Ok}) \cup
  (CASE e.o \in {"add", "addb"} -> {[k |-> "ok", n |-> x] : x \in 0..2}
     [] e.o \in {"nn", "ne"} /\ e.i \in DOMAIN ig ->
          {[k |-> "ok", n |-> x] : x \in {ig[e.i].n, Len(ig[e.i].es), Len(ig[e.i].es) + 1}}
     [] e.o \in {"edges", "str"} /\ e.i \in DOMAIN ig ->
          {[k |-> "ok", e |-> x] : x \in {ig[e.i].es, NormalForm(ig[e.i].es), <<>>}}
     [] e.o = "cat" /\ e.file \in DOMAIN files -> {[k |-> "ok", ls |-> x] : x \in {files[e.file], <<>>}}
     [] e.o = "cat" -> {[k |-> "ok", ls |-> <<>>]}
     [] e.o \in {"ord", "cnt", "dig", "q", "mq", "all", "fall"} /\ e.g \notin DOMAIN fg -> {}
     [] e.o = "ord" -> {[k |-> "ok", o |-> x] : x \in {Val(e.g).ord, Identity(Val(e.g).n)}}
     [] e.o = "cnt" -> {[k |-> "ok", n |-> Val(e.g).n, c |-> <<0, 0>>], [k |-> "ok", n |-> Val(e.g).n + 1, c |-> <<0, 0>>]}
     [] e.o = "dig" -> {[k |-> "ok", d |-> x] : x \in {Val(e.g).dig, "d"} \ {""}}
     [] e.o = "q"   -> IF ValidEnds(Val(e.g), One(e.s), One(e.t)) THEN OneRoute(Val(e.g), One(e.s), One(e.t)) ELSE {}
     [] e.o = "mq"  -> IF ValidEnds(Val(e.g), e.S, e.T) THEN OneRoute(Val(e.g), e.S, e.T) ELSE {}
     [] e.o \in {"all", "fall"} -> {AllData(Val(e.g))}
     [] OTHER -> {})

HInit ==
  /\ Init
  /\ env = [wm |-> 1000000000, lim32 |-> 1000000000]
  /\ log = <<>>

HNext(Prelude, Alphabet) ==
  /\ Len(log) < Len(Prelude) + HDepth
  /\ \E e \in IF Len(log) < Len(Prelude) THEN {Prelude[Len(log) + 1]} ELSE Alphabet :
       /\ \E r \in Tried(e) : Step([r |-> r] @@ e)
       /\ log' = Append(log, e)

(* every call that can be written down has an allowed response *)
HTotal(Prelude, Alphabet) ==
  Len(log) >= Len(Prelude) /\ Len(log) < Len(Prelude) + HDepth =>
    \A e \in Alphabet : \E r \in Tried(e) : ENABLED Step([r |-> r] @@ e)

HEmit(Prelude) ==
  (Emitting /\ Len(log) = Len(Prelude) + HDepth) => PrintT(<<"GEN", ToJson(log)>>)
=============================================================================
