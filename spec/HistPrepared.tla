---------------------------- MODULE HistPrepared ----------------------------
(* The life of prepared graphs: preparing again, with exported orderings, copying, storing, *)
(* converting (C11-C14).                                                                    *)
EXTENDS Histories

Prelude == <<[o |-> "build", i |-> 0, es |-> <<<<0, 1, 2>>, <<1, 2, 1>>, <<2, 0, 4>>, <<3, 1, 1>>, <<1, 3, 3>>, <<0, 3, 9>>>>],
             [o |-> "build", i |-> 1, es |-> <<<<0, 3, 1>>, <<3, 2, 1>>, <<2, 1, 1>>, <<0, 1, 2>>>>],
             [o |-> "prep", g |-> 0, i |-> 0, par |-> "default"],
             [o |-> "prep", g |-> 1, i |-> 1, par |-> "default"],
             [o |-> "cal", c |-> 0, g |-> 0]>>

Copy(g, h, via) == [o |-> "gcopy", g |-> g, h |-> h, via |-> via]
Conv(g, h, via) == [o |-> "c32", g |-> g, h |-> h, via |-> via]
Look(o, g) == [o |-> o, g |-> g]
Small == {Copy(0, 0, "bin"), Copy(0, 1, "json"), Copy(1, 0, "clone"), Conv(0, 0, "direct"), Conv(1, 1, "helper"),
          [o |-> "prep", g |-> 0, i |-> 0, par |-> "default"],
          [o |-> "prepr", g |-> 0, i |-> 1, from |-> 1, par |-> "default"],
          [o |-> "prepr", g |-> 1, i |-> 0, from |-> 0, par |-> "default"],
          Look("dig", 0), Look("fall", 1), Look("ord", 0), [o |-> "all", c |-> 0, g |-> 0]}
Large == Small \cup {Copy(0, 1, "nested"), Copy(1, 1, "value"), Copy(0, 0, "file"), Conv(0, 1, "bin"), Conv(1, 0, "json"),
                     Conv(0, 0, "helperjson"), [o |-> "prep", g |-> 1, i |-> 0, par |-> "0.5,1,0,0,0"],
                     [o |-> "prepr", g |-> 1, i |-> 0, from |-> 1, par |-> "0"],
                     Look("dig", 1), Look("ord", 1), Look("cnt", 0), Look("cnt", 1), Look("fall", 0)}
Alphabet == IF IOEnv.HALPHA = "small" THEN Small ELSE Large

(* the ordering that a prepared graph reports is part of the call *)
Told(e) == IF e.o = "prepr"
           THEN [ord |-> IF Val(e.from).ord = <<>> THEN Identity(Val(e.from).n) ELSE Val(e.from).ord] @@ e
           ELSE e

PNext ==
  /\ Len(log) < Len(Prelude) + HDepth
  /\ \E e \in IF Len(log) < Len(Prelude) THEN {Prelude[Len(log) + 1]} ELSE Alphabet :
       /\ \E r \in Tried(e) : Step([r |-> r] @@ Told(e))
       /\ log' = Append(log, e)

Spec == HInit /\ [][PNext]_<<vars, log>>
Emit == HEmit(Prelude)
Total == Len(log) >= Len(Prelude) /\ Len(log) < Len(Prelude) + HDepth =>
           \A e \in Alphabet : \E r \in Tried(e) : ENABLED Step([r |-> r] @@ Told(e))

(* prepared graphs are values: slots with one key share what is observed *)
OneValuePerKey == \A a, b \in 1..Len(pv) : pv[a].key = pv[b].key => a = b
SlotsRefer == \A g \in DOMAIN fg : fg[g] \in 1..Len(pv)
OrdersArePermutations == \A a \in 1..Len(pv) : pv[a].ord # <<>> => IsPermutation(pv[a].ord, pv[a].n)
=============================================================================
