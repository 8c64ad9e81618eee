----------------------------- MODULE GenReaders -----------------------------
(* Every sequence of lines up to a length, as a file for both readers (C10), *)
(* and what the contract of the readers says about all of them.              *)
EXTENDS FastPaths, Json, IOUtils

CONSTANT Depth
VARIABLE ls

Kinds == {Hdr(2, 1), Hdr(2, 2), Hdr(3, 2), Hdr(0, 0), Arc(1, 2, 3), Arc(2, 1, 1), Arc(1, 3, 1), Arc(0, 1, 2),
          Arc(2, 2, 4), Arc(2, 1, 0), [k |-> "cmt"], [k |-> "empty"], [k |-> "junk"], [k |-> "badarc"], [k |-> "badhdr"]}
Few == {Hdr(2, 1), Hdr(2, 2), Arc(1, 2, 3), Arc(2, 1, 1), Arc(1, 3, 1), [k |-> "cmt"], [k |-> "junk"],
        [k |-> "badarc"]}

Num(s) == CHOOSE n \in 0..100 : ToString(n) = s
RDepth == IF "HDEPTH" \in DOMAIN IOEnv THEN Num(IOEnv.HDEPTH) ELSE Depth
Alphabet == IF IOEnv.HALPHA = "small" THEN Few ELSE Kinds

RInit == Init /\ env = [wm |-> 1000000000, lim32 |-> 1000000000] /\ ls = <<>>
RNext == /\ Len(ls) < RDepth
         /\ \E x \in Alphabet : ls' = Append(ls, x)
         /\ UNCHANGED vars
Spec == RInit /\ [][RNext]_<<vars, ls>>

Emit == PrintT(<<"GEN", ToJson(ls)>>)

Without(s, ks) == SelectSeq(s, LAMBDA l : l.k \notin ks)

(* comments and empty lines are irrelevant; so are foreign lines to the plain reader *)
NoiseIrrelevant ==
  LET x == Without(ls, {"cmt", "empty"})
      y == Without(ls, {"cmt", "empty", "junk", "hdr", "badhdr"})
  IN  /\ DimacsOK(ls) <=> DimacsOK(x)
      /\ DimacsOK(ls) => DimacsGraph(ls) = DimacsGraph(x)
      /\ PlainOK(ls) <=> PlainOK(y)
      /\ PlainOK(ls) => PlainGraph(ls) = PlainGraph(y)

(* the order of arcs is irrelevant *)
Swapped(i) == [j \in 1..Len(ls) |-> IF j = i THEN ls[i + 1] ELSE IF j = i + 1 THEN ls[i] ELSE ls[j]]
OrderIrrelevant ==
  \A i \in 1..(Len(ls) - 1) : (ls[i].k = "arc" /\ ls[i + 1].k = "arc") =>
    /\ DimacsOK(ls) <=> DimacsOK(Swapped(i))
    /\ DimacsOK(ls) => DimacsGraph(ls) = DimacsGraph(Swapped(i))
    /\ PlainOK(ls) => PlainGraph(ls) = PlainGraph(Swapped(i))

(* an accepted file describes at most as many edges and nodes as its header says *)
Bounded == DimacsOK(ls) =>
  /\ IsNormal(DimacsGraph(ls).es)
  /\ \A h \in {j \in 1..Len(ls) : ls[j].k = "hdr"} :
        DimacsGraph(ls).n <= ls[h].n /\ Len(DimacsGraph(ls).es) <= ls[h].m

(* what is read can be written and read again *)
Again == DimacsOK(ls) =>
  LET g == DimacsGraph(ls)
  IN  /\ DimacsOK(DimacsLines(g)) /\ DimacsGraph(DimacsLines(g)) = g
      /\ PlainOK(PlainLines(g)) /\ PlainGraph(PlainLines(g)) = g

(* the same arcs, 0-based and 1-based, are the same graph *)
Shifted == Without([j \in 1..Len(ls) |-> IF ls[j].k = "arc" THEN Arc(ls[j].f - 1, ls[j].t - 1, ls[j].w) ELSE ls[j]], {"junk"})
BothReaders == DimacsOK(ls) => (PlainOK(Shifted) /\ PlainGraph(Shifted) = DimacsGraph(ls))
=============================================================================
