------------------------------ MODULE HistFiles ------------------------------
(* Writing and reading graph files (C09). *)
EXTENDS Histories

Op(o, i, f) == [o |-> o, i |-> i, file |-> f]
G(o, i) == [o |-> o, i |-> i]

Limited(o, i, x) == [o |-> o, i |-> i, file |-> "a", lim |-> x]

Prelude == <<[o |-> "build", i |-> 0, es |-> <<<<0, 2, 5>>, <<2, 0, 1>>, <<0, 1, 7>>>>],
             [o |-> "build", i |-> 1, es |-> <<<<1, 4, 1234567>>>>],
             G("new", 2), G("new", 3)>>

Small == {Op(o, i, "a") : o \in {"tof", "tod"}, i \in {0, 1, 2}}
         \cup {Op(o, 3, "a") : o \in {"fromf", "fromd"}}
         \cup {Op("tod", 3, "a"), Op("cat", 0, "a"), G("frz", 2), G("edges", 3), Op("tod", 1, "full"), Limited("tof", 0, 23), Limited("tod", 0, 32)}
Large == Small \cup {Op(o, i, "b") : o \in {"tof", "tod"}, i \in {0, 3}}
         \cup {Op(o, 2, "b") : o \in {"fromf", "fromd"}}
         \cup {Op("tof", 0, "full"), Op("tof", 0, "nodir"), Op("tod", 3, "nodir"), Op("fromd", 3, "missing"),
               Op("fromf", 3, "missing"), Op("tof", 2, "full"), G("thw", 0), G("nn", 3)}
         \cup {Limited("tof", 0, x) : x \in {0, 8, 200}} \cup {Limited("tod", i, x) : x \in {9, 500}, i \in {0, 1}}
Alphabet == IF IOEnv.HALPHA = "small" THEN Small ELSE Large

(* after a refused write the file is unspecified; it is not read before it is written again *)
Known(e) == e.o \in {"fromf", "fromd"} => e.file \in DOMAIN files \cup {"missing"}
Spec == HInit /\ [][HNext(Prelude, {e \in Alphabet : Known(e)})]_<<vars, log>>
Emit == HEmit(Prelude)
Total == HTotal(Prelude, Alphabet)

(* what is in a file is what writing a graph with these edges produces, and reads back as it *)
RoundTrip == \A i \in DOMAIN ig : ig[i].fz =>
  /\ PlainOK(PlainLines(ig[i])) /\ PlainGraph(PlainLines(ig[i])).es = ig[i].es
  /\ DimacsOK(DimacsLines(ig[i])) /\ DimacsGraph(DimacsLines(ig[i])).es = ig[i].es
  /\ PlainGraph(PlainLines(ig[i])) = DimacsGraph(DimacsLines(ig[i]))
=============================================================================
