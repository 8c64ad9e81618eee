------------------------------ MODULE FastPaths ------------------------------
(***************************************************************************)
(* The fast_paths crate as a state machine over its public API.            *)
(*                                                                         *)
(* One action per public call.  Every action has the call's response r as  *)
(* its last parameter and is enabled exactly for the responses the         *)
(* contract allows; a panic is a response like any other and never changes *)
(* the state.  The model-checking configurations quantify r over candidate *)
(* responses, the trace specification takes it from the recorded call.     *)
(*                                                                         *)
(* Prepared graphs are values: serialization, conversion and cloning copy  *)
(* the reference to a value, and preparing equal inputs yields the same    *)
(* value (determinism).  What has been observed of a value (its node       *)
(* ordering, edge counts, serialized bytes, the routes found by fresh      *)
(* calculators) is remembered and must be observed again.                  *)
(***************************************************************************)
EXTENDS PathTheory

VARIABLES
  env,    \* [wm, lim32]: encoded maximum weight, first weight not fitting 32 bits
  ig,     \* slot -> [es, n, fz]   input graphs: edges, node count, frozen
  pv,     \* sequence of prepared values
  fg,     \* slot -> index into pv
  calc,   \* slot -> node count the calculator was created for
  files   \* name -> sequence of lines

vars == <<env, ig, pv, fg, calc, files>>

Panic == [k |-> "panic"]
Err   == [k |-> "err"]
Ok    == [k |-> "ok"]
None  == [k |-> "none"]

-----------------------------------------------------------------------------
(* Input graphs *)

EmptyIG == [es |-> <<>>, n |-> 0, fz |-> FALSE]

IGNew(i, r) ==
  /\ r = Ok
  /\ ig' = (i :> EmptyIG) @@ ig
  /\ UNCHANGED <<env, pv, fg, calc, files>>

Accepted(f, t, w) == f # t /\ w > 0

Added(g, f, t, w, bidir) ==
  [g EXCEPT !.es = @ \o (IF bidir THEN <<<<f, t, w>>, <<t, f, w>>>> ELSE <<<<f, t, w>>>>),
            !.n  = Max2(@, Max2(f, t) + 1)]

IGAdd(i, f, t, w, bidir, r) ==
  /\ i \in DOMAIN ig
  /\ IF ig[i].fz
     THEN r = Panic /\ UNCHANGED ig
     ELSE IF ~Accepted(f, t, w)
     THEN r = [k |-> "ok", n |-> 0] /\ UNCHANGED ig
     ELSE /\ r = [k |-> "ok", n |-> IF bidir THEN 2 ELSE 1]
          /\ ig' = [ig EXCEPT ![i] = Added(@, f, t, w, bidir)]
  /\ UNCHANGED <<env, pv, fg, calc, files>>

Frozen(g) == [g EXCEPT !.es = NormalForm(@), !.fz = TRUE]

IGFreeze(i, r) ==
  /\ i \in DOMAIN ig
  /\ IF ig[i].fz THEN r = Panic /\ UNCHANGED ig
     ELSE r = Ok /\ ig' = [ig EXCEPT ![i] = Frozen(@)]
  /\ UNCHANGED <<env, pv, fg, calc, files>>

IGThaw(i, r) ==
  /\ i \in DOMAIN ig
  /\ r = Ok
  /\ ig' = [ig EXCEPT ![i].fz = FALSE]
  /\ UNCHANGED <<env, pv, fg, calc, files>>

(* Building a frozen graph from a list of additions, as one step. *)
Built(es) == LET ok == SelectSeq(es, LAMBDA e : Accepted(e[1], e[2], e[3]))
             IN  [es |-> NormalForm(ok), n |-> NodeCount(ok), fz |-> TRUE]

IGBuild(i, es, r) ==
  /\ r = Ok
  /\ ig' = (i :> Built(es)) @@ ig
  /\ UNCHANGED <<env, pv, fg, calc, files>>

WhenFrozen(i, r, resp) == i \in DOMAIN ig /\ r = (IF ig[i].fz THEN resp ELSE Panic)

IGEdges(i, r)    == WhenFrozen(i, r, [k |-> "ok", e |-> ig[i].es])     /\ UNCHANGED vars
IGNumNodes(i, r) == WhenFrozen(i, r, [k |-> "ok", n |-> ig[i].n])      /\ UNCHANGED vars
IGNumEdges(i, r) == WhenFrozen(i, r, [k |-> "ok", n |-> Len(ig[i].es)]) /\ UNCHANGED vars
(* the textual listing works in either mode; how often and where an edge is  *)
(* listed while the graph is editable is left open                           *)
IGString(i, r)   ==
  /\ i \in DOMAIN ig
  /\ r.k = "ok"
  /\ IF ig[i].fz THEN r.e = ig[i].es ELSE NormalForm(r.e) = NormalForm(ig[i].es)
  /\ UNCHANGED vars

IGCopy(i, j, r) ==      \* clone, or serialize and deserialize
  /\ i \in DOMAIN ig
  /\ r = Ok
  /\ ig' = (j :> ig[i]) @@ ig
  /\ UNCHANGED <<env, pv, fg, calc, files>>

-----------------------------------------------------------------------------
(* Files.  A line is a record with a kind:                                  *)
(*   arc f t w | badarc | hdr n m | badhdr | cmt | empty | junk             *)

Arc(f, t, w) == [k |-> "arc", f |-> f, t |-> t, w |-> w]
Hdr(n, m)    == [k |-> "hdr", n |-> n, m |-> m]

PlainLines(g)  == [j \in 1..Len(g.es) |-> Arc(g.es[j][1], g.es[j][2], g.es[j][3])]
DimacsLines(g) == <<Hdr(g.n, Len(g.es))>>
                  \o [j \in 1..Len(g.es) |-> Arc(g.es[j][1] + 1, g.es[j][2] + 1, g.es[j][3])]

(* Room for a file: "nodir" cannot be created, "full" has no room at all, a limit    *)
(* may be imposed on the size (-1: none; only where weights are written as they are). *)
Digits(x) == Len(ToString(x))
LineSize(l) == IF l.k = "hdr" THEN 7 + Digits(l.n) + Digits(l.m)
               ELSE 5 + Digits(l.f) + Digits(l.t) + Digits(l.w)
TextSize(lines) == FoldLeft(LAMBDA a, l : a + LineSize(l), 0, lines)

MustFail(name, lines, lim) ==
  \/ name = "nodir"
  \/ lines # <<>> /\ (name = "full" \/ (lim >= 0 /\ TextSize(lines) > lim))
(* a writer may need some more room than the text itself *)
MayFail(name, lines, lim) ==
  MustFail(name, lines, lim) \/ name = "full" \/ (lim >= 0 /\ 2 * TextSize(lines) + 64 > lim)

IGWrite(i, name, lines, lim, r) ==
  /\ IF ~ig[i].fz
     THEN r = Panic \/ (r = Err /\ MayFail(name, <<Arc(0, 0, 0)>>, lim))   \* two reasons to refuse, in either order
     ELSE \/ r = Ok /\ ~MustFail(name, lines, lim)
          \/ r = Err /\ MayFail(name, lines, lim)
  /\ IF name = "full" THEN UNCHANGED files
     ELSE IF r = Ok THEN files' = (name :> lines) @@ files
     ELSE files' = [x \in DOMAIN files \ {name} |-> files[x]]   \* what is left is unspecified
  /\ UNCHANGED <<env, ig, pv, fg, calc>>

IGToFile(i, name, lim, r)   == i \in DOMAIN ig /\ IGWrite(i, name, PlainLines(ig[i]), lim, r)
IGToDimacs(i, name, lim, r) == i \in DOMAIN ig /\ IGWrite(i, name, DimacsLines(ig[i]), lim, r)

ArcsOf(lines) == SelectSeq(lines, LAMBDA l : l.k = "arc")

PlainOK(lines) == \A j \in 1..Len(lines) : lines[j].k # "badarc"
PlainGraph(lines) ==
  LET a == ArcsOf(lines) IN Built([j \in 1..Len(a) |-> <<a[j].f, a[j].t, a[j].w>>])

DimacsOK(lines) ==
  LET hs == {j \in 1..Len(lines) : lines[j].k = "hdr"}
      as == {j \in 1..Len(lines) : lines[j].k = "arc"}
  IN  /\ \A j \in 1..Len(lines) : lines[j].k \in {"hdr", "arc", "cmt", "empty"}
      /\ Cardinality(hs) <= 1
      /\ as # {} => hs # {}
      /\ \A h \in hs : /\ \A a \in as : h < a
                       /\ Cardinality(as) = lines[h].m
                       /\ \A a \in as : /\ lines[a].f \in 1..lines[h].n
                                        /\ lines[a].t \in 1..lines[h].n
DimacsGraph(lines) ==
  LET a == ArcsOf(lines) IN Built([j \in 1..Len(a) |-> <<a[j].f - 1, a[j].t - 1, a[j].w>>])

IGRead(i, name, okay, g, r) ==
  /\ IF name \in DOMAIN files /\ okay
     THEN r = Ok /\ ig' = (i :> g) @@ ig
     ELSE r = Panic /\ UNCHANGED ig
  /\ UNCHANGED <<env, pv, fg, calc, files>>

FileLines(name) == IF name \in DOMAIN files THEN files[name] ELSE <<>>

IGFromFile(i, name, r) ==
  IGRead(i, name, PlainOK(FileLines(name)), PlainGraph(FileLines(name)), r)
IGFromDimacs(i, name, r) ==
  LET ok == DimacsOK(FileLines(name))
  IN  IGRead(i, name, ok, IF ok THEN DimacsGraph(FileLines(name)) ELSE EmptyIG, r)

(* the environment puts a file in place, or looks at one *)
PutFile(name, lines, r) ==
  /\ r = Ok
  /\ files' = (name :> lines) @@ files
  /\ UNCHANGED <<env, ig, pv, fg, calc>>

ReadBack(name, r) ==
  /\ (name \in DOMAIN files => r = [k |-> "ok", ls |-> files[name]]) = TRUE
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Preparation *)

ActiveLimit == 40    \* up to here all nodes are active and the matrix is kept

NewValue(key, g, ord) ==
  LET ends == Endpoints(g.es)
      act  == IF g.n <= ActiveLimit \/ Cardinality(ends) = g.n THEN 0..(g.n - 1) ELSE ends
      radj == TLCEval(InAdj(g.es, act))
  IN  [key |-> key, es |-> g.es, n |-> g.n,
       adj |-> TLCEval(OutAdj(g.es, act)),
       D   |-> IF Cardinality(act) <= ActiveLimit THEN TLCEval(DistMatrix(radj, env.wm)) ELSE <<>>,
       rows |-> <<>>,          \* certified rows (larger graphs)
       ord |-> ord,            \* <<>>: not observed yet
       cnt |-> <<>>,           \* <<out, in>>
       dig |-> "",             \* digest of the serialized bytes
       memo |-> <<>>]          \* routes found by fresh calculators

(* the slot g gets the value with this key, new or known *)
Install(g, key, graph, ord) ==
  LET known == {v \in 1..Len(pv) : pv[v].key = key}
  IN  IF known # {}
      THEN /\ fg' = (g :> CHOOSE v \in known : TRUE) @@ fg
           /\ UNCHANGED pv
      ELSE /\ pv' = Append(pv, NewValue(key, graph, ord))
           /\ fg' = (g :> (Len(pv) + 1)) @@ fg

Prepare(g, i, par, r) ==
  /\ i \in DOMAIN ig
  /\ IF ~ig[i].fz THEN r = Panic /\ UNCHANGED <<pv, fg>>
     ELSE /\ r = Ok
          /\ Install(g, <<"auto", par, ig[i].n, ig[i].es>>, ig[i], <<>>)
  /\ UNCHANGED <<env, ig, calc, files>>

PrepareWithOrder(g, i, o, par, r) ==
  /\ i \in DOMAIN ig
  /\ IF ~ig[i].fz
     THEN (r = Panic \/ (r = Err /\ ~IsPermutation(o, ig[i].n))) /\ UNCHANGED <<pv, fg>>
     ELSE IF Len(o) # ig[i].n THEN r = Err /\ UNCHANGED <<pv, fg>>
     ELSE IF ~IsPermutation(o, ig[i].n) THEN r \in {Err, Panic} /\ UNCHANGED <<pv, fg>>
     ELSE /\ r = Ok
          /\ Install(g, <<"order", par, o, ig[i].n, ig[i].es>>, ig[i], o)
  /\ UNCHANGED <<env, ig, calc, files>>

(* a prepared graph of n nodes and no edges, by the public constructor *)
FGBlank(g, n, r) ==
  /\ r = Ok
  /\ Install(g, <<"blank", n>>, [es |-> <<>>, n |-> n], <<>>)
  /\ UNCHANGED <<env, ig, calc, files>>

Val(g) == pv[fg[g]]

(* with the ordering o that the prepared graph h reports *)
PrepareReusing(g, i, h, o, par, r) ==
  /\ h \in DOMAIN fg
  /\ IsPermutation(o, Val(h).n)
  /\ (Val(h).ord # <<>> => o = Val(h).ord) = TRUE
  /\ PrepareWithOrder(g, i, o, par, r)

-----------------------------------------------------------------------------
(* Observations of prepared graphs *)

NodeOrdering(g, r) ==
  /\ g \in DOMAIN fg
  /\ r.k = "ok"
  /\ IsPermutation(r.o, Val(g).n)
  /\ (Val(g).ord # <<>> => r.o = Val(g).ord) = TRUE
  /\ pv' = [pv EXCEPT ![fg[g]].ord = r.o]
  /\ UNCHANGED <<env, ig, fg, calc, files>>

Counts(g, r) ==
  /\ g \in DOMAIN fg
  /\ r.k = "ok"
  /\ r.n = Val(g).n
  /\ (Val(g).cnt # <<>> => r.c = Val(g).cnt) = TRUE
  /\ pv' = [pv EXCEPT ![fg[g]].cnt = r.c]
  /\ UNCHANGED <<env, ig, fg, calc, files>>

Digest(g, r) ==
  /\ g \in DOMAIN fg
  /\ r.k = "ok"
  /\ (Val(g).dig # "" => r.d = Val(g).dig) = TRUE
  /\ pv' = [pv EXCEPT ![fg[g]].dig = r.d]
  /\ UNCHANGED <<env, ig, fg, calc, files>>

(* clone, or lossless store and load *)
FGCopy(g, h, r) ==
  /\ g \in DOMAIN fg
  /\ r = Ok
  /\ fg' = (h :> fg[g]) @@ fg
  /\ UNCHANGED <<env, ig, pv, calc, files>>

(* a prepared graph is dropped; others, and calculators, are not affected *)
FGDrop(g, r) ==
  /\ g \in DOMAIN fg
  /\ r = Ok
  /\ fg' = [h \in DOMAIN fg \ {g} |-> fg[h]]
  /\ UNCHANGED <<env, ig, pv, calc, files>>

(* Conversion to 32 bits and back.  Which shortcut weights occur in a prepared  *)
(* graph is up to the preparation.  With exhaustive witness searches (small     *)
(* graphs, default limits) every shortcut is a simple path, so that none        *)
(* exceeds the sum of all finite edge weights; starved witness searches may     *)
(* leave heavier ones.  If that bound fits, the conversion must succeed.        *)
(* Otherwise it may be refused; if it is not, it must be lossless all the same. *)
TotalWeight(es) ==
  FoldLeft(LAMBDA s, e : IF e[3] >= env.wm THEN s ELSE Sat(s, e[3], env.wm), 0, es)

MustConvert(v) ==
  IF v.n <= ActiveLimit /\ v.key[2] = "default"
  THEN TotalWeight(v.es) < env.lim32
  ELSE TotalWeight(v.es) < env.lim32 \div 16

Convert32(g, h, r) ==
  /\ g \in DOMAIN fg
  /\ (r = Ok \/ (~MustConvert(Val(g)) /\ r \in {Panic, Err})) = TRUE
  /\ IF r = Ok THEN fg' = (h :> fg[g]) @@ fg ELSE UNCHANGED fg
  /\ UNCHANGED <<env, ig, pv, calc, files>>

-----------------------------------------------------------------------------
(* Queries *)

NewCalc(c, n, r) ==
  /\ r = Ok
  /\ calc' = (c :> n) @@ calc
  /\ UNCHANGED <<env, ig, pv, fg, files>>

(* c = -1: the one-shot functions, which always use a fitting calculator *)
CalcFits(c, g) == IF c = -1 THEN TRUE ELSE calc[c] = Val(g).n

Row(v, s) == IF s \in DOMAIN v.rows THEN v.rows[s] ELSE v.D[s]

Dist(v, s, t) ==
  IF s = t THEN 0
  ELSE IF s \notin DOMAIN v.adj \/ t \notin DOMAIN v.adj THEN env.wm
  ELSE Row(v, s)[t]

(* minimum over all choices of source weight + distance + target weight *)
BestTotal(v, S, T) ==
  FoldLeft(LAMBDA b, x :
             FoldLeft(LAMBDA b2, y :
                        Min2(b2, Sat(x[2], Sat(Dist(v, x[1], y[1]), y[2], env.wm), env.wm)),
                      b, T),
           env.wm, S)

ValidQuery(c, g, S, T) ==
  /\ CalcFits(c, g)
  /\ S # <<>> /\ T # <<>>
  /\ \A i \in 1..Len(S) : S[i][1] \in 0..(Val(g).n - 1)
  /\ \A i \in 1..Len(T) : T[i][1] \in 0..(Val(g).n - 1)

(* the contract of a query's answer *)
Answer(v, S, T, r) ==
  LET best == BestTotal(v, S, T)
  IN  IF best >= env.wm THEN r = None
      ELSE /\ r.k = "path"
           /\ r.w = best
           /\ Len(r.p) >= 1
           /\ r.s = r.p[1]
           /\ r.t = r.p[Len(r.p)]
           /\ LET pw == PathWeight(v.adj, r.p, env.wm)
              IN  \E i \in 1..Len(S), j \in 1..Len(T) :
                    /\ S[i][1] = r.s /\ T[j][1] = r.t
                    /\ Sat(S[i][2], Sat(pw, T[j][2], env.wm), env.wm) = r.w

QueryOK(c, g, S, T, r) ==
  IF ValidQuery(c, g, S, T) THEN Answer(Val(g), S, T, r) ELSE r = Panic

Query(c, g, S, T, r) ==
  /\ g \in DOMAIN fg /\ c \in DOMAIN calc \cup {-1}
  /\ QueryOK(c, g, S, T, r) = TRUE
  /\ UNCHANGED vars

(* the same query many times: rs are the distinct answers *)
QueryMany(c, g, S, T, r) ==
  /\ g \in DOMAIN fg /\ c \in DOMAIN calc \cup {-1}
  /\ r.k = "ok" /\ Len(r.rs) >= 1
  /\ \A i \in 1..Len(r.rs) : QueryOK(c, g, S, T, r.rs[i])
  /\ UNCHANGED vars

(* all targets from one source; ds[t+1], ps[t+1] are distance and route to t *)
RowAnswer(v, s, ds, ps) ==
  /\ Len(ds) = v.n /\ Len(ps) = v.n
  /\ LET d == [t \in DOMAIN v.adj |-> ds[t + 1]]
         p == [t \in DOMAIN v.adj |-> ps[t + 1]]
     IN  IF s \in DOMAIN v.adj
         THEN CertifiedRow(v.adj, s, d, p, env.wm)
         ELSE \A t \in DOMAIN v.adj : d[t] = env.wm /\ p[t] = <<>>
  /\ \A t \in (0..(v.n - 1)) \ DOMAIN v.adj :
        IF t = s THEN ds[t+1] = 0 /\ ps[t+1] = <<s>> ELSE ds[t+1] = env.wm /\ ps[t+1] = <<>>

QueryRow(c, g, s, r) ==
  /\ g \in DOMAIN fg /\ c \in DOMAIN calc \cup {-1}
  /\ CalcFits(c, g) /\ s < Val(g).n
  /\ r.k = "row" /\ r.ends      \* every route's reported ends are its first and last node
  /\ RowAnswer(Val(g), s, r.d, r.p) = TRUE
  /\ IF Val(g).D = <<>>
     THEN pv' = [pv EXCEPT ![fg[g]].rows =
                   (s :> [t \in DOMAIN Val(g).adj |-> r.d[t + 1]]) @@ @]
     ELSE UNCHANGED pv
  /\ UNCHANGED <<env, ig, fg, calc, files>>

(* distances to all targets from one source, without the routes *)
QueryDistances(c, g, s, r) ==
  /\ g \in DOMAIN fg /\ c \in DOMAIN calc \cup {-1}
  /\ CalcFits(c, g) /\ s \in DOMAIN Val(g).adj
  /\ r.k = "row" /\ Len(r.d) = Val(g).n
  /\ LET d == TLCEval([t \in DOMAIN Val(g).adj |-> r.d[t + 1]])
     IN  /\ TightRow(Val(g).es, Val(g).adj, s, d, env.wm) = TRUE
         /\ (\A t \in (0..(Val(g).n - 1)) \ DOMAIN Val(g).adj : r.d[t + 1] = env.wm) = TRUE
         /\ IF Val(g).D = <<>> THEN pv' = [pv EXCEPT ![fg[g]].rows = (s :> d) @@ @]
            ELSE UNCHANGED pv
  /\ UNCHANGED <<env, ig, fg, calc, files>>

(* The specification works out the distances from s by itself (no call is made), so   *)
(* that single queries from s can be judged on large graphs.  A claim of what they    *)
(* are, made by whoever wrote the script, is believed only after a proof: a row that  *)
(* is feasible and tight is the row of distances (PathTheory).                        *)
WorkOut(g, s, claim, r) ==
  /\ r = Ok
  /\ g \in DOMAIN fg /\ s \in DOMAIN Val(g).adj
  /\ claim # <<>> => Len(claim) = Val(g).n
  /\ IF Val(g).D # <<>> THEN UNCHANGED pv
     ELSE IF claim # <<>> THEN
          LET d == TLCEval([t \in DOMAIN Val(g).adj |-> claim[t + 1]])
          IN  /\ Assert(TightRow(Val(g).es, Val(g).adj, s, d, env.wm), "a wrong claim of distances")
              /\ pv' = [pv EXCEPT ![fg[g]].rows = (s :> d) @@ @]
     ELSE LET radj == TLCEval(InAdj(Val(g).es, DOMAIN Val(g).adj))
          IN  pv' = [pv EXCEPT ![fg[g]].rows = (s :> DistRow(radj, s, env.wm)) @@ @]
  /\ UNCHANGED <<env, ig, fg, calc, files>>

(* all pairs *)
QueryAll(c, g, r) ==
  /\ g \in DOMAIN fg /\ c \in DOMAIN calc \cup {-1}
  /\ CalcFits(c, g)
  /\ r.k = "all" /\ r.ends
  /\ Len(r.d) = Val(g).n /\ Len(r.p) = Val(g).n
  /\ (\A s \in 0..(Val(g).n - 1) : RowAnswer(Val(g), s, r.d[s + 1], r.p[s + 1])) = TRUE
  /\ UNCHANGED vars

(* all pairs, each with a fresh calculator: the very same routes every time *)
QueryAllFresh(g, r) ==
  /\ g \in DOMAIN fg
  /\ r.k = "all" /\ r.ends
  /\ Len(r.d) = Val(g).n /\ Len(r.p) = Val(g).n
  /\ (\A s \in 0..(Val(g).n - 1) : RowAnswer(Val(g), s, r.d[s + 1], r.p[s + 1])) = TRUE
  /\ (Val(g).memo # <<>> => Val(g).memo = r.p) = TRUE
  /\ pv' = [pv EXCEPT ![fg[g]].memo = r.p]
  /\ UNCHANGED <<env, ig, fg, calc, files>>

-----------------------------------------------------------------------------
Init ==
  /\ ig = <<>> /\ pv = <<>> /\ fg = <<>> /\ calc = <<>> /\ files = <<>>

-----------------------------------------------------------------------------
(* Invariants of the design *)

FrozenIsNormal == \A i \in DOMAIN ig : ig[i].fz => IsNormal(ig[i].es)
NormalMeansMinimal ==
  \A i \in DOMAIN ig : /\ SeqRange(NormalForm(ig[i].es)) = NormalSet(ig[i].es)
                       /\ IsNormal(NormalForm(ig[i].es))
NodeCountRight == \A i \in DOMAIN ig : ig[i].n = NodeCount(ig[i].es)
NoLoopsNoZero ==
  \A i \in DOMAIN ig : \A j \in 1..Len(ig[i].es) :
     Accepted(ig[i].es[j][1], ig[i].es[j][2], ig[i].es[j][3])
=============================================================================
