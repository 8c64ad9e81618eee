-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Public calls as events: a record with the operation o, its arguments    *)
(* and the response r.  Step(e) is the action of FastPaths it stands for.   *)
(***************************************************************************)
EXTENDS FastPaths, Hierarchy, Bulk, LongRoutes

Limit(e) == IF "lim" \in DOMAIN e THEN e.lim ELSE -1

One(n) == <<<<n, 0>>>>

(* looking inside a prepared graph *)
Inspect(g, focus, r) ==
  /\ g \in DOMAIN fg
  /\ r.k = "ok"
  /\ HierarchyOK(Val(g), r, focus, env.wm) = TRUE
  /\ UNCHANGED vars

Step(e) ==
  CASE e.r.k \in {"crash", "hang"} -> FALSE
    [] e.o = "new"    -> IGNew(e.i, e.r)
    [] e.o = "add"    -> IGAdd(e.i, e.f, e.t, e.w, FALSE, e.r)
    [] e.o = "addb"   -> IGAdd(e.i, e.f, e.t, e.w, TRUE, e.r)
    [] e.o = "frz"    -> IGFreeze(e.i, e.r)
    [] e.o = "thw"    -> IGThaw(e.i, e.r)
    [] e.o = "build"  -> IGBuild(e.i, e.es, e.r)
    [] e.o = "edges"  -> IGEdges(e.i, e.r)
    [] e.o = "nn"     -> IGNumNodes(e.i, e.r)
    [] e.o = "ne"     -> IGNumEdges(e.i, e.r)
    [] e.o = "str"    -> IGString(e.i, e.r)
    [] e.o = "icopy"  -> IGCopy(e.i, e.j, e.r)
    [] e.o = "tof"    -> IGToFile(e.i, e.file, Limit(e), e.r)
    [] e.o = "tod"    -> IGToDimacs(e.i, e.file, Limit(e), e.r)
    [] e.o = "fromf"  -> IGFromFile(e.i, e.file, e.r)
    [] e.o = "fromd"  -> IGFromDimacs(e.i, e.file, e.r)
    [] e.o = "putf"   -> PutFile(e.file, e.ls, e.r)
    [] e.o = "cat"    -> ReadBack(e.file, e.r)
    [] e.o = "prep"   -> Prepare(e.g, e.i, e.par, e.r)
    [] e.o = "prepo"  -> PrepareWithOrder(e.g, e.i, e.ord, e.par, e.r)
    [] e.o = "prepr"  -> PrepareReusing(e.g, e.i, e.from, e.ord, e.par, e.r)
    [] e.o = "ord"    -> NodeOrdering(e.g, e.r)
    [] e.o = "cnt"    -> Counts(e.g, e.r)
    [] e.o = "dig"    -> Digest(e.g, e.r)
    [] e.o = "gcopy"  -> FGCopy(e.g, e.h, e.r)
    [] e.o = "blank"  -> FGBlank(e.g, e.n, e.r)
    [] e.o = "drop"   -> FGDrop(e.g, e.r)
    [] e.o = "c32"    -> Convert32(e.g, e.h, e.r)
    [] e.o = "hier"   -> Inspect(e.g, IF "at" \in DOMAIN e THEN {e.at[i] : i \in 1..Len(e.at)} ELSE {}, e.r)
    [] e.o = "cal"    -> NewCalc(e.c, IF "n" \in DOMAIN e THEN e.n ELSE Val(e.g).n, e.r)
    [] e.o = "q"      -> Query(e.c, e.g, One(e.s), One(e.t), e.r)
    [] e.o = "mq"     -> Query(e.c, e.g, e.S, e.T, e.r)
    [] e.o = "rep"    -> QueryMany(e.c, e.g, e.S, e.T, e.r)
    [] e.o = "row"    -> QueryRow(e.c, e.g, e.s, e.r)
    [] e.o = "drow"   -> QueryDistances(e.c, e.g, e.s, e.r)
    [] e.o = "base"   -> WorkOut(e.g, e.s, IF "d" \in DOMAIN e THEN e.d ELSE <<>>, e.r)
    [] e.o = "all"    -> QueryAll(e.c, e.g, e.r)
    [] e.o = "fall"   -> QueryAllFresh(e.g, e.r)
    [] e.o = "one"    -> OneStep(e, e.r)
    [] e.o = "long"   -> LongOK(e, e.r, env.wm) = TRUE /\ UNCHANGED vars
    (* jump over many unrelated queries *)
    [] e.o = "ep"     -> e.r = Ok /\ UNCHANGED vars
    (* not executed, because the graph it needs was (rightly) not produced *)
    [] e.o = "skip"   -> e.need \notin DOMAIN fg /\ UNCHANGED vars
    [] OTHER          -> FALSE
=============================================================================
