--------------------------- MODULE FastPathsTrace ---------------------------
(***************************************************************************)
(* Binds FastPaths to executions of the real crate.                        *)
(*                                                                         *)
(* The file named by the environment variable TRACE has one trace per      *)
(* line: [h |-> [id, wm, lim32], ev |-> <<event, ...>>]; an event is one   *)
(* public call with its arguments and its recorded response r.  Every      *)
(* trace is an initial state.  A trace is accepted when the specification  *)
(* allows each of its events in turn; TLC then prints ACCEPT with the      *)
(* trace's number.  A trace whose next event is not allowed simply ends.   *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l

TraceInit ==
  /\ Init
  /\ tr \in 1..Len(Traces)
  /\ l = 1
  /\ env = [wm |-> Traces[tr].h.wm, lim32 |-> Traces[tr].h.lim32]

Ev == Traces[tr].ev[l]

TraceNext ==
  \/ /\ l <= Len(Traces[tr].ev)
     /\ Step(Ev)
     /\ l' = l + 1
     /\ UNCHANGED tr
  \/ /\ l = Len(Traces[tr].ev) + 1
     /\ PrintT(<<"ACCEPT", tr>>)
     /\ l' = l + 1
     /\ UNCHANGED <<vars, tr>>

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>

(* one behaviour per trace: the position identifies the state *)
TraceView == <<tr, l>>

(* the invariants of FastPaths, wherever an input graph may have changed *)
ChangesGraphs == {"new", "add", "addb", "frz", "thw", "build", "icopy", "fromf", "fromd"}
GraphsInvariant ==
  l > 1 /\ l <= Len(Traces[tr].ev) + 1 /\ Traces[tr].ev[l - 1].o \in ChangesGraphs
    => FrozenIsNormal /\ NodeCountRight /\ NoLoopsNoZero

(* for the diagnosis of a rejected trace, with deadlock checking on *)
Alias == [tr |-> tr, l |-> l]
Finish == l > Len(Traces[tr].ev) + 1 /\ UNCHANGED <<vars, tr, l>>
DiagnoseSpec == TraceInit /\ [][TraceNext \/ Finish]_<<vars, tr, l>>
=============================================================================
