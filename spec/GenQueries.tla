----------------------------- MODULE GenQueries -----------------------------
(* Every pair of source and target lists up to a length over a fixed graph (C03, C18), and what *)
(* the contract of queries says about all of them.                                              *)
EXTENDS FastPaths, Json, IOUtils

CONSTANT Depth
VARIABLES S, T

Num(s) == CHOOSE n \in 0..100 : ToString(n) = s
QDepth == IF "HDEPTH" \in DOMAIN IOEnv THEN Num(IOEnv.HDEPTH) ELSE Depth

WM == 1000000000
Es == CASE IOEnv.HALPHA = "a" -> <<<<0, 1, 2>>, <<0, 2, 5>>, <<1, 2, 2>>>>
        [] IOEnv.HALPHA = "b" -> <<<<0, 1, 1>>, <<1, 0, 3>>, <<1, 2, 1>>, <<2, 0, 1>>>>
        [] IOEnv.HALPHA = "c" -> <<<<0, 2, WM - 1>>, <<2, 1, 1>>, <<1, 0, WM>>>>
G == Built(Es)
Bad == 3
Entries == {<<v, w>> : v \in 0..2, w \in {0, 3, WM}} \cup {<<Bad, 0>>}
Value == NewValue(<<"auto", "default">>, G, <<>>)

QInit ==
  /\ env = [wm |-> WM, lim32 |-> WM]
  /\ Init
  /\ S = <<>> /\ T = <<>>
QNext ==
  /\ \/ /\ Len(S) < QDepth /\ T = <<>> /\ UNCHANGED T
        /\ \E x \in Entries : S' = Append(S, x)
     \/ /\ Len(T) < QDepth /\ UNCHANGED S
        /\ \E x \in Entries : T' = Append(T, x)
  /\ UNCHANGED vars
Spec == QInit /\ [][QNext]_<<vars, S, T>>

Emit == PrintT(<<"GEN", ToJson([S |-> S, T |-> T])>>)

Good == /\ S # <<>> /\ T # <<>>
        /\ \A i \in 1..Len(S) : S[i][1] # Bad
        /\ \A i \in 1..Len(T) : T[i][1] # Bad
Best(a, b) == BestTotal(Value, a, b)

(* the best choice is the best over all single choices; order, repetition and entries of maximum *)
(* weight are irrelevant; further entries never make it worse                                    *)
BestChoice == Good =>
  LET b  == Best(S, T)
      xs == {Best(<<S[i]>>, <<T[j]>>) : i \in 1..Len(S), j \in 1..Len(T)}
  IN  b \in xs /\ \A x \in xs : b <= x
Irrelevant == Good =>
  /\ Best(Reverse(S), T) = Best(S, T)
  /\ Best(S, Reverse(T)) = Best(S, T)
  /\ Best(S \o S, T) = Best(S, T)
  /\ Best(SelectSeq(S, LAMBDA x : x[2] < WM), T) = Best(S, T)
  /\ Best(Append(S, <<0, WM>>), T) = Best(S, T)
  /\ Best(Append(S, <<0, 1>>), T) <= Best(S, T)

(* answers: exactly one weight, and never one for a query without a finite choice *)
Cands == {None, Panic} \cup
  {[k |-> "path", w |-> w, s |-> p[1], t |-> p[Len(p)], p |-> p] :
     w \in {0, 2, 3, 4, 5, 6, 7, 8, Best(S, T)}, p \in UNION {SimplePaths(0..2, s, t) : s, t \in 0..2}}
OneWeight == (Good /\ Len(S) + Len(T) <= 3) =>
  LET ok == {r \in Cands : Answer(Value, S, T, r)}
  IN  /\ ok # {}
      /\ Panic \notin ok
      /\ IF Best(S, T) >= WM THEN ok = {None} ELSE None \notin ok /\ \A r \in ok : r.w = Best(S, T)
=============================================================================
