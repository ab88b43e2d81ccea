----------------------------- MODULE ParamUpdate -----------------------------
(***************************************************************************)
(* One parameter update.                                                   *)
(*                                                                         *)
(* u = [cur, prop, sector, pts, phase, acc, told]: current vector, the     *)
(* proposed value of the chosen coordinate, the revealed points of the     *)
(* hidden path, the stage of the update and what the adaptation was told   *)
(* (<<>> or <<value, outcome>>).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Begin(th, pts) == [cur |-> th, nil |-> th, prop |-> 0, sector |-> 0, pts |-> pts, old |-> pts, phase |-> "idle", told |-> <<>>]
Propose(u, i, v) == [u EXCEPT !.sector = i, !.prop = v, !.phase = "proposed", !.told = <<>>]
Replaced(u) == [u.nil EXCEPT ![u.sector] = u.prop]
PrePass(u) == [u EXCEPT !.phase = "coins"]
Reject(u) == [u EXCEPT !.phase = "done", !.told = <<u.nil[u.sector], 0>>]
CoinFails(u, new) == [u EXCEPT !.pts = u.pts \cup new]
AcceptIt(u, new) == [u EXCEPT !.phase = "done", !.cur = Replaced(u), !.pts = u.pts \cup new, !.told = <<u.prop, 1>>]
RejectIt(u, new) == [u EXCEPT !.phase = "done", !.pts = u.pts \cup new, !.told = <<u.nil[u.sector], 0>>]

\* what may be seen of a finished update
Local(nil, prop, sector, res) ==
  \/ res = nil
  \/ /\ Len(res) = Len(nil)
     /\ \A i \in DOMAIN nil : res[i] = IF i = sector THEN prop ELSE nil[i]
Told(nil, prop, sector, res, told) ==
  \/ res[sector] = prop /\ told = <<prop, 1>>
  \/ res[sector] = nil[sector] /\ told = <<nil[sector], 0>>
=============================================================================
