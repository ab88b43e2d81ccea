-------------------------------- MODULE Resume --------------------------------
(***************************************************************************)
(* A sampler that is stopped and resumed.                                  *)
(*                                                                         *)
(* The chain is a deterministic function of its parts: the hidden state    *)
(* that is yielded, the adaptation of the parameter proposals, that of the *)
(* regime proposals, the position in the random stream, and the number of  *)
(* streams already spawned from it.  Stopping exposes the parts; resuming  *)
(* starts from what is handed over and from fresh values for the rest.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Mod          \* values of the parts are numbers below this prime
Parts == {"hidden", "params", "regimes", "stream", "spawned"}
Fresh == [p \in Parts |-> IF p = "hidden" THEN 3 ELSE 1]
\* one sweep: every part feeds into the next hidden state; adaptation follows the outcome, at its own pace
Sweep(s) ==
  LET h == (s["hidden"] * 3 + s["params"] * 2 + s["regimes"] * 5 + s["stream"] * s["stream"] + s["spawned"] * 7) % Mod
  IN [p \in Parts |-> CASE p = "hidden" -> h
                       [] p = "params" -> (s["params"] + h) % Mod
                       [] p = "regimes" -> (s["regimes"] * 2 + h + 1) % Mod
                       [] p = "stream" -> (s["stream"] + 1 + (h % 2)) % Mod
                       [] p = "spawned" -> (s["spawned"] + 2) % Mod]
Take(given, s) == [p \in Parts |-> IF p \in given THEN s[p] ELSE Fresh[p]]
RECURSIVE Straight(_, _)
Straight(s, n) == IF n = 0 THEN s ELSE Straight(Sweep(s), n - 1)
\* n sweeps with stops after the sweeps in `stops`
RECURSIVE Stopped(_, _, _, _, _)
Stopped(s, k, n, stops, given) ==
  IF k = n THEN s
  ELSE LET u == Sweep(s) IN Stopped(IF k + 1 \in stops THEN Take(given, u) ELSE u, k + 1, n, stops, given)
===============================================================================
