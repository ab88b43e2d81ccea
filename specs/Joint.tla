------------------------------- MODULE Joint -------------------------------
(***************************************************************************)
(* The joint law a sampler targets, on a grid small enough to be exact:    *)
(* a generator, a regime path seen at two times, a parameter per regime    *)
(* and one observed step.  A generator is a pair of chances <<p, q>> (of   *)
(* D) of leaving regime 1 and 2; its stationary law is q : p.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Reg == 1..2
Move(D, gen, a, b) == IF a = b THEN D - gen[a] ELSE gen[a]
Stat(gen, a) == IF a = 1 THEN gen[2] ELSE gen[1]        \* over gen[1] + gen[2]

(* One sweep as a sequence of uses of its blocks, in any order: "gen" a generator is drawn, "par" parameters are
   weighed on a hidden state, "prop" a regime path is proposed under a generator, "hid" a hidden state is proposed
   or weighed under parameters.  old / new: what was used is the block as the sweep found / leaves it.  Every use
   takes the block as the sweep has it by then. *)
Renews == [par |-> {"hid"}, prop |-> {"gen"}, hid |-> {"par"}]
Latest(steps, i) == IF \E j \in 1..(i - 1) : steps[j].k \in Renews[steps[i].k] THEN steps[i].new ELSE steps[i].old
SweepLatest(steps) == \A i \in DOMAIN steps : steps[i].k = "gen" \/ Latest(steps, i)
=============================================================================
