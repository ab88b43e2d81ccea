------------------------------ MODULE TwoCoin ------------------------------
(***************************************************************************)
(* The two-coin protocol.  State of one run:                               *)
(*   n      flips so far           max   budget of flips                   *)
(*   joint  one shared coin generator instead of two iterators             *)
(*   last   0 no flip yet, 1/2 the coin flipped last, ok its success       *)
(*   obj    object of the flip last made                                   *)
(*   keep   object handed back on escape (latest one of the second coin, *)
(*          the starting object before it was flipped; joint: shared one)  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Start(max, joint, prop0) == [n |-> 0, max |-> max, joint |-> joint, last |-> 0, ok |-> FALSE, obj |-> prop0, keep |-> prop0, over |-> FALSE]

CanFlip(s) == ~s.over /\ s.n < s.max /\ ~s.ok
Flip(s, coin, ok, obj) ==
  [s EXCEPT !.n = s.n + 1, !.last = coin, !.ok = ok, !.obj = obj,
            !.keep = IF ok THEN s.keep ELSE IF coin = 2 \/ s.joint THEN obj ELSE s.keep]

\* heads and tails return the object of the successful flip; escape is tails with the kept object
CanReturn(s, acc, esc, obj, mayEscape) ==
  /\ ~s.over /\ s.n > 0
  /\ IF s.ok THEN ~esc /\ acc = (s.last = 1) /\ obj = s.obj
     ELSE esc /\ ~acc /\ obj = s.keep /\ mayEscape
CanRaise(s, mustEscape) == ~s.over /\ s.n = s.max /\ ~s.ok /\ ~mustEscape
Finish(s) == [s EXCEPT !.over = TRUE]
=============================================================================
