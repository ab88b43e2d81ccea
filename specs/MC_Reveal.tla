------------------------------ MODULE MC_Reveal ------------------------------
(***************************************************************************)
(* Every history of requests to a small latent path: ticks 0..T, values    *)
(* between an attained extreme 0 and the bound V, crossing level H.        *)
(***************************************************************************)
EXTENDS Reveal, SequencesExt, TLC, Json, IOUtils
CONSTANTS T, V, H, MaxAsks
VARIABLES s, log, asks
vars == <<s, log, asks>>
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SetSeq(S \ {m})

Init == /\ asks = 0 /\ log = {}
        /\ \E a \in 1..(T - 1), v, w \in 0..(V - 1), has \in BOOLEAN, m1, m2 \in BOOLEAN :
             /\ s = [t |-> <<0, a, T>>, x |-> <<v, 0, w>>, tight |-> 0, loose |-> V, hit |-> H, has |-> has,
                     marks |-> IF has THEN <<m1, m2>> ELSE <<>>]
             /\ MarksSound(s)
Ask == /\ asks < MaxAsks /\ asks' = asks + 1
       /\ \E R \in SUBSET (0..T) :
          LET req == TLCEval(SetSeq(R))
              known == TLCEval(Known(s))
              new == TLCEval(R \ known)
              tt == TLCEval(SetSeq(known \cup R))
              Marks == TLCEval(IF ~s.has THEN {<<>>}
                       ELSE {M \in [1..(Len(tt) - 1) -> BOOLEAN] : MarksRefined(s, [t |-> tt, has |-> TRUE, marks |-> M])})
          IN \E f \in [new -> 0..(V - 1)] :
             LET xx == TLCEval([i \in 1..Len(tt) |-> IF tt[i] \in new THEN f[tt[i]] ELSE ValueAt(s, tt[i])])
             IN \E M \in Marks :
                LET n == [s EXCEPT !.t = tt, !.x = xx, !.marks = M] IN
                /\ MarksSound(n)
                /\ Assert(Allowed(s, n, req), "construction of an answer that is not allowed")
                /\ s' = n
                /\ log' = log \cup {<<u, ValueAt(n, u)>> : u \in R}
Next == Ask
Spec == Init /\ [][Next]_vars
\* no time was ever answered with two values, and what was answered is still there
Consistent == \A a, b \in log : a[1] = b[1] => a[2] = b[2]
StillThere == \A a \in log : a[1] \in Known(s) /\ ValueAt(s, a[1]) = a[2]
Good == WellFormed(s) /\ MarksSound(s) /\ ExtremeAttained(s)
\* the unmarked part of the path never shows a point beyond the level
Below == s.has => \A i \in DOMAIN s.marks : ~s.marks[i] => ~Reaches(s, s.x[i]) /\ ~Reaches(s, s.x[i + 1])
Reqs == {SetSeq(R) : R \in SUBSET (0..T)}
ASSUME ndJsonSerialize(IOEnv.WORK \o "/cases_asks.ndjson", SetToSeq({<<a, b, c>> : a, b, c \in {r \in Reqs : Len(r) <= 2 \/ Len(r) >= T}}))
=============================================================================
