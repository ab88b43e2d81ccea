----------------------------- MODULE MC_TwoCoin -----------------------------
(***************************************************************************)
(* All flip histories of the two-coin protocol up to a budget, and the     *)
(* invariance of the Markov kernel built on it, in exact arithmetic.       *)
(***************************************************************************)
EXTENDS TwoCoin, FiniteSets, SequencesExt, TLC, Json, IOUtils
CONSTANTS MaxBudget

VARIABLES s, hist, res, esc   \* esc: 0 never escapes, 1 may, 2 must after a failure
vars == <<s, hist, res, esc>>
Init == /\ \E b \in 1..MaxBudget, j \in BOOLEAN : s = Start(b, j, 0)
        /\ esc \in 0..2 /\ hist = <<>> /\ res = <<"running">>
DoFlip == /\ CanFlip(s) /\ (esc = 2 => s.n = 0) /\ res = <<"running">>
          /\ \E c \in 1..2, ok \in BOOLEAN :
               /\ s' = Flip(s, c, ok, s.n + 1)             \* objects are numbered by flips
               /\ hist' = Append(hist, <<c, ok>>)
          /\ UNCHANGED <<res, esc>>
DoReturn == /\ res = <<"running">>
            /\ \E a \in BOOLEAN, e \in BOOLEAN, o \in 0..MaxBudget :
                 CanReturn(s, a, e, o, esc > 0) /\ res' = <<"ret", a, e, o>> /\ s' = Finish(s)
            /\ UNCHANGED <<hist, esc>>
DoRaise == /\ res = <<"running">> /\ CanRaise(s, esc = 2)
           /\ res' = <<"raise">> /\ s' = Finish(s) /\ UNCHANGED <<hist, esc>>
Next == DoFlip \/ DoReturn \/ DoRaise
Spec == Init /\ [][Next]_vars

Flips(c) == {i \in DOMAIN hist : hist[i][1] = c}
WithinBudget == s.n <= s.max /\ Len(hist) = s.n
\* only the last flip can have been a success, and a run with a success is not raised or escaped
SuccessEnds == /\ \A i \in 1..(Len(hist) - 1) : ~hist[i][2]
               /\ res[1] = "raise" => hist # <<>> /\ ~hist[Len(hist)][2] /\ Len(hist) = s.max
               /\ res[1] = "ret" => (res[3] <=> ~hist[Len(hist)][2])
\* nothing that was revealed about the current object is lost
NothingLost == res[1] = "ret" /\ ~res[2] =>
   LET mine == {i \in DOMAIN hist : s.joint \/ hist[i][1] = 2}
   IN res[4] = (IF mine = {} THEN 0 ELSE CHOOSE i \in mine : \A k \in mine : k <= i)
HeadsObject == res[1] = "ret" /\ res[2] => res[4] = Len(hist) /\ hist[Len(hist)] = <<1, TRUE>>
NeverStuck == res = <<"running">> => ENABLED Next

(***************************************************************************)
(* Kernel invariance.  Two values with weights w[1], w[2]; each carries a  *)
(* hidden object z in {1,2} of which nothing is known at first; the coin   *)
(* of value x succeeds with probability p[x][z]/4, and flipping it reveals *)
(* z.  Target: w[x] p[x][z].  The object is drawn afresh (both z equally   *)
(* likely) for the proposed value.  Escape probability r/4.  A run of K    *)
(* rounds; a run that is neither accepted nor rejected nor escaped within  *)
(* K rounds keeps the current state.                                       *)
(***************************************************************************)
Pw(a, k) == LET P[i \in 0..k] == IF i = 0 THEN 1 ELSE P[i - 1] * a IN P[k]
\* with W = w1 + w2, one round accepts with probability w1 p1 / 4W and ends otherwise with (w2 p2)/4W;
\* it goes on with probability (4-r)/4 of the rest.  Everything over the common denominator (16 W)^K.
AcceptNum(w1, p1, w2, p2, r, K) ==
  LET W == w1 + w2
      fail == 4 * W - w1 * p1 - w2 * p2        \* over 4W
      go == fail * (4 - r)                     \* over 16W
      S[k \in 0..K] == IF k = 0 THEN 0 ELSE S[k - 1] + 4 * w1 * p1 * Pw(go, k - 1) * Pw(16 * W, K - k)
  IN S[K]
\* detailed balance of (x, z) <-> (y, z2) with respect to w[x] p[x][z]: the flow is symmetric
Balanced(w, p, r, K) ==
  \A z, z2 \in 1..2 :
    w[1] * p[1][z] * AcceptNum(w[2], p[2][z2], w[1], p[1][z], r, K)
      = w[2] * p[2][z2] * AcceptNum(w[1], p[1][z], w[2], p[2][z2], r, K)
Weights == {<<1, 1>>, <<1, 2>>, <<3, 1>>}
Coins == {<<<<1, 3>>, <<2, 4>>>>, <<<<2, 2>>, <<1, 4>>>>, <<<<4, 1>>, <<3, 2>>>>}
ASSUME \A w \in Weights, p \in Coins, r \in 0..4, K \in 1..3 : Balanced(w, p, r, K)
\* Forgetting on escape what a failed flip of the current coin revealed puts z back to its prior.  One round from the
\* current value x with r = 4 (always escape): stationarity would need the law of z to be kept.  It is not:
\* mass of z among escapes is proportional to p[z] (4 - p[z]), but a forgotten z returns as 1/2, 1/2.
Forgetful(p) == p[1] * (4 - p[1]) = p[2] * (4 - p[2])
ASSUME ~Forgetful(<<1, 2>>) /\ ~Forgetful(<<2, 4>>)

(* cases for replay: when each coin succeeds first (0: never), budget, escape mode *)
ASSUME ndJsonSerialize(IOEnv.WORK \o "/cases_coins.ndjson",
  SetToSeq([k1 : 0..3, k2 : 0..3, max : 1..MaxBudget, esc : 0..2, joint : BOOLEAN, w : 0..2]))
=============================================================================
