---------------------------- MODULE MC_ParamUpdate ----------------------------
(***************************************************************************)
(* Protocol of parameter updates over repeated updates, and, in exact      *)
(* arithmetic, the invariance of the target under the update kernels.      *)
(***************************************************************************)
EXTENDS ParamUpdate, TLC
CONSTANTS Dim, Vals, Points, WMax, Rounds
VARIABLES u, pre, n
vars == <<u, pre, n>>
Init == n = 0 /\ pre \in BOOLEAN /\ \E th \in [1..Dim -> Vals] : u = Begin(th, {})
Next ==
  \/ /\ u.phase \in {"idle", "done"} /\ n < Rounds /\ n' = n + 1 /\ pre' = pre
     /\ \E i \in 1..Dim, v \in Vals : u' = Propose(Begin(u.cur, u.pts), i, v)
  \/ /\ u.phase = "proposed" /\ u' = PrePass(u) /\ UNCHANGED <<pre, n>>
  \/ /\ u.phase = "proposed" /\ pre /\ u' = Reject(u) /\ UNCHANGED <<pre, n>>
  \/ /\ u.phase = "coins" /\ UNCHANGED <<pre, n>>
     /\ \E new \in SUBSET Points : u' \in {CoinFails(u, new), AcceptIt(u, new), RejectIt(u, new)}
Spec == Init /\ [][Next]_vars

KeepsPoints == u.old \subseteq u.pts
OneCoordinate == Cardinality({i \in 1..Dim : u.cur[i] # u.nil[i]}) <= 1
ObsLocal == u.phase = "done" => Local(u.nil, u.prop, u.sector, u.cur) /\ Told(u.nil, u.prop, u.sector, u.cur, u.told)
ToldOnce == (u.told = <<>>) <=> u.phase \in {"idle", "proposed", "coins"}
NothingForgotten == [][u.pts \subseteq u'.pts]_vars

(* Two values per regime with tractable weights w (likelihood times prior), proposal densities q (towards the
   other value) and path weights g; a coin pair with p1/p2 = g'/g.  Acceptance of the move x -> y as a fraction. *)
W == TLCEval(1..WMax)
Num(w1, w2, q1, q2, g1, g2, p) == IF p THEN w2 * q2 * g2 ELSE w2 * q2 * g2
Den(w1, w2, q1, q2, g1, g2, p) == IF p THEN (w2 * q2 + w1 * q1) * (g2 + g1) ELSE w2 * q2 * g2 + w1 * q1 * g1
\* q1: density of proposing 2 from 1; q2: density of proposing 1 from 2.  Target of x: w_x g_x.
Balanced == \A w1, w2, q1, q2, g1, g2 \in W, p \in BOOLEAN :
  w1 * g1 * q1 * Num(w1, w2, q1, q2, g1, g2, p) * Den(w2, w1, q2, q1, g2, g1, p)
  = w2 * g2 * q2 * Num(w2, w1, q2, q1, g2, g1, p) * Den(w1, w2, q1, q2, g1, g2, p)
\* regimes updated side by side: with a factorising target the product kernel keeps the product target.
\* s[x][y]/d: transition numerators of one regime with symmetric proposals
Row(w1, w2, g1, g2, p) == [n |-> Num(w1, w2, 1, 1, g1, g2, p), d |-> Den(w1, w2, 1, 1, g1, g2, p)]
Inv2 == \A a1, a2, b1, b2 \in 1..2, g1, g2 \in 1..2, p \in BOOLEAN :
  LET A == Row(a1, a2, g1, g2, p) A2 == Row(a2, a1, g2, g1, p)      \* regime A moves from 1, from 2
      B == Row(b1, b2, 1, 1, p) B2 == Row(b2, b1, 1, 1, p)
      tA(x) == IF x = 1 THEN a1 * g1 ELSE a2 * g2
      tB(x) == IF x = 1 THEN b1 ELSE b2
      kA(x, y) == IF x = 1 THEN (IF y = 2 THEN A.n ELSE A.d - A.n) * A2.d ELSE (IF y = 1 THEN A2.n ELSE A2.d - A2.n) * A.d
      kB(x, y) == IF x = 1 THEN (IF y = 2 THEN B.n ELSE B.d - B.n) * B2.d ELSE (IF y = 1 THEN B2.n ELSE B2.d - B2.n) * B.d
      S(F(_, _)) == F(1, 1) + F(1, 2) + F(2, 1) + F(2, 2)
  IN \A y, v \in 1..2 :
       LET flow(x, uu) == tA(x) * tB(uu) * kA(x, y) * kB(uu, v)
       IN S(flow) = tA(y) * tB(v) * A.d * A2.d * B.d * B2.d
ASSUME Balanced
ASSUME Inv2
=============================================================================
