------------------------------- MODULE MC_Gauss -------------------------------
EXTENDS Gauss, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS TMax, XMax, N
VARIABLE c
Vals == (-XMax)..XMax
Incr(k, T) == {t \in [1..k -> 1..(T - 1)] : \A i \in 1..(k - 1) : t[i] < t[i + 1]}
Cases == UNION {[t : Incr(k, T), T : {T}, x0 : Vals, x1 : Vals, mu : Vals] : <<k, T>> \in (1..N) \X (2..TMax)}
Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
K == Len(c.t)
\* the bridge is the process conditioned on its end, whatever the drift
BridgeIsConditioned == Given(Wiener(Append(c.t, c.T), c.x0, c.mu), <<c.x1, 1>>) = Bridge(c.t, c.T, c.x0, c.x1)
\* conditioning on one more point leaves a shorter bridge
Nested == K >= 2 => \A x \in Vals : Given(Bridge(c.t, c.T, c.x0, c.x1), <<x, 1>>) = Bridge(SubSeq(c.t, 1, K - 1), c.t[K], c.x0, x)
Markov == \A m \in {Bridge(c.t, c.T, c.x0, c.x1).cov, Wiener(c.t, c.x0, c.mu).cov} :
            \A i \in 1..K, j \in 1..K, k \in 1..K : i <= j /\ j <= k => RMul(m[i][k], m[j][j]) = RMul(m[i][j], m[j][k])
Reversed == LET r == [i \in 1..K |-> c.T - c.t[K + 1 - i]] a == Bridge(c.t, c.T, c.x0, c.x1) b == Bridge(r, c.T, c.x1, c.x0) IN
  \A i \in 1..K : b.mean[i] = a.mean[K + 1 - i] /\ \A j \in 1..K : b.cov[i][j] = a.cov[K + 1 - i][K + 1 - j]
Positive == \A i \in 1..K : Bridge(c.t, c.T, c.x0, c.x1).cov[i][i][1] > 0
ASSUME ndJsonSerialize(IOEnv.WORK \o "/cases_gauss.ndjson", SetToSeq(Cases))
================================================================================
