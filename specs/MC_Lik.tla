-------------------------------- MODULE MC_Lik --------------------------------
(* Exact theorems about segments and observations, over the rationals. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS SMax, XMax, N
VARIABLE c
\* rational numbers as pairs in lowest terms with positive denominator
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
A(n) == IF n < 0 THEN -n ELSE n
R(n, d) == LET g == Gcd(A(n), d) IN <<n \div g, d \div g>>
Add(p, q) == R(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
Neg(p) == <<-p[1], p[2]>>
Mult(p, q) == LET a == R(p[1], q[2]) b == R(q[1], p[2]) IN <<a[1] * b[1], a[2] * b[2]>>
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN <<0, 1>> ELSE Add(Head(s), Total(Tail(s)))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN <<1, 1>> ELSE Mult(Head(s), Prod(Tail(s)))
\* segments with variances s[i] and values x[0..n]
Init == c \in UNION {[s : [1..n -> 1..SMax], x : [1..(n + 1) -> (-XMax)..XMax]] : n \in 2..N}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Segs == DOMAIN c.s
Before(i) == Sum(SubSeq(c.s, 1, i - 1))
All == Sum(c.s)
End == c.x[Len(c.x)]
D(i) == c.x[i + 1] - c.x[i]
Energy == Total([i \in Segs |-> R(D(i) * D(i), c.s[i])])
ObsEnergy == R((End - c.x[1]) * (End - c.x[1]), All)
\* the hidden values in turn, each given the one before and the end: mean and variance
Left(i) == All - Before(i)
MeanGap(i) == Add(<<D(i), 1>>, Neg(R((End - c.x[i]) * c.s[i], Left(i))))
CondVar(i) == R(c.s[i] * (Left(i) - c.s[i]), Left(i))
Hidden == 1..(Len(c.s) - 1)
\* segments = observation + bridge of the hidden values, in energies and in variances: what the second component stands for
BridgeEnergy == Add(Energy, Neg(ObsEnergy)) = Total([i \in Hidden |-> Mult(Mult(MeanGap(i), MeanGap(i)), <<CondVar(i)[2], CondVar(i)[1]>>)])
BridgeVariance == Prod([i \in Segs |-> <<c.s[i], 1>>]) = Mult(<<All, 1>>, Prod([i \in Hidden |-> CondVar(i)]))
Convex == Add(Energy, Neg(ObsEnergy))[1] >= 0
\* cutting at observations: the energies of the sections add up for every cut
Cut == \A k \in 1..(Len(c.s) - 1) : Add(Total([i \in 1..k |-> R(D(i) * D(i), c.s[i])]),
        Total([i \in 1..(Len(c.s) - k) |-> R(D(i + k) * D(i + k), c.s[i + k])])) = Energy
================================================================================
