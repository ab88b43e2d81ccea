------------------------------ MODULE MC_Models ------------------------------
(* Enclosures and derivative bounds over whole grids in exact arithmetic, and the cases replayed on the code. *)
EXTENDS Models, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS TMax, XMax, Export
VARIABLE c
Linear == {"ou", "sou", "sou2", "sou3"}
Regime == {"sou", "sou2", "sou3"}
P == 1..TMax
X == (-XMax)..XMax
Layers == [k : {"layer"}, m : Linear, t1 : P, t2 : P, le : X, ue : X]
Grads == [k : {"grad"}, m : Regime, t1 : P, t2 : P, p1 : P, p2 : P, w : X, v : X]
Init == c \in {q \in Layers : q.le < q.ue} \/ c \in Grads
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Encloses == c.k = "layer" => \A x \in c.le..c.ue :
  GLow(c.m, c.t1, c.t2, c.le, c.ue) <= GRate(c.m, c.t1, c.t2, x) /\ GRate(c.m, c.t1, c.t2, x) <= GUpp(c.m, c.t1, c.t2, c.le, c.ue)
GlobalLow == c.k = "layer" => GRate(c.m, c.t1, c.t2, 0) <= GLow(c.m, c.t1, c.t2, c.le, c.ue)
Dominates == c.k = "grad" =>
  LET T1 == Max2(c.t1, c.p1) T2 == Max2(c.t2, c.p2) W == Abs(c.w) V == Abs(c.v) IN
  Abs(GPath(c.m, c.t1, c.t2, c.w, c.v) - GPath(c.m, c.p1, c.p2, c.w, c.v))
    <= Abs(c.t1 - c.p1) * GGrad(c.m, T1, T2, W, V, 1) + Abs(c.t2 - c.p2) * GGrad(c.m, T1, T2, W, V, 2)
\* the derivative bounds are not idle: halving the first one somewhere fails
ASSUME \A m \in Regime : \E t1, t2, p1 \in P : \E w, v \in X :
  Abs(GPath(m, t1, t2, w, v) - GPath(m, p1, t2, w, v)) * 2 > Abs(t1 - p1) * GGrad(m, Max2(t1, p1), t2, Abs(w), Abs(v), 1)
\* fixed-point and integer versions agree
ASSUME \A m \in Linear : \A t1, t2 \in P : \A x \in X :
  Near(Rate(m, <<t1 * 500000, t2 * 500000>>, x * 500000), (GRate(m, t1, t2, x) \div 128) * One + (((GRate(m, t1, t2, x) % 128) * 15625) \div 2), 40)
\* replayed: all layers with small parameters, a slice of the parameter changes
LayerCases == {q \in Layers : q.le < q.ue /\ q.t1 <= Export /\ q.t2 <= Export}
GradCases == {q \in Grads : q.t1 <= Export /\ q.t2 <= Export /\ q.p1 <= Export /\ q.p2 <= Export /\ (q.w + q.v + q.t1) % 2 = 0}
ASSUME ndJsonSerialize(IOEnv.WORK \o "/cases_layer.ndjson", SetToSeq(LayerCases))
ASSUME ndJsonSerialize(IOEnv.WORK \o "/cases_grad.ndjson", SetToSeq(GradCases))
==============================================================================
