-------------------------------- MODULE Models --------------------------------
(***************************************************************************)
(* The shipped models, as drift and volatility of the diffusion on the     *)
(* scale on which the samplers work.  Everything else - primitive,         *)
(* derivative, rate, enclosures, path coordinates - follows from these two *)
(* and is what the code's separate ingredients have to agree with.         *)
(*                                                                         *)
(*   ou    plain   drift -t1 x, unit volatility, observed v = t2 x         *)
(*   cir   plain   drift a/x - b x with a = 2 t1 t2 / t3^2 - 1/2, b = t1/2,*)
(*                 unit volatility, observed v = (t3 x / 2)^2              *)
(*   sou   regime  drift -t1 x, volatility 1/t2                            *)
(*   sou2  regime  drift -t1 x, volatility t1/t2                           *)
(*   sou3  regime  drift -t1 t2 x, volatility t1                           *)
(* Values are fixed-point numbers (module Fixed).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Fixed

CirA(th) == Div(2 * Mul(th[1], th[2]), Sq(th[3])) - One \div 2
CirB(th) == Half(th[1])
Slope(m, th) == IF m = "sou3" THEN Mul(th[1], th[2]) ELSE th[1]

Drift(m, th, x) == IF m = "cir" THEN Div(CirA(th), x) - Mul(CirB(th), x) ELSE -Mul(Slope(m, th), x)
DriftD(m, th, x) == IF m = "cir" THEN -Div(Div(CirA(th), x), x) - CirB(th) ELSE -Slope(m, th)
Vol(m, th) == CASE m = "sou" -> Div(One, th[2]) [] m = "sou2" -> Div(th[1], th[2]) [] m = "sou3" -> th[1] [] OTHER -> One
\* drift over volatility, without dividing twice
Pull(m, th, x) == CASE m = "sou" -> Mul(Mul(th[1], x), th[2]) [] m = "sou2" -> Mul(th[2], x) [] m = "sou3" -> Mul(th[2], x)
                    [] OTHER -> Drift(m, th, x)
Rate(m, th, x) == Half(Sq(Pull(m, th, x)) + DriftD(m, th, x))
\* integral of the drift from x0 to x1
Prim(m, th, x0, x1) ==
  IF m = "cir" THEN Mul(CirA(th), Ln(x1) - Ln(x0)) - Half(Mul(CirB(th), Sq(x1) - Sq(x0)))
  ELSE -Half(Mul(Slope(m, th), Sq(x1) - Sq(x0)))
\* where the rate has its minimum inside the state space, if anywhere
CirC(th) == Sq(CirA(th)) - CirA(th)
Turning(m, th) == IF m = "cir" THEN IF CirC(th) > 1000 THEN <<Sqrt(Div(Sqrt(CirC(th)), CirB(th)))>> ELSE <<>> ELSE <<0>>
\* for two of them the rate is bounded below by its value there, otherwise (0 < a < 1) it is not bounded
Scale(m, th, v) == CASE m = "ou" -> Div(v, th[2]) [] m = "cir" -> Div(2 * Sqrt(v), th[3]) [] OTHER -> v
\* path value from its standard form
PathOf(m, th, T, x0, x1, s, z) == Mul(z, Mul(Sqrt(T), Vol(m, th))) + x0 + Mul(s, x1 - x0)

(***************************************************************************)
(* The same rates over the integers: parameters, standard values w and     *)
(* observations v in halves, rates in 1/128.  T = 1, v0 = v1.              *)
(***************************************************************************)
GRate(m, t1, t2, x) ==      \* at the path value x
  CASE m = "sou" -> (t1 * t2 * x) * (t1 * t2 * x) - 32 * t1
    [] m = "sou2" -> 4 * (t2 * x) * (t2 * x) - 32 * t1
    [] m = "sou3" -> 4 * (t2 * x) * (t2 * x) - 16 * t1 * t2
    [] m = "ou" -> 4 * (t1 * x) * (t1 * x) - 32 * t1
GPath(m, t1, t2, w, v) ==   \* at the path with standard value w and observations v
  CASE m = "sou" -> (t1 * (2 * w + t2 * v)) * (t1 * (2 * w + t2 * v)) - 32 * t1
    [] m = "sou2" -> 4 * (t1 * w + t2 * v) * (t1 * w + t2 * v) - 32 * t1
    [] m = "sou3" -> (t2 * (t1 * w + 2 * v)) * (t2 * (t1 * w + 2 * v)) - 16 * t1 * t2
\* extremes of the rate over a layer
GLow(m, t1, t2, le, ue) == GRate(m, t1, t2, IF le < 0 /\ 0 < ue THEN 0 ELSE Min2(Abs(le), Abs(ue)))
GUpp(m, t1, t2, le, ue) == GRate(m, t1, t2, Max2(Abs(le), Abs(ue)))
\* derivative bounds over the box of parameters below T1, T2 and paths within W, V, times half steps of the parameters
GGrad(m, T1, T2, W, V, i) ==
  CASE m = "sou" -> IF i = 1 THEN 2 * T1 * (2 * W + T2 * V) * (2 * W + T2 * V) + 32 ELSE 2 * T1 * T1 * (2 * W + T2 * V) * V
    [] m = "sou2" -> IF i = 1 THEN 8 * (T1 * W + T2 * V) * W + 32 ELSE 8 * (T1 * W + T2 * V) * V
    [] m = "sou3" -> IF i = 1 THEN 2 * T2 * T2 * (T1 * W + 2 * V) * W + 16 * T2 ELSE 2 * T2 * (T1 * W + 2 * V) * (T1 * W + 2 * V) + 16 * T1
===============================================================================
