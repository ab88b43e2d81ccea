------------------------------ MODULE MC_Joint ------------------------------
(***************************************************************************)
(* A law over joint states is the state of this machine; every action      *)
(* sends it through the kernel of one of the three updates of a sweep, in  *)
(* any order.  Fixed: the joint law of the model is never left.  Laws are  *)
(* integer weights over a common total; a kernel is applied exactly and    *)
(* the result brought to lowest terms.                                     *)
(***************************************************************************)
EXTENDS Joint
CONSTANTS D,         \* chances of moving are multiples of 1/D
          Gens,      \* number of generators in play
          LMax,      \* likelihoods are 1..LMax
          Depth, Deep
VARIABLES law, inst, n, weighted

GenList == <<<<1, 2>>, <<2, 1>>, <<1, 1>>>>
G == TLCEval(1..Gens)
\* joint state: generator, first regime, second regime, parameter value (1 or 2)
States == TLCEval({<<g, a, b, c>> : g \in G, a \in Reg, b \in Reg, c \in Reg})
\* the prior of a generator is a weight; the likelihood of the data depends on regimes and parameter
Lik == TLCEval([Reg -> [Reg -> 1..LMax]])
L(I, s) == IF s[2] = s[3] THEN I.l[s[2]][s[4]] ELSE 1 + ((s[2] + s[4]) % 2)
GCD[a \in Nat, b \in Nat] == IF b = 0 THEN a ELSE GCD[b, a % b]
RECURSIVE GcdOf(_, _)
GcdOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN GCD[f[x], GcdOf(f, S \ {x})]
Norm(f) == LET h == GcdOf(f, States) IN TLCEval([s \in States |-> f[s] \div h])
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
GS(g) == GenList[g][1] + GenList[g][2]
\* weights of the target: prior(gen) stat(first) move lik; over the product of the sums GS
RECURSIVE ProdGS(_)
ProdGS(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN GS(x) * ProdGS(S \ {x})
PG == TLCEval([g \in G |-> ProdGS(G \ {g})])
Path(g, a, b) == Move(D, GenList[g], a, b)
Target(I) == TLCEval(Norm([s \in States |-> I.w[s[1]] * PG[s[1]] * Stat(GenList[s[1]], s[2]) * Path(s[1], s[2], s[3]) * L(I, s)]))

(* generator: proposed from its conditional given the path without the weight of the first regime, taken with
   chance min(1, ratio of those weights).  Written with common denominators. *)
Cond(I, a, b) == TLCEval([g \in G |-> I.w[g] * Path(g, a, b)])
St(g, a) == PG[g] * Stat(GenList[g], a)
TopSt == TLCEval(ProdGS(G) * 2)
GenKernel(I, wt, s, g2) ==         \* numerator of the chance of going from s to generator g2, over Sum Cond * Top
  LET c == Cond(I, s[2], s[3])
      tot == SumOver(c, G)
      up(h) == IF ~wt THEN [n |-> 1, d |-> 1]
               ELSE IF St(h, s[2]) >= St(s[1], s[2]) THEN [n |-> 1, d |-> 1] ELSE [n |-> St(h, s[2]), d |-> St(s[1], s[2])]
  IN <<c[g2], tot, up(g2)>>
\* all denominators that can occur divide Den
RECURSIVE Lcm(_)
Lcm(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE m == Lcm(S \ {x}) IN (x \div GCD[x, m]) * m
GenStep(I, wt, f) ==
  LET Dens == TLCEval({SumOver(Cond(I, a, b), G) * St(g, a) : a \in Reg, b \in Reg, g \in G})
      M == TLCEval(Lcm(Dens))
      go(s, g2) == LET k == GenKernel(I, wt, s, g2) IN (M \div (k[2] * k[3].d)) * k[1] * k[3].n
      stay(s) == M - SumOver(TLCEval([g2 \in G |-> IF g2 = s[1] THEN 0 ELSE go(s, g2)]), G)
      into(s) == SumOver(TLCEval([g0 \in G |-> LET r == <<g0, s[2], s[3], s[4]>> IN
                            f[r] * (IF g0 = s[1] THEN stay(r) ELSE go(r, s[1]))]), G)
  IN Norm([s \in States |-> into(s)])

\* parameter: the other value is proposed, taken with w' / (w + w')
ParStep(I, f) ==
  LET other(s) == [s EXCEPT ![4] = 3 - s[4]]
      tot(s) == L(I, s) + L(I, other(s))
      M == TLCEval(Lcm({tot(s) : s \in States}))
  IN Norm([s \in States |-> (f[s] + f[other(s)]) * (M \div tot(s)) * L(I, s)])

\* path: proposed from the process given what is kept (nothing, the first or the second regime), taken with L' / (L + L')
PathStep(I, keep, f) ==
  LET free(s) == {<<s[1], a, b, s[4]>> : a \in (IF keep = 1 THEN {s[2]} ELSE Reg), b \in (IF keep = 2 THEN {s[3]} ELSE Reg)}
      pr(s) == Stat(GenList[s[1]], s[2]) * Path(s[1], s[2], s[3])
      all(s) == SumOver(TLCEval([r \in free(s) |-> pr(r)]), free(s))
      M == TLCEval(Lcm({all(s) * (L(I, r) + L(I, s)) : s \in States, r \in States}))
      go(s, r) == (M \div (all(s) * (L(I, r) + L(I, s)))) * pr(r) * L(I, r)
      stay(s) == M - SumOver(TLCEval([r \in free(s) |-> IF r = s THEN 0 ELSE go(s, r)]), free(s))
      into(s) == SumOver(TLCEval([r \in free(s) |-> f[r] * (IF r = s THEN stay(s) ELSE go(r, s))]), free(s))
  IN Norm([s \in States |-> into(s)])

Insts == {[w |-> w, l |-> l] : w \in [G -> 1..2], l \in IF Deep THEN Lik ELSE {m \in Lik : m[1][1] = 1 /\ m[2][2] = 1}}
Init == /\ inst \in Insts /\ n = 0 /\ law = Target(inst) /\ weighted \in BOOLEAN
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<inst, weighted>>
        /\ \/ law' = GenStep(inst, weighted, law)
           \/ law' = ParStep(inst, law)
           \/ \E keep \in 0..2 : law' = PathStep(inst, keep, law)
vars == <<law, inst, n, weighted>>
Spec == Init /\ [][Next]_vars
Fixed == weighted => law = Target(inst)
Total == SumOver(law, States) > 0
\* leaving the weight of the first regime out of the generator update moves the law
ASSUME LET I == [w |-> [g \in G |-> 1], l |-> [a \in Reg |-> [c \in Reg |-> 1]]] IN GenStep(I, FALSE, Target(I)) # Target(I)
\* so does a sweep whose path update still works under the parameter the sweep came with
StaleStep(I, f) ==
  LET free(s) == {<<s[1], a, b, s[4]>> : a \in Reg, b \in Reg}
      pr(s) == Stat(GenList[s[1]], s[2]) * Path(s[1], s[2], s[3])
      all(s) == SumOver(TLCEval([r \in free(s) |-> pr(r)]), free(s))
      other(s) == [s EXCEPT ![4] = 3 - s[4]]
      M == TLCEval(Lcm({all(s) * (L(I, r) + L(I, s)) : s \in States, r \in States}))
      N == TLCEval(Lcm({L(I, s) + L(I, other(s)) : s \in States}))
      go(s, r) == (M \div (all(s) * (L(I, r) + L(I, s)))) * pr(r) * L(I, r)
      path(s, r) == IF r = s THEN M - SumOver(TLCEval([q \in free(s) |-> IF q = s THEN 0 ELSE go(s, q)]), free(s)) ELSE go(s, r)
      par(s, c) == (N \div (L(I, s) + L(I, other(s)))) * L(I, [s EXCEPT ![4] = c])
      into(r) == LET from == {s \in States : s[1] = r[1]} IN
                 SumOver(TLCEval([s \in from |-> f[s] * par(s, r[4]) * path(s, [r EXCEPT ![4] = s[4]])]), from)
  IN Norm([r \in States |-> into(r)])
ASSUME LET I == [w |-> [g \in G |-> 1], l |-> [a \in Reg |-> [c \in Reg |-> IF a = c THEN 2 ELSE 1]]] IN StaleStep(I, Target(I)) # Target(I)
=============================================================================
