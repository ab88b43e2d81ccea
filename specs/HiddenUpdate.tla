----------------------------- MODULE HiddenUpdate -----------------------------
(***************************************************************************)
(* One update of the hidden path.  Every section between conditioning      *)
(* times is kept or taken from the proposal; what was revealed of the      *)
(* chosen paths stays revealed.                                            *)
(* In a section seen from outside, z is a sequence of sets of revealed     *)
(* points (one per interval).                                              *)
(***************************************************************************)
EXTENDS Hidden

Grown(z, r) == Len(z) = Len(r) /\ \A k \in DOMAIN z : z[k] \subseteq r[k]
TakenFrom(sec, res) == sec.t = res.t /\ sec.y = res.y /\ sec.v = res.v /\ Grown(sec.z, res.z)

\* the accepted hidden state is made of whole sections; acc: which ones were replaced (any explanation will do)
Explains(nil, prime, res, acc) ==
  LET picked == Paste([k \in DOMAIN nil |-> IF acc[k] THEN prime[k] ELSE nil[k]])
  IN TakenFrom(picked, res)
\* sections of the result itself, cut at the conditioning times: each from one of the two
SectionsOk(nil, prime, res) ==
  /\ Len(res) = Len(nil)
  /\ \A k \in DOMAIN nil : TakenFrom(nil[k], res[k]) \/ TakenFrom(prime[k], res[k])
Replacements(nil, prime, res) == {k \in DOMAIN nil : ~TakenFrom(nil[k], res[k])}
=============================================================================
