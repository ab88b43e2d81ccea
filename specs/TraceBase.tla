----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Conformance of recorded executions.  A trace specification defines      *)
(*   InitSt       the specification's state before a trace,                *)
(*   Step(st, e)  [st |-> next state, bad |-> set of violated clauses]     *)
(* Every event gets a total verdict: the names of the violated clauses are *)
(* reported and validation goes on with the observed state, so the rest of *)
(* the trace is judged too.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Fixed

Trace == ndJsonDeserialize(IOEnv.TRACE)

Chk(name, cond) == IF cond THEN {} ELSE {name}
Report(i, bad) == IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(i) \o " " \o ToJson(bad))
=============================================================================
