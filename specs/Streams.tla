------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* Random streams of a sweep whose sections are worked on in parallel.     *)
(*                                                                         *)
(* The parent spawns one stream per section before any work starts; the    *)
(* section draws from its own stream until it is content, whoever works on *)
(* it and whenever.  Number k of stream s is a fixed value Tape[s][k];     *)
(* how many numbers a section takes depends on the values it sees.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sections, Workers, Len0, Shared
\* Shared = TRUE describes the mistake of handing the parent's stream to all sections

Streams == IF Shared THEN {0} ELSE Sections
StreamOf(i) == IF Shared THEN 0 ELSE i
\* a section is content with a number that is 1, or with its last one
RECURSIVE Alone(_, _)
Alone(tape, k) == IF tape[k] = 1 \/ k = Len0 THEN <<tape[k]>> ELSE <<tape[k]>> \o Alone(tape, k + 1)
=============================================================================
