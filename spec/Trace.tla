------------------------------- MODULE Trace -------------------------------
(* Records made by running the implementation, one JSON object per line.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Events == ndJsonDeserialize(IOEnv.TRACE)

\* names of the clauses that do not hold
Failed(clauses) == SelectSeq(clauses, LAMBDA c : ~c[2])
Verdict(id, clauses) ==
  LET f == Failed(clauses)
  IN IF f = <<>> THEN PrintT("ACCEPT " \o id)
     ELSE PrintT("REJECT " \o id \o FoldLeft(LAMBDA a, c : a \o " " \o c[1], "", f))
Has(r, f) == f \in DOMAIN r
============================================================================
