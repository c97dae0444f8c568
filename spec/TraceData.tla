----------------------------- MODULE TraceData ------------------------------
(* Recorded executions of the implementation: a JSON file with a list of    *)
(* traces, each a header h and a list ev of events.                         *)
EXTENDS Json, IOUtils, TLC, Sequences, Naturals
Tr == JsonDeserialize(IOEnv.TRACE).traces
\* A failed clause is printed and the trace goes on: the verdict is total and
\* names what failed, and one failure does not hide later ones.
Report(t, l, bad) == \A f \in bad : PrintT(<<"@FAIL@", t, l, f>>)
Unless(p, name) == IF p THEN {} ELSE {name}
=============================================================================
