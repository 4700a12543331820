----------------------------- MODULE TraceBase ------------------------------
(* Reading a recorded trace (ndjson, one event per line, file named by environment variable TRACE) and
   reporting the events the specification does not allow.  Every trace specification consumes the whole
   trace, one line per step, and prints DONE with the number of lines consumed. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)

\* Sequence of the names of the violated conditions; conds is a sequence of <<holds, name>>.
Violated(conds) ==
  LET bad == SelectSeq(conds, LAMBDA c : ~c[1]) IN [j \in DOMAIN bad |-> bad[j][2]]

Report(l, why) == why # << >> => PrintT("@FAIL " \o ToJson([l |-> l, why |-> why]))
Done(l) == l = TraceLen => PrintT("@DONE " \o ToJson([n |-> l]))
Range(s) == {s[j] : j \in DOMAIN s}
=============================================================================
