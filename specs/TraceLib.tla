------------------------------ MODULE TraceLib ------------------------------
(* Consuming a recorded trace: T is the sequence of observations (one JSON     *)
(* object per line of the file named by the environment variable TRACE).       *)
(* A trace specification defines a verdict for every observation ("" when the  *)
(* specification allows it, otherwise the name of the clause that fails) and   *)
(* reports it with Report; Done prints how much of the trace was consumed.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

Report(i, v) == IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", i, v>>)
Done(i) == IF i = Len(T) THEN PrintT(<<"DONE", Len(T)>>) ELSE TRUE

\* first failing clause of a sequence of <<name, holds>> pairs
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN ""
                ELSE IF Head(cs)[2] THEN FirstBad(Tail(cs)) ELSE Head(cs)[1]

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == /\ a # 2147483647 /\ b # 2147483647 /\ Abs(a - b) <= tol
=============================================================================
