-------------------------------- MODULE Fetch --------------------------------
(* Installing downloaded files. A call [k, srv, len, sha]: kind (file: always     *)
(* download; ensure: only when missing), what the server does, whether it          *)
(* announces the length, whether a hash is given. A file appears under its name     *)
(* in one step, with the complete content that was accepted, or not at all.         *)
EXTENDS Integers, Sequences, FiniteSets
Servers == {"full", "short", "cut", "wrong", "error", "reset", "interrupt"}
\* what arrives: short and cut end early (cut between, short within two reads), wrong is another file, the others fail
Got(c) == CASE c.srv = "full" -> "good" [] c.srv = "short" -> "short" [] c.srv = "cut" -> "cut" [] c.srv = "wrong" -> "wrong" [] OTHER -> "none"
Complete(c) == c.srv \in {"full", "wrong"} \/ (c.srv \in {"short", "cut"} /\ ~c.len)
Accepted(c) == Complete(c) /\ (c.sha => Got(c) = "good")
\* results a destination can have: what was there, or what some call accepted
Possible(init, cs) == {init} \cup {Got(cs[p]) : p \in {q \in 1 .. Len(cs) : Accepted(cs[q])}}
Cfg(k, srv, len, sha) == [k |-> k, srv |-> srv, len |-> len, sha |-> sha]
=============================================================================
