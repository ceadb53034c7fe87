---------------------------- MODULE ProcessLists ----------------------------
(* Injection and physical processes: the distributions they hold, the particle *)
(* type they are for and the interactions they share. Two process slots and a   *)
(* small heap of interaction collections (collections are shared by copies).   *)
(* A distribution is a value; 1,2 are of one class and 3,4 of another.          *)
EXTENDS Integers, Sequences, FiniteSets

Distinct(s) == \A a, b \in 1 .. Len(s) : a # b => s[a] # s[b]
InSeq(v, s) == \E k \in 1 .. Len(s) : s[k] = v

\* a process: inj (empty for physical processes), phys, type, coll (0: none)
NewProcess(t) == [inj |-> <<>>, phys |-> <<>>, type |-> t, coll |-> 0]
\* st: [p : two processes, c : type of every collection created so far]
InitState == [p |-> <<NewProcess(1), NewProcess(2)>>, c |-> <<>>]

\* the outcome of one operation: <<refused, new state>>
Add(kind, pr, v) == IF kind = "phys" THEN [pr EXCEPT !.phys = Append(@, v)]
                    ELSE [pr EXCEPT !.inj = Append(@, v), !.phys = Append(@, v)]
SetAll(kind, pr, s) == IF kind = "phys" THEN [pr EXCEPT !.phys = s] ELSE [pr EXCEPT !.inj = s, !.phys = s]
List(kind, pr) == IF kind = "phys" THEN pr.phys ELSE pr.inj
Other(k) == 3 - k

Refused(kind, st, o) ==
    CASE o.op = "add" -> InSeq(o.v, List(kind, st.p[o.k]))
      [] o.op = "set" -> ~Distinct(o.s)
      [] o.op = "addphys" -> kind # "phys" \/ InSeq(o.v, st.p[o.k].phys)
      [] OTHER -> FALSE
Step(kind, st, o) ==
    IF Refused(kind, st, o) THEN st
    ELSE CASE o.op = "add" -> [st EXCEPT !.p[o.k] = Add(kind, @, o.v)]
           [] o.op = "addphys" -> [st EXCEPT !.p[o.k] = Add(kind, @, o.v)]
           [] o.op = "set" -> [st EXCEPT !.p[o.k] = SetAll(kind, @, o.s)]
           [] o.op \in {"copy", "assign", "moveassign"} -> [st EXCEPT !.p[Other(o.k)] = st.p[o.k]]
           [] o.op = "type" -> [p |-> [st.p EXCEPT ![o.k].type = o.v],
                                c |-> IF st.p[o.k].coll = 0 THEN st.c ELSE [st.c EXCEPT ![st.p[o.k].coll] = o.v]]
           [] o.op = "coll" -> [p |-> [st.p EXCEPT ![o.k].coll = Len(st.c) + 1, ![o.k].type = o.v], c |-> Append(st.c, o.v)]
           [] o.op = "reload" -> IF st.p[o.k].coll = 0 THEN st
                                 ELSE [p |-> [st.p EXCEPT ![o.k].coll = Len(st.c) + 1], c |-> Append(st.c, st.c[st.p[o.k].coll])]
           [] OTHER -> st
CollType(st, k) == IF st.p[k].coll = 0 THEN 0 ELSE st.c[st.p[k].coll]
Equal(st) == st.p[1].type = st.p[2].type /\ st.p[1].coll = st.p[2].coll
=============================================================================
