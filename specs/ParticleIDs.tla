---------------------------- MODULE ParticleIDs ----------------------------
(* Issuing particle identities (major, minor) from several threads of several  *)
(* processes related by fork.  One action per atomic operation or critical     *)
(* section boundary of the generator.  ResetFirst = FALSE is the order of the  *)
(* original code (pid published before the counters are reset), which TLC      *)
(* refutes; TRUE is the repaired order.                                        *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NProcs, Threads, MaxCalls, ResetFirst
Procs == 1 .. NProcs
VARIABLES alive, lastpid, major, minor, lock, pc, seen, tmp, calls, issued, dup, genmaj
vars == <<alive, lastpid, major, minor, lock, pc, seen, tmp, calls, issued, dup, genmaj>>
\* majors: 0 none, otherwise the process that generated it (hash of time, pid and host)
Free == "free"
Init == /\ alive = {1} /\ lastpid = [p \in Procs |-> 0] /\ major = [p \in Procs |-> 0]
        /\ minor = [p \in Procs |-> 0] /\ lock = [p \in Procs |-> Free]
        /\ pc = [p \in Procs |-> [t \in Threads |-> "idle"]]
        /\ seen = [p \in Procs |-> [t \in Threads |-> 0]] /\ tmp = [p \in Procs |-> [t \in Threads |-> 0]]
        /\ calls = [p \in Procs |-> 0] /\ issued = {} /\ dup = FALSE /\ genmaj = {}
Go(p, t, l) == pc' = [pc EXCEPT ![p][t] = l]
U(x) == UNCHANGED x
Call(p, t) == /\ pc[p][t] = "idle" /\ calls[p] < MaxCalls
              /\ calls' = [calls EXCEPT ![p] = @ + 1]
              \* load of the last pid
              /\ Go(p, t, IF lastpid[p] = p THEN "major" ELSE "lock1")
              /\ U(<<alive, lastpid, major, minor, lock, seen, tmp, issued, dup, genmaj>>)
Lock1(p, t) == /\ pc[p][t] = "lock1" /\ lock[p] = Free /\ lock' = [lock EXCEPT ![p] = t]
               /\ Go(p, t, IF lastpid[p] = p THEN "unlock1" ELSE IF ResetFirst THEN "resetmaj" ELSE "storepid")
               /\ U(<<alive, lastpid, major, minor, seen, tmp, calls, issued, dup, genmaj>>)
StorePid(p, t) == /\ pc[p][t] = "storepid" /\ lastpid' = [lastpid EXCEPT ![p] = p]
                  /\ Go(p, t, IF ResetFirst THEN "unlock1" ELSE "resetmaj")
                  /\ U(<<alive, major, minor, lock, seen, tmp, calls, issued, dup, genmaj>>)
ResetMaj(p, t) == /\ pc[p][t] = "resetmaj" /\ major' = [major EXCEPT ![p] = 0] /\ Go(p, t, "resetmin")
                  /\ U(<<alive, lastpid, minor, lock, seen, tmp, calls, issued, dup, genmaj>>)
ResetMin(p, t) == /\ pc[p][t] = "resetmin" /\ minor' = [minor EXCEPT ![p] = 0]
                  /\ Go(p, t, IF ResetFirst THEN "storepid" ELSE "unlock1")
                  /\ U(<<alive, lastpid, major, lock, seen, tmp, calls, issued, dup, genmaj>>)
Unlock1(p, t) == /\ pc[p][t] = "unlock1" /\ lock' = [lock EXCEPT ![p] = Free] /\ Go(p, t, "major")
                 /\ U(<<alive, lastpid, major, minor, seen, tmp, calls, issued, dup, genmaj>>)
LoadMaj(p, t) == /\ pc[p][t] = "major" /\ Go(p, t, IF major[p] = 0 THEN "lock2" ELSE "take")
                 /\ U(<<alive, lastpid, major, minor, lock, seen, tmp, calls, issued, dup, genmaj>>)
Lock2(p, t) == /\ pc[p][t] = "lock2" /\ lock[p] = Free /\ lock' = [lock EXCEPT ![p] = t]
               /\ Go(p, t, IF major[p] = 0 THEN "gen" ELSE "unlock2")
               /\ U(<<alive, lastpid, major, minor, seen, tmp, calls, issued, dup, genmaj>>)
Gen(p, t) == /\ pc[p][t] = "gen" /\ major' = [major EXCEPT ![p] = p] /\ genmaj' = genmaj \cup {p} /\ Go(p, t, "unlock2")
             /\ U(<<alive, lastpid, minor, lock, seen, tmp, calls, issued, dup>>)
Unlock2(p, t) == /\ pc[p][t] = "unlock2" /\ lock' = [lock EXCEPT ![p] = Free] /\ Go(p, t, "take")
                 /\ U(<<alive, lastpid, major, minor, seen, tmp, calls, issued, dup, genmaj>>)
Take(p, t) == /\ pc[p][t] = "take" /\ tmp' = [tmp EXCEPT ![p][t] = major[p]] /\ Go(p, t, "count")
              /\ U(<<alive, lastpid, major, minor, lock, seen, calls, issued, dup, genmaj>>)
Count(p, t) == /\ pc[p][t] = "count" /\ minor' = [minor EXCEPT ![p] = @ + 1]
               /\ LET id == <<tmp[p][t], minor[p]>> IN /\ dup' = (dup \/ id \in issued \/ id[1] = 0)
                                                       /\ issued' = issued \cup {id}
               /\ Go(p, t, "idle")
               /\ U(<<alive, lastpid, major, lock, seen, tmp, calls, genmaj>>)
\* fork: the child starts with the parent's memory and one thread; not while the lock is held
Fork(p, q) == /\ p \in alive /\ q \notin alive /\ \A r \in Procs : r < q => r \in alive
              /\ lock[p] = Free
              /\ alive' = alive \cup {q}
              /\ lastpid' = [lastpid EXCEPT ![q] = lastpid[p]] /\ major' = [major EXCEPT ![q] = major[p]]
              /\ minor' = [minor EXCEPT ![q] = minor[p]]
              /\ U(<<lock, pc, seen, tmp, calls, issued, dup, genmaj>>)
Next == \/ \E p, q \in Procs : Fork(p, q)
        \/ \E p \in alive, t \in Threads : \/ Call(p, t) \/ Lock1(p, t) \/ StorePid(p, t) \/ ResetMaj(p, t) \/ ResetMin(p, t)
             \/ Unlock1(p, t) \/ LoadMaj(p, t) \/ Lock2(p, t) \/ Gen(p, t) \/ Unlock2(p, t) \/ Take(p, t) \/ Count(p, t)
Unique == ~dup
=============================================================================
