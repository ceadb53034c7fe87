------------------------------- MODULE Archive -------------------------------
(* Archives of members; a call [a |-> archive, x |-> prefix, srv |-> server]        *)
(* unpacks the members under the prefix. When a call has returned, all of them are  *)
(* complete and stay so, whatever other calls do or whenever they are killed.       *)
EXTENDS Integers, Sequences, FiniteSets
\* archives: record, name and members; the names of the second and third begin alike
Archives == <<
   [rec |-> "11", name |-> "d.zip", m |-> {"data/a/x.bin", "data/a/y.txt", "data/a/sub/w.txt", "data/ab/t.txt", "data/b/z.txt", "top.txt"}],
   [rec |-> "11", name |-> "d.zip.e.zip", m |-> {"more/c/x.bin", "data/a/y.txt"}],
   [rec |-> "11", name |-> "e.zip", m |-> {"other/p.bin", "other/q.txt"}],
   [rec |-> "1", name |-> "1_e.zip", m |-> {"odd/p.bin"}] >>
\* members under each prefix of each archive ("" is everything)
Under(a, x) == LET M == Archives[a].m IN
    CASE x = "" -> M
      [] x \in {"data/a", "data/a/"} -> M \cap {"data/a/x.bin", "data/a/y.txt", "data/a/sub/w.txt"}
      [] x = "data/ab" -> M \cap {"data/ab/t.txt"}
      [] x = "data/b" -> M \cap {"data/b/z.txt"}
      [] x = "more/c" -> M \cap {"more/c/x.bin"}
      [] x = "other" -> M \cap {"other/p.bin", "other/q.txt"}
      [] x = "odd" -> M \cap {"odd/p.bin"}
      [] x = "none" -> {}
Files == {f \in UNION {Archives[a].m : a \in 1 .. Len(Archives)} : TRUE}
\* the content of a member is told apart by its archive: a member state is "absent", the number of the archive, or "other"
Good(srv) == srv = "full"
Call(a, x, srv) == [a |-> a, x |-> x, srv |-> srv]
=============================================================================
