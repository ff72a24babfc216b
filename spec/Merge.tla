-------------------------------- MODULE Merge --------------------------------
(* C04: metadata persists, and updates follow the merge rules.
   k is what is at the path (nothing, a placeholder, a file, a directory), m its record:
   for every field 0 (missing) or which of some values it has.  c is the content of the
   file.  Whatever handle asks afterwards reads m. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Fields, Values, Contents, OpNames, MaxOps, Plain
VARIABLES s, last

AllFields == {"id", "name", "size", "created", "updated", "checksum", "checksum_cypher", "etag", "chunksize", "multi",
              "parent_id", "file_id", "old_id", "gid", "user_id", "mode", "errors"}
\* fields that show that the object itself is another one
Telling == {"created", "updated", "size", "checksum", "file_id"}
None == [f \in AllFields |-> 0]
\* the values that are varied, the rest is missing or, with Plain, has its first value
Full(g) == [f \in AllFields |-> IF f \in Fields THEN g[f] ELSE IF Plain \/ f = "id" THEN 1 ELSE 0]
Bare(g) == [f \in AllFields |-> IF f \in Fields THEN g[f] ELSE IF f = "id" THEN 1 ELSE 0]
Given == {g \in [Fields -> {0} \cup Values] : "id" \in Fields => g["id"] # 0}
Init == /\ s \in {[k |-> k, m |-> m, c |-> 0] : k \in Kinds, m \in {Full(g) : g \in Given} \cup {None}}
        /\ s.k = "none" => s.m = None
        /\ s.k = "link" => s.m # None
        /\ last = [op |-> "init", res |-> "init"]

Changed(o, n) == \E f \in Telling : o[f] # 0 /\ n[f] # 0 /\ o[f] # n[f]
Merge(o, n) ==
  IF o = None THEN n
  ELSE [f \in AllFields |->
          IF n[f] # 0 THEN n[f]
          ELSE IF f = "old_id" THEN (IF o["id"] # n["id"] THEN o["id"] + 10 ELSE o[f])
          ELSE IF Changed(o, n) THEN 0 ELSE o[f]]

\* which of two records stays in a placeholder (C05)
Later(a, b) == IF a = 0 \/ b = 0 THEN "none" ELSE IF a < b THEN "new" ELSE IF a > b THEN "old" ELSE "same"
Newer(o, n) == IF Later(o["updated"], n["updated"]) = "same" THEN Later(o["created"], n["created"])
               ELSE Later(o["updated"], n["updated"])
Wins(o, n) == /\ o["id"] # n["id"] => Newer(o, n) = "new"
              /\ ~(o["size"] # 0 /\ n["size"] = 0)

O(r, st) == {[res |-> r, post |-> st]}
Put(st, n) ==
  IF st.k = "link" /\ st.m # None /\ ~Wins(st.m, n)
  THEN O("done", st) \cup (IF st.m["id"] # n["id"] /\ Newer(st.m, n) = "none" THEN O("refused", st) ELSE {})
  ELSE O("done", [st EXCEPT !.m = n, !.k = IF @ = "none" THEN "link" ELSE @])
Outcomes(st, op) ==
  CASE op.op = "set" -> Put(st, op.m)
    [] op.op = "update" -> Put(st, Merge(st.m, op.m))
    [] op.op = "read" -> O("agree", st)
    \* the data is written anew
    [] op.op = "data" -> O("done", [st EXCEPT !.c = op.c])
    [] OTHER -> {}
NoOp == [op |-> "", m |-> None, c |-> 0, via |-> ""]
Ops(st) == {op \in {[NoOp EXCEPT !.op = o, !.m = Bare(g)] : o \in {"set", "update"}, g \in Given}
                   \cup {[NoOp EXCEPT !.op = "data", !.c = c] : c \in Contents}
                   \cup {[NoOp EXCEPT !.op = "read"]} :
              /\ op.op \in OpNames
              /\ op.op = "data" => st.k = "file" /\ st.m # None
              /\ op.op = "read" => st.m # None
              /\ op.op = "set" => st.k \in {"file", "dir"} /\ st.m # None}
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
\* what an update brings is there afterwards (unless a placeholder keeps its newer record)
Brings == [][(last'.op.op = "update" /\ s.k # "link" /\ s.k # "none") =>
              \A f \in AllFields : last'.op.m[f] # 0 => s'.m[f] = last'.op.m[f]]_<<s, last>>
\* without a sign of change nothing is lost
Carried == [][(last'.op.op = "update" /\ ~Changed(s.m, last'.op.m)) =>
               \A f \in AllFields : s.m[f] # 0 => s'.m[f] # 0]_<<s, last>>
\* a changed object does not keep what was said about the old one
Dropped == [][(last'.op.op = "update" /\ s.k \in {"file", "dir"} /\ Changed(s.m, last'.op.m)) =>
               \A f \in AllFields \ {"old_id"} : last'.op.m[f] = 0 => s'.m[f] = 0]_<<s, last>>
DataKeepsMeta == [][last'.op.op \in {"data", "read"} => s'.m = s.m]_<<s, last>>
Idempotent == \A g \in Given : Merge(Merge(s.m, Bare(g)), Bare(g)) = Merge(s.m, Bare(g))
=============================================================================
