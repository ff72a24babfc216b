-------------------------------- MODULE Fresh --------------------------------
(* C15: the metadata of a local path describes the file as it is now.
   p is what is at the path: nothing, a file (n symbols of variant v of the content,
   mode m, modified at t, owner o), a link to such a file, a directory or a dangling
   link.  trail is the history so far (path objects remember what they reported). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Inits, Objs, Forms, Changes, Lens, Variants, MaxOps, KeepTrail
VARIABLES s, last

At(k, n, v, m, t, o) == [k |-> k, n |-> n, v |-> v, m |-> m, t |-> t, o |-> o]
Nothing(k) == At(k, 0, 0, 0, 0, 0)
Start(i) == IF i \in {"absent", "dir", "dangling"} THEN Nothing(i) ELSE At(i, 1, 1, 0, 1, 0)
Init == /\ s \in {[k |-> k, init |-> i, p |-> Start(i), trail |-> <<>>] : k \in {"plain", "cached", "relative"}, i \in Inits}
        /\ last = [op |-> "init", res |-> "init"]

RECURSIVE Parts(_, _)
Parts(n, c) == IF n = 0 THEN <<>> ELSE IF n <= c THEN <<n>> ELSE <<c>> \o Parts(n - c, c)
IsFile(p) == p.k \in {"file", "link"}
PartSize(f) == CASE f = "tag1" -> 1 [] f = "tag2" -> 2 [] OTHER -> 0
Text(p, sum, tag) == ToString(<<p.n, p.m, p.t, p.o, sum, tag>>)
SumOf(p) == <<p.n, p.v>>
\* what may be reported: what was not asked for may be there if it is right
Reports(p, form) ==
  IF ~IsFile(p) THEN {p.k}
  ELSE IF form = "size" THEN {ToString(p.n)}
  ELSE IF form = "created" THEN {ToString(p.t)}
  ELSE LET sums == IF form = "nosum" THEN {<<>>, SumOf(p)} ELSE {SumOf(p)}
           tags == IF PartSize(form) > 0 THEN {<<PartSize(form), Parts(p.n, PartSize(form))>>}
                   ELSE {<<>>} \cup {<<c, Parts(p.n, c)>> : c \in {1, 2}}
       IN {Text(p, x, y) : x \in sums, y \in tags}

Done(st, op, p) == [st EXCEPT !.p = p, !.trail = IF KeepTrail THEN Append(@, op) ELSE @]
O(rs, st) == {[res |-> r, post |-> st] : r \in rs}
Outcomes(st, op) ==
  LET p == st.p IN
  CASE op.op = "ask" -> O(Reports(p, op.form), Done(st, op, p))
    \* the content changes in place; keep: the time of modification is put back
    [] op.op = "write" -> O({"done"}, Done(st, op, [p EXCEPT !.n = op.n, !.v = op.v, !.t = IF op.keep THEN @ ELSE 1]))
    \* another file takes the place, with the same time of modification
    [] op.op = "replace" -> O({"done"}, Done(st, op, [p EXCEPT !.k = "file", !.n = op.n, !.v = op.v]))
    [] op.op = "chmod" -> O({"done"}, Done(st, op, [p EXCEPT !.m = 1 - @]))
    [] op.op = "chown" -> O({"done"}, Done(st, op, [p EXCEPT !.o = 1 - @]))
    [] op.op = "touch" -> O({"done"}, Done(st, op, [p EXCEPT !.t = 3 - @]))
    [] op.op = "unlink" -> O({"done"}, Done(st, op, Nothing("absent")))
    [] op.op = "create" -> O({"done"}, Done(st, op, At("file", op.n, op.v, 0, 1, 0)))
    \* time passes
    [] op.op = "wait" -> O({"done"}, Done(st, op, p))
    [] OTHER -> {}

NoOp == [op |-> "", obj |-> "", form |-> "", n |-> 0, v |-> 0, keep |-> FALSE]
Ops(st) ==
  {op \in {[NoOp EXCEPT !.op = "ask", !.obj = a, !.form = f] : a \in Objs, f \in Forms}
          \cup {[NoOp EXCEPT !.op = c, !.n = n, !.v = v, !.keep = k] :
                   c \in Changes \cap {"write", "replace", "create"}, n \in Lens, v \in Variants, k \in BOOLEAN}
          \cup {[NoOp EXCEPT !.op = c] : c \in Changes \ {"write", "replace", "create"}} :
     /\ op.op \in {"write", "replace", "chmod", "chown", "touch"} => IsFile(st.p)
     /\ op.op \in {"replace", "create"} => ~op.keep
     /\ op.op = "create" => st.p.k = "absent"
     /\ op.op \in {"unlink"} => st.p.k \in {"file", "link", "dangling"}
     /\ op.op = "ask" /\ op.form \in {"size", "created"} => IsFile(st.p)
     /\ op.n = 0 => op.v \in {0, 1}
     /\ op.op = "wait" => (st.trail # <<>> /\ st.trail[Len(st.trail)].op # "wait")}
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == last'.op.op # "ask" \/ PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
AskingKeeps == [][last'.op.op = "ask" => s'.p = s.p]_<<s, last>>
\* the answer depends on what is there and what is asked, not on the history
HistoryFree == [][last'.op.op = "ask" => last'.res \in Reports(s.p, last'.op.form)]_<<s, last>>
AbsentOnlyIdentity == [][(last'.op.op = "ask" /\ s.p.k = "absent") => last'.res = "absent"]_<<s, last>>
=============================================================================
