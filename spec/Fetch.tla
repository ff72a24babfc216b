-------------------------------- MODULE Fetch --------------------------------
(* C03: getting the data of a remote file.
   k: the local entry is a placeholder or a file with content c; m is what is recorded:
   size, checksum (each -1 when missing), which version (file id, -1 missing) and whether a
   mismatch was noted.  Of the remote, d is what it delivers and r what it says about it.
   Contents are numbers, 9 is a part of something.  trash holds what was replaced. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Contents, Recs, Kinds, OpNames, MaxOps
VARIABLES s, last

Size(c) == CASE c = 0 -> 0 [] c \in {1, 2} -> 2 [] OTHER -> 3
Rec(z, u, f) == [size |-> z, sum |-> u, fid |-> f, err |-> 0]
Honest(c, f) == Rec(Size(c), c, f)
\* records: what is true of a content, with something missing, with something wrong
Given == {Honest(c, f) : c \in Contents, f \in {1, 2}}
         \cup (IF "missing" \in Recs THEN {[Honest(c, 1) EXCEPT !.size = -1] : c \in Contents} \cup {[Honest(c, 1) EXCEPT !.sum = -1] : c \in Contents}
                                          \cup {[Honest(c, 1) EXCEPT !.size = -1, !.sum = -1] : c \in Contents} ELSE {})
         \cup (IF "nofid" \in Recs THEN {Honest(c, -1) : c \in Contents} ELSE {})
         \cup (IF "wrong" \in Recs THEN {Rec(z, u, 1) : z \in {Size(c) : c \in Contents}, u \in Contents} ELSE {})
Full == {g \in Given : g.fid # -1}
Init == /\ s \in [k : Kinds, m : Given, c : Contents, d : Contents, r : IF "nofid" \in Recs THEN Full ELSE {Honest(1, 1)}, trash : {<<>>}]
        /\ s.k = "link" => s.c = 0
        /\ last = [op |-> "init", res |-> "init"]

Code(m, c) == (((m.err * 10 + c) * 10 + m.size + 1) * 10 + m.sum + 1) * 10 + m.fid + 1
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Throw(st) == [st EXCEPT !.trash = Sorted({@[i] : i \in DOMAIN @} \cup {Code(st.m, st.c)})]

O(r, st) == {[res |-> r, post |-> st]}
-----------------------------------------------------------------------------
\* the data is asked for and delivered, fail: 1 before anything came, 2 after some of it
Deliver(st, fail) ==
  IF fail # 0
  THEN IF st.k = "link" THEN O("refused", st)
       ELSE IF fail = 1 THEN O("refused", st)
       ELSE UNION {O("refused", [st EXCEPT !.c = x]) : x \in {9, st.d}}
  ELSE LET got == [st EXCEPT !.k = "file", !.c = st.d]
       IN (IF st.m.size # Size(st.d) THEN O("refused", got) ELSE {})
          \cup (IF st.m.size \notin {-1, Size(st.d)} THEN {}
                ELSE IF st.m.sum # -1 /\ st.m.sum # st.d THEN O("done", [got EXCEPT !.m.err = 1])
                ELSE O("done", got) \cup (IF st.m.sum = st.d THEN O("done", [got EXCEPT !.m.err = 0]) ELSE {}))
Within(st, lim, fail) ==
  CASE lim = "none" -> Deliver(st, fail)
    [] st.m.size = -1 -> O("skipped", st) \cup Deliver(st, fail)
    [] lim = "below" -> O("skipped", st)
    [] lim = "equal" -> O("skipped", st) \cup Deliver(st, fail)
    [] OTHER -> Deliver(st, fail)

\* what is recorded after n came in
Tells == {"size", "sum", "fid"}
Changed(o, n) == \E f \in Tells : o[f] # -1 /\ n[f] # -1 /\ o[f] # n[f]
Merge(o, n) == IF Changed(o, n) THEN n
               ELSE [size |-> IF n.size # -1 THEN n.size ELSE o.size, sum |-> IF n.sum # -1 THEN n.sum ELSE o.sum,
                     fid |-> IF n.fid # -1 THEN n.fid ELSE o.fid, err |-> IF n.err = 1 THEN 1 ELSE o.err]
Update(st, n, fail) ==
  LET m == Merge(st.m, n)
      new == [st EXCEPT !.m = m]
      back(os) == UNION {IF o.res = "done" THEN {o} ELSE O("refused", st) : o \in os}
  IN IF st.k = "link" THEN (IF m.size = -1 /\ st.m.size # -1 THEN O("skipped", st) ELSE O("skipped", new))
     ELSE IF ~Changed(st.m, n) THEN O("skipped", new)
     \* local changes that are not what comes in either
     ELSE IF st.m.sum = -1 THEN O("refused", st) \cup back(Deliver([Throw(st) EXCEPT !.m = m], fail))
     ELSE IF st.c # st.m.sum /\ st.c # n.sum THEN O("refused", st)
     ELSE back(Deliver([Throw(st) EXCEPT !.m = m], fail))
\* without a file id the remote has to be asked first
Fetch(st, lim, fail) ==
  IF st.m.fid # -1 THEN Within(st, lim, fail)
  ELSE UNION {IF u.res = "refused" THEN {u}
              ELSE {[v EXCEPT !.res = IF v.res = "skipped" THEN u.res ELSE v.res] :
                    v \in Within(u.post, IF u.res = "done" THEN "none" ELSE "above", fail)} : u \in Update(st, st.r, fail)}
Outcomes(st, op) ==
  CASE op.op = "fetch" -> Fetch(st, op.lim, op.fail)
    [] op.op = "update" -> Update(st, op.m, op.fail)
    [] op.op = "edit" -> O("done", [st EXCEPT !.c = op.c])
    [] op.op = "remote" -> O("done", [st EXCEPT !.d = op.c, !.r = op.m])
    [] OTHER -> {}
NoOp == [op |-> "", m |-> Honest(0, 1), c |-> 0, lim |-> "none", fail |-> 0]
Ops(st) == {op \in {[NoOp EXCEPT !.op = "fetch", !.lim = l, !.fail = f] : l \in {"none", "below", "equal", "above"}, f \in 0 .. 2}
                   \cup {[NoOp EXCEPT !.op = "update", !.m = g, !.fail = f] : g \in Full, f \in 0 .. 2}
                   \cup {[NoOp EXCEPT !.op = "edit", !.c = c] : c \in Contents}
                   \cup {[NoOp EXCEPT !.op = "remote", !.c = c, !.m = Honest(c, f)] : c \in Contents, f \in {1, 2}} :
              /\ op.op \in OpNames
              /\ op.op = "edit" => st.k = "file" /\ op.c # st.c
              /\ op.op = "fetch" /\ op.lim = "below" => st.m.size # 0
              /\ op.op \in {"fetch", "update"} /\ op.fail = 2 => st.d # 0}
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
\* success means that the bytes are those delivered and a wrong checksum is noted
Faithful == [][(last'.op.op = "fetch" /\ last'.res = "done") =>
                 /\ s'.k = "file" /\ s'.c = s.d
                 /\ s'.m.sum \notin {-1, s.d} => s'.m.err = 1
                 /\ s'.m.size \in {-1, Size(s.d)}]_<<s, last>>
Limited == [][(last'.op.op = "fetch" /\ last'.op.lim = "below" /\ s.m.fid # -1 /\ s.m.size # -1) => s' = s]_<<s, last>>
\* a failed update changes nothing, one that succeeds keeps what it replaced
AllOrNothing == [][(last'.op.op = "update") =>
                     CASE last'.res = "refused" -> s' = s
                       [] last'.res = "done" -> Code(s.m, s.c) \in {s'.trash[i] : i \in DOMAIN s'.trash}
                       [] OTHER -> s'.c = s.c /\ s'.k = s.k]_<<s, last>>
KeepsIdentity == [][last'.op.op \in {"fetch", "edit"} /\ s.m.fid # -1 => [s'.m EXCEPT !.err = 0] = [s.m EXCEPT !.err = 0]]_<<s, last>>
\* local content that is neither recorded nor what the update says is never replaced by an update
Local == [][(last'.op.op = "update" /\ s.k = "file" /\ s'.c # s.c) => s.m.sum = -1 \/ s.c \in {s.m.sum, last'.op.m.sum}]_<<s, last>>
=============================================================================
