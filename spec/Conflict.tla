------------------------------ MODULE Conflict ------------------------------
(* C05: conflicting records for one placeholder: the newest wins, nothing is lost.
   cur is what is at the path: nothing, a placeholder or a file with content c, and the
   record it holds (times and sizes are small numbers, 0 is missing; x tells records
   apart that agree in the rest).  trash is everything that was put aside, as sorted codes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ids, Times, Sizes, Xs, Contents, OpNames, MaxOps, InitRecs, KeepTrash
VARIABLES s, last

Rec == [id : Ids, upd : Times, cre : Times, size : Sizes, x : Xs]
NoRec == [id |-> 0, upd |-> 0, cre |-> 0, size |-> 0, x |-> 0]
At(k, r, c) == [k |-> k, r |-> r, c |-> c]
Nothing == At("none", NoRec, 0)
Code(it) == ((((it.r.id * 4 + it.r.upd) * 4 + it.r.cre) * 4 + it.r.size) * 4 + it.r.x) * 4 + it.c
Init == /\ s \in [cur : {Nothing} \cup (IF InitRecs THEN {At("link", r, 0) : r \in Rec} ELSE {}), trash : {<<>>}]
        /\ last = [op |-> "init", res |-> "init"]

RECURSIVE Insert(_, _)
Insert(q, v) == IF q = <<>> THEN <<v>> ELSE IF Head(q) = v THEN q ELSE IF Head(q) > v THEN <<v>> \o q
                ELSE <<Head(q)>> \o Insert(Tail(q), v)
Aside(st) == IF st.cur.k = "none" THEN st.trash ELSE Insert(st.trash, Code(st.cur))

\* "new", "old" or "none" when it cannot be said
Later(o, n) == IF o = 0 \/ n = 0 THEN "none" ELSE IF o < n THEN "new" ELSE IF o > n THEN "old" ELSE "same"
Newer(o, n) == IF Later(o.upd, n.upd) = "same" THEN Later(o.cre, n.cre) ELSE Later(o.upd, n.upd)
Wins(o, n) == /\ o # n
              /\ o.id # n.id => Newer(o, n) = "new"
              /\ ~(o.size # 0 /\ n.size = 0)
Undecidable(o, n) == o.id # n.id /\ Newer(o, n) = "none"

O(r, st) == {[res |-> r, post |-> st]}
Outcomes(st, op) ==
  CASE op.op = "write" ->
         IF st.cur.k = "none" THEN O("done", [st EXCEPT !.cur = At("link", op.r, 0)])
         ELSE IF st.cur.k = "file" THEN O("refused", st)
         ELSE IF Wins(st.cur.r, op.r) THEN O("done", [cur |-> At("link", op.r, 0), trash |-> Aside(st)])
         ELSE O("done", st) \cup (IF Undecidable(st.cur.r, op.r) THEN O("refused", st) ELSE {})
    \* the data arrives
    [] op.op = "fetch" -> O("done", [st EXCEPT !.cur.k = "file", !.cur.c = op.c])
    \* what is there is put aside
    [] op.op = "crumple" -> O("done", [cur |-> Nothing, trash |-> Aside(st)])
    [] op.op = "read" -> O(IF st.cur.k = "none" THEN "nothing" ELSE ToString(Code(At("", st.cur.r, 0))), st)
    [] OTHER -> {}

NoOp == [op |-> "", r |-> NoRec, c |-> 0, via |-> ""]
Ops(st) == {op \in {[NoOp EXCEPT !.op = "write", !.r = r, !.via = v] : r \in Rec, v \in {"helper", "primary"}}
                   \cup {[NoOp EXCEPT !.op = "fetch", !.c = c] : c \in Contents}
                   \cup {[NoOp EXCEPT !.op = o] : o \in {"crumple", "read"}} :
              /\ op.op \in OpNames
              /\ op.op = "fetch" => st.cur.k = "link"
              /\ op.op = "crumple" => st.cur.k # "none"
              /\ (op.op = "write" /\ op.via = "primary") => st.cur.k # "file"}
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
Subset(q, r) == \A i \in 1 .. Len(q) : \E j \in 1 .. Len(r) : q[i] = r[j]
\* every record and content that was at the path is still there or in the trash
NothingLost == [][/\ Subset(s.trash, s'.trash)
                  /\ s.cur.k # "none" => \/ Code(s'.cur) = Code(s.cur)
                                         \/ Subset(<<Code(s.cur)>>, s'.trash)
                                         \/ last'.op.op = "fetch"]_<<s, last>>
\* of two records with known times the later one stays, in whichever order they are written
OrderFree == \A a, b \in (IF KeepTrash THEN {} ELSE Rec) :
               (a.id # b.id /\ a.size # 0 /\ b.size # 0 /\ Newer(a, b) \in {"new", "old"}) => (Wins(a, b) # Wins(b, a))
SizeKept == [][(last'.op.op = "write" /\ s.cur.r.size # 0) => s'.cur.r.size # 0]_<<s, last>>
=============================================================================
