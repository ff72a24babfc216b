-------------------------------- MODULE Commit --------------------------------
(* C18: committing one path commits only that path, and the change queries
   agree with the repository.
   hist  the commits, oldest first: which content each file has in them
   idx   the content of each file in the index
   wt    the content of each file in the working tree
   st    stashes of the user
   A content is a number, 0 is not there. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Contents, Files, MaxHist, Wide
VARIABLES s, last

In(p) == CASE p = "." -> Files [] p = "d" -> Files \ {"a"} [] OTHER -> {p} \cap Files
Paths == Files \cup {".", "d"}
None == [f \in Files |-> 0]
Head0(st) == IF st.hist = <<>> THEN None ELSE st.hist[Len(st.hist)]
Take(p, from, onto) == [f \in Files |-> IF f \in In(p) THEN from[f] ELSE onto[f]]

Refuse(st) == [res |-> "refused", post |-> st]
Committed(st, p) == [res |-> "ok", post |-> [st EXCEPT !.hist = Append(@, Take(p, st.idx, Head0(st)))]]
Staged(st, p) == [st EXCEPT !.idx = Take(p, st.wt, @)]

(* 4 is the data of 1 in a file that can be executed *)
Shown(n) == IF n = 4 THEN "1" ELSE ToString(n)
YN(b) == IF b THEN "yes" ELSE "no"
(* what ref names: files of the working tree, the index, a commit *)
Refs(st) == {"work", "index"} \cup {"HEAD", "HEAD~1", "HEAD~2"}
Back(ref) == CASE ref = "HEAD" -> 0 [] ref = "HEAD~1" -> 1 [] OTHER -> 2
Known(st, ref) == ref \in {"work", "index"} \/ Len(st.hist) > Back(ref)
At(st, ref) == CASE ref = "work" -> st.wt [] ref = "index" -> st.idx
                 [] OTHER -> st.hist[Len(st.hist) - Back(ref)]
(* the working tree is only looked at for files which are in the index *)
Differ(st, a, b, f) ==
  IF a = "work" /\ b = "work" THEN FALSE
  ELSE IF "work" \in {a, b} THEN
    LET o == At(st, IF a = "work" THEN b ELSE a)[f] IN
    IF st.idx[f] = 0 THEN o # 0 ELSE o # st.wt[f]
  ELSE At(st, a)[f] # At(st, b)[f]
Exists(st, p) == p = "." \/ \E f \in In(p) : st.wt[f] # 0
Diff(st, p, a, b) ==
  IF Exists(st, p) /\ Known(st, a) /\ Known(st, b)
  THEN IF p \in Files /\ "work" \notin {a, b} /\ Differ(st, a, b, p)
       THEN ToString(At(st, a)[p]) \o ">" \o ToString(At(st, b)[p])      \* from what to what
       ELSE YN(\E f \in In(p) : Differ(st, a, b, f))
  ELSE "refused"
Before(st, k) == IF k = 1 THEN None ELSE st.hist[k - 1]
Touches(st, k, p) == \E f \in In(p) : st.hist[k][f] # Before(st, k)[f]
RECURSIVE Numbers(_)
Numbers(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o " " \o Numbers(Tail(q))
Those(st, p) == SelectSeq([i \in 1..Len(st.hist) |-> Len(st.hist) + 1 - i], LAMBDA k : Touches(st, k, p))

Ask(st, op) ==
  LET p == op.p IN
  CASE op.q = "modified" -> Diff(st, p, "index", "work")
    [] op.q = "indexed" -> Diff(st, p, "HEAD", "index")
    [] op.q = "uncommitted" -> Diff(st, p, "HEAD", "work")
    [] op.q = "diff" -> Diff(st, p, op.a, op.b)
    [] op.q = "show" -> (IF Known(st, op.a) /\ At(st, op.a)[p] # 0 THEN Shown(At(st, op.a)[p]) ELSE "refused")
    [] op.q = "latest" -> (IF Those(st, p) = <<>> THEN "refused" ELSE ToString(Head(Those(st, p))))
    [] op.q = "commits" -> (IF st.hist = <<>> THEN "refused" ELSE Numbers(Those(st, p)))

Outcomes(st, op) ==
  CASE op.op = "commit" ->
         {Committed(st, op.p)} \cup (IF \A f \in In(op.p) : st.idx[f] = Head0(st)[f] THEN {Refuse(st)} ELSE {})
    [] op.op = "committree" ->
         LET o == Committed(Staged(st, op.p), op.p) IN
         IF \E f \in In(op.p) : st.wt[f] = 0 THEN {o, Refuse(st)} ELSE {o}
    [] op.op = "add" ->
         LET o == [res |-> "ok", post |-> Staged(st, op.p)] IN
         IF \E f \in In(op.p) : st.wt[f] = 0 THEN {o, Refuse(st)} ELSE {o}
    [] op.op = "ask" ->
         {[res |-> Ask(st, op), post |-> st]}
         \cup (IF op.q = "diff" /\ op.a = "work" /\ op.b = "work" THEN {[res |-> "no", post |-> st]} ELSE {})    \* nothing to compare
    [] op.op = "outside" ->
         CASE op.what = "write" -> {[res |-> "ok", post |-> [st EXCEPT !.wt[op.p] = op.n]]}
           [] op.what = "stage" -> {[res |-> "ok", post |-> [st EXCEPT !.idx[op.p] = op.n]]}
           [] op.what = "stash" -> {[res |-> "ok", post |-> [st EXCEPT !.st = op.n]]}
           [] op.what = "commit" -> {[res |-> "ok", post |-> [st EXCEPT !.hist = Append(@, st.idx)]]}
           [] op.what = "reset" -> {[res |-> "ok", post |-> [st EXCEPT !.hist = SubSeq(@, 1, Len(@) - 1)]]}
    [] OTHER -> {}
Ops(st) ==
  (IF Len(st.hist) < MaxHist THEN [op: {"commit", "committree"}, p: Paths] ELSE {})
  \cup [op: {"add"}, p: Paths]
  \cup [op: {"ask"}, q: {"modified", "indexed", "uncommitted", "latest", "commits"}, p: Paths]
  \cup [op: {"ask"}, q: {"show"}, a: Refs(st), p: Files]
  \cup [op: {"ask"}, q: {"diff"}, a: Refs(st), b: Refs(st), p: {"a", "d"}]
  \cup (IF MaxOps = 1 THEN {} ELSE
         [op: {"outside"}, what: {"write", "stage"}, p: Files, n: {0} \cup Contents]
         \cup {x \in [op: {"outside"}, what: {"stash"}, n: 0..2] : st.hist # <<>>}
         \cup {x \in [op: {"outside"}, what: {"commit"}] : Len(st.hist) < MaxHist}
         \cup {x \in [op: {"outside"}, what: {"reset"}] : Len(st.hist) > 1})

All == [Files -> {0} \cup Contents]
Some == {x \in All : \A f \in Files : x[f] = 0 \/ f # "a"}
Init == /\ s \in {[hist |-> h, idx |-> i, wt |-> w, st |-> IF h = <<>> THEN 0 ELSE 1] :
                   h \in {<<>>} \cup {<<x>> : x \in All} \cup (IF Wide THEN {<<x, y>> : x \in Some, y \in All} ELSE {}),
                   i \in All, w \in IF Wide THEN Some ELSE All}
        /\ last = [op |-> "init", res |-> "init"]
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == s.idx \in All /\ s.wt \in All /\ \A k \in 1..Len(s.hist) : s.hist[k] \in All
Mine == last'.op.op # "outside"
(* a commit differs from the one before it in the path that was committed *)
OnlyThatPath == [][Mine /\ s'.hist # s.hist =>
   /\ Len(s'.hist) = Len(s.hist) + 1 /\ SubSeq(s'.hist, 1, Len(s.hist)) = s.hist
   /\ \A f \in Files \ In(last'.op.p) : Head0(s')[f] = Head0(s)[f]
   /\ \A f \in In(last'.op.p) : Head0(s')[f] = s'.idx[f]]_<<s, last>>
(* what is not committed stays as it is *)
TheRestStays == [][Mine => /\ s'.wt = s.wt /\ s'.st = s.st
   /\ \A f \in Files : s'.idx[f] = s.idx[f] \/ (last'.op.op \in {"add", "committree"} /\ f \in In(last'.op.p))]_<<s, last>>
AsksChangeNothing == [][last'.op.op = "ask" \/ last'.res = "refused" => s' = s]_<<s, last>>
(* a path that was committed from the working tree has no changes *)
CleanAfterwards == [][last'.op.op = "committree" /\ last'.res = "ok" =>
   \A f \in In(last'.op.p) : ~Differ(s', "HEAD", "work", f) /\ ~Differ(s', "HEAD", "index", f)]_<<s, last>>
=============================================================================
