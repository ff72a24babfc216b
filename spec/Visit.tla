-------------------------------- MODULE Visit --------------------------------
(* C19: visiting another ref restores the working state on leaving.
   tip    what the files are at each ref
   at     the ref that is checked out: a branch, or another one, or "lost",
          a commit that no ref leads to
   idx wt what the files are in the index and in the working tree; the file
          "i" is ignored
   stack  for every visit that is going on: the ref, and the state it was
          entered from
   mine   stashes of the user, extra  stashes of visits *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Contents, Few
VARIABLES s, last

Files == {"a", "b", "i"}
Tracked == {"a", "b"}
Branches == {"main", "oth"}
Refs == Branches \cup {"t", "r"}       \* a tag and a branch of a remote
All == [Files -> {0} \cup Contents]
Now(st) == st.tip[st.at]
Dirty(st) == st.idx # Now(st) \/ st.wt # Now(st)
One(b) == IF b THEN 1 ELSE 0

Outcomes(st, op) ==
  CASE op.op = "enter" ->
         LET refuse == [res |-> "refused", post |-> st]
             ok == [res |-> "ok", post |->
               [st EXCEPT !.at = op.ref, !.idx = st.tip[op.ref], !.wt = st.tip[op.ref], !.extra = @ + One(Dirty(st)),
                          !.stack = Append(@, [ref |-> op.ref, at |-> st.at, idx |-> st.idx, wt |-> st.wt])]] IN
         (* no such ref, or one which is checked out somewhere else *)
         IF op.ref \notin Refs THEN {refuse}
         ELSE IF st.at \in Branches THEN {ok} ELSE {ok, refuse}
    [] op.op = "leave" ->
         LET was == st.stack[Len(st.stack)]
             back == [st EXCEPT !.at = was.at, !.idx = was.idx, !.wt = was.wt, !.stack = SubSeq(@, 1, Len(@) - 1)] IN
         (* what was not committed during the visit is kept in a stash *)
         {[res |-> "ok", post |-> [back EXCEPT !.extra = @ + One(Dirty(st)) - One(Dirty(back))]]}
    [] op.op = "name" ->
         {[res |-> IF st.at \in Refs THEN st.at ELSE "none", post |-> st]}
    [] op.op = "outside" ->
         CASE op.what = "write" -> {[res |-> "ok", post |-> [st EXCEPT !.wt[op.f] = op.n]]}
           [] op.what = "stage" -> {[res |-> "ok", post |-> [st EXCEPT !.idx[op.f] = op.n]]}
           [] op.what = "commit" -> {[res |-> "ok", post |-> [st EXCEPT !.tip[st.at] = st.idx]]}
           [] op.what = "stash" -> {[res |-> "ok", post |-> [st EXCEPT !.mine = @ + 1]]}
    [] OTHER -> {}

Ops(st) ==
  (IF Len(st.stack) < 3 THEN [op: {"enter"}, ref: Refs \cup {"none", "held"}] ELSE {})
  \cup {x \in [op: {"leave"}, exc: BOOLEAN] : st.stack # <<>>}
  \cup [op: {"name"}]
  \cup (IF ~Few THEN {} ELSE
        [op: {"outside"}, what: {"write"}, f: Files, n: {0} \cup Contents]
        \cup [op: {"outside"}, what: {"stage"}, f: Tracked, n: {0} \cup Contents]
        \cup {x \in [op: {"outside"}, what: {"commit"}] : st.at \in Branches /\ \A k \in 1..Len(st.stack) : st.stack[k].at # st.at}
        \cup {x \in [op: {"outside"}, what: {"stash"}] : st.mine < 2})

At(a, b) == [f \in Files |-> CASE f = "a" -> a [] f = "b" -> b [] OTHER -> 0]
Tips == [r \in Refs \cup {"lost"} |-> CASE r = "main" -> At(1, 0) [] r = "oth" -> At(2, 1) [] r = "t" -> At(0, 2)
                                        [] r = "r" -> At(1, 1) [] OTHER -> At(0, 1)]
Init == /\ s \in {[tip |-> Tips, at |-> a, idx |-> i, wt |-> w, stack |-> <<>>, mine |-> 1, extra |-> 0] :
                  a \in {"main", "lost"}, i \in {x \in All : x["i"] = 0}, w \in {x \in All : x["i"] \in {0, 1}}}
        /\ Few => s.at = "main" /\ s.idx \in {At(1, 0), At(2, 0), At(0, 1)} /\ s.wt["a"] = 2 /\ s.wt["b"] = 1
        /\ last = [op |-> "init", res |-> "init"]
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == /\ s.idx \in All /\ s.wt \in All /\ s.idx["i"] = 0 /\ s.extra >= 0
          /\ \A k \in 1..Len(s.stack) : s.stack[k].ref \in Refs
(* as many stashes as there are states to go back to, and what was left behind *)
Kept == Cardinality({k \in 1..Len(s.stack) : LET v == s.stack[k] IN v.idx # s.tip[v.at] \/ v.wt # s.tip[v.at]}) <= s.extra
CleanOnEntering == [][last'.op.op = "enter" /\ last'.res = "ok" =>
   s'.at = last'.op.ref /\ s'.idx = Now(s') /\ s'.wt = Now(s')]_<<s, last>>
BackOnLeaving == [][last'.op.op = "leave" =>
   LET was == s.stack[Len(s.stack)] IN s'.at = was.at /\ s'.idx = was.idx /\ s'.wt = was.wt]_<<s, last>>
StashesStay == [][last'.op.op # "outside" => s'.mine = s.mine /\ s'.tip = s.tip]_<<s, last>>
RefusalsAreNoOps == [][last'.res = "refused" => s' = s]_<<s, last>>
(* the states to go back to do not change while away *)
Unwinds == [][\A k \in 1..Len(s'.stack) : k <= Len(s.stack) => s'.stack[k] = s.stack[k]]_<<s, last>>
=============================================================================
