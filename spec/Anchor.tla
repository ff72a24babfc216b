------------------------------- MODULE Anchor -------------------------------
(* C08: anchoring binds one remote root to one local folder.
   Two places (1, 2) hold, or do not hold, an entry named like the remote
   root.  A remote class is bound to an api (init) and anchored to a place;
   the cache class bound to it keeps its own note of the anchor (ca).

   folder: k "none" | "file" | "dir"
           c content of a dir: 0 empty, 1 the internal data folder only,
             2 things of the user, 3 both
           id recorded on the dir: 0 nothing, 1 the id of the root, 2 another *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Ids, Contents
VARIABLES s, last

P == {1, 2}
None == [k |-> "none", c |-> 0, id |-> 0]
File == [k |-> "file", c |-> 0, id |-> 0]
Folders == {None, File} \cup [k: {"dir"}, c: Contents, id: Ids]

Init == /\ s \in [f: [P -> Folders], ra: {0}, ca: {0}, init: {0}]
        /\ last = [op |-> "init", res |-> "init"]

Cached(x) == x.id > 0
Refuse(st) == {[res |-> "refused", post |-> st]}
Internal(x) == [x EXCEPT !.c = IF @ \in {0, 2} THEN @ + 1 ELSE @]
(* a fresh anchor: the folder is there, is internal only, and records the root *)
Dropped(st, p) ==
  [res |-> "anchored",
   post |-> [st EXCEPT !.f[p] = [k |-> "dir", c |-> 1, id |-> 1], !.ra = p, !.ca = p]]
Free(x) == x = None \/ (x.k = "dir" /\ x.c = 0 /\ x.id = 0)
Drop(st, p) ==
  IF st.init = 0 \/ st.ra # 0 \/ ~Free(st.f[p]) THEN Refuse(st) ELSE {Dropped(st, p)}
(* adopting a folder which already records the root; the cache class may note it *)
Adopt(st, p) ==
  IF st.ra # 0 \/ st.f[p].id # 1 THEN Refuse(st)
  ELSE {[res |-> "anchored", post |-> [st EXCEPT !.ra = p, !.init = 1, !.ca = x]] : x \in {p, st.ca}}
Smart(st, p) ==
  IF st.init = 1 /\ st.ra = p THEN {[res |-> "same", post |-> st], [res |-> "refused", post |-> st]}
  ELSE IF st.init = 0 THEN Refuse(st)
  ELSE IF Cached(st.f[p]) THEN Adopt(st, p) ELSE Drop(st, p)

Outcomes(st, op) ==
  CASE op.op = "init" ->  \* bind the api: once, and only to the root that is there
        IF st.init = 1 \/ op.bad THEN Refuse(st) ELSE {[res |-> "ok", post |-> [st EXCEPT !.init = 1]]}
    [] op.op = "drop" -> IF op.down THEN Refuse(st) ELSE Drop(st, op.p)
    [] op.op = "smart" -> IF op.down THEN Refuse(st) ELSE Smart(st, op.p)
    [] op.op = "to" ->
        IF Cached(st.f[op.p]) THEN Adopt(st, op.p)
        ELSE IF op.create THEN Drop(st, op.p) ELSE Refuse(st)
    [] op.op = "tocache" -> Adopt(st, op.p)
    [] op.op = "here" ->   \* from a cache; makes the internal data folder
        IF st.ra # 0 \/ st.f[op.p].id # 1 THEN Refuse(st)
        ELSE {[res |-> "anchored",
               post |-> [st EXCEPT !.ra = op.p, !.ca = op.p, !.init = 1, !.f[op.p] = Internal(@)]]}
    [] op.op = "other" -> Refuse(st)      \* a path named differently, or in a folder that is not there
    [] op.op = "weigh" -> {[res |-> "ok", post |-> [st EXCEPT !.ra = 0, !.ca = IF op.both THEN 0 ELSE @]]}
    [] op.op = "restart" -> {[res |-> "ok", post |-> [st EXCEPT !.ra = 0, !.ca = 0, !.init = 0]]}
    [] op.op = "put" -> {[res |-> "ok", post |-> [st EXCEPT !.f[op.p].c = IF @ \in {0, 1} THEN @ + 2 ELSE @]]}
    [] op.op = "rm" -> {[res |-> "ok", post |-> [st EXCEPT !.f[op.p] = None]]}
    [] OTHER -> {}

Ops(st) ==
  [op: {"init"}, bad: BOOLEAN]
  \cup [op: {"drop", "smart"}, p: P, down: BOOLEAN]
  \cup [op: {"to"}, p: P, create: BOOLEAN]
  \cup [op: {"other"}, p: P, how: {"name", "stray"}]
  \cup {x \in [op: {"tocache", "here"}, p: P] : Cached(st.f[x.p])}
  \cup [op: {"weigh"}, both: BOOLEAN] \cup {[op |-> "restart"]}
  \cup {x \in [op: {"put"}, p: P] : st.f[x.p].k = "dir" /\ st.f[x.p].c < 2}
  \cup {x \in [op: {"rm"}, p: P] : st.ra # x.p /\ st.f[x.p].k # "none"}

Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == /\ s.ra \in 0..2 /\ s.ca \in 0..2 /\ s.init \in {0, 1}
          /\ \A p \in P : s.f[p].k \in {"none", "file", "dir"}
(* an anchor is a folder that records the root, and its api is bound *)
AnchorRecordsRoot == s.ra # 0 => s.f[s.ra].k = "dir" /\ s.f[s.ra].id = 1 /\ s.init = 1
(* one anchor at a time: it moves only by being lifted first *)
OneAnchor == [][s.ra # 0 /\ s'.ra # s.ra => last'.op.op \in {"weigh", "restart"} /\ s'.ra = 0]_<<s, last>>
RefusalsAreNoOps == [][last'.res \in {"refused", "same"} => s' = s]_<<s, last>>
(* a recorded id is never replaced, and the user's things are never adopted *)
IdsStay == [][\A p \in P : s.f[p].id # s'.f[p].id =>
                last'.op.op = "rm" \/ (Free(s.f[p]) /\ s'.ra = p)]_<<s, last>>
NeverAdoptsStuff == [][\A p \in P : s'.ra = p /\ s.ra # p =>
                Free(s.f[p]) \/ s.f[p].id = 1]_<<s, last>>
OnlyTheAnchored == [][\A p \in P : s'.f[p] # s.f[p] =>
                last'.op.op \in {"put", "rm"} \/ (s'.ra = p /\ s.ra = 0)]_<<s, last>>
(* once lifted it can be anchored again *)
CanReanchor == (s.init = 1 /\ s.ra = 0) => \A p \in P :
                (Free(s.f[p]) \/ s.f[p].id = 1) =>
                   \E o \in Outcomes(s, [op |-> "to", p |-> p, create |-> TRUE]) : o.res = "anchored"
=============================================================================
