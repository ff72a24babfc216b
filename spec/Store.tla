------------------------------- MODULE Store -------------------------------
(* C27: where a cache keeps its objects, and setting that up again.
   Two projects (1, 2) each have an internal data folder (dd), in it a place
   for objects and a trash.  The objects are kept in the project ("own"), or
   in a folder outside, to which the place is a link ("X", "Y"), which
   projects may share.

   p: dd    the data folder is there
      obj   "none" | "own" | "X" | "Y" | "file"
      own   the keys of the objects in the project's own folder
      tr    the trash: 0 not there, 1 empty, 2 something in it
   x: the folders outside: th there, keys the objects in it *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Keys, Start
VARIABLES s, last

P == {1, 2}
Z == {"X", "Y"}
K == 1..2
NoKeys == [k \in K |-> 0]
KeySets == {f \in [K -> {0, 1}] : \A k \in K : f[k] = 1 => k \in Keys}
Sub(f, g) == \A k \in K : f[k] <= g[k]
Blank == [dd |-> FALSE, obj |-> "none", own |-> NoKeys, tr |-> 0]
Projects ==
  {q \in [dd: BOOLEAN, obj: {"none", "own", "file"} \cup Z, own: KeySets, tr: 0..2] :
     /\ (~q.dd => q = Blank)
     /\ (q.own # NoKeys => q.obj = "own")}
Outside == {o \in [th: BOOLEAN, keys: KeySets] : o.th \/ o.keys = NoKeys}

Init == /\ s \in [p: [P -> IF Start = "blank" THEN {Blank} ELSE Projects],
                  x: [Z -> IF Start = "blank" THEN {[th |-> TRUE, keys |-> NoKeys]} ELSE Outside]]
        /\ (Start = "one" => s.p[2] = Blank)
        /\ last = [op |-> "init", res |-> "init"]

Refuse(st) == {[res |-> "refused", post |-> st]}
(* the objects a project can see, and whether it has a place to put them *)
Open(st, i) == LET o == st.p[i].obj IN o = "own" \/ (o \in Z /\ st.x[o].th)
Seen(st, i) == LET o == st.p[i].obj
               IN IF o = "own" THEN st.p[i].own ELSE IF o \in Z THEN st.x[o].keys ELSE NoKeys
Stored(st, i, k) ==
  LET o == st.p[i].obj
  IN IF o = "own" THEN [st EXCEPT !.p[i].own[k] = 1] ELSE [st EXCEPT !.x[o].keys[k] = 1]

Dd(st, i) == [st EXCEPT !.p[i].dd = TRUE]
Trash(st, i) == [st EXCEPT !.p[i].tr = IF @ = 0 THEN 1 ELSE @]
Done(st) == {[res |-> "ok", post |-> st]}
(* set up: the objects in the project, unless they are elsewhere already *)
Here(st, i) ==
  LET o == st.p[i].obj
  IN IF o = "none" THEN Done(Trash([st EXCEPT !.p[i].obj = "own"], i))
     ELSE IF o = "file" \/ ~Open(st, i) THEN Refuse(st)
     ELSE Done(Trash(st, i))
(* set up: the objects outside.  What is already in the project is never
   left behind or removed, nor is a link to another folder redirected *)
There(st, i, z) ==
  LET o == st.p[i].obj
  IN IF o = z THEN Done(st) \cup Done(Trash(st, i))
     ELSE IF o = "none" \/ (o = "own" /\ st.p[i].own = NoKeys)
          THEN Done(Trash([st EXCEPT !.p[i].obj = z], i))
     ELSE Refuse(st)
SetUp(st, i, to) == IF to = "here" THEN Here(Dd(st, i), i) ELSE There(Dd(st, i), i, to)

Outcomes(st, op) ==
  CASE op.op = "setup" -> IF st.p[op.i].dd /\ ~op.again THEN Refuse(st)
                          ELSE IF ~op.again /\ st.p[op.i].tr > 0 THEN Refuse(st)
                          ELSE SetUp(st, op.i, op.to)
    [] op.op = "anchor" ->  \* a new process anchors the project: for insurance, as above
        SetUp(st, op.i, "here")
    [] op.op = "fetch" ->
        IF Seen(st, op.i)[op.k] = 1 THEN {[res |-> "found", post |-> st]}
        ELSE {[res |-> "asked", post |-> IF Open(st, op.i) THEN Stored(st, op.i, op.k) ELSE st]}
    [] op.op = "crumple" -> {[res |-> "ok", post |-> [st EXCEPT !.p[op.i].dd = TRUE, !.p[op.i].tr = 2]]}
    \* the user
    [] op.op = "unlink" -> Done([st EXCEPT !.p[op.i].obj = "none"])
    [] op.op = "empty" -> Done([st EXCEPT !.p[op.i].own = NoKeys])
    [] op.op = "gone" -> Done([st EXCEPT !.x[op.z] = [th |-> FALSE, keys |-> NoKeys]])
    [] op.op = "make" -> Done([st EXCEPT !.x[op.z].th = TRUE])
    [] OTHER -> {}

Ops(st) ==
  [op: {"setup"}, i: P, to: {"here"} \cup Z, again: BOOLEAN]
  \cup [op: {"anchor"}, i: P]
  \cup [op: {"fetch"}, i: P, k: Keys]
  \cup {o \in [op: {"crumple"}, i: P] : st.p[o.i].tr < 2}
  \cup {o \in [op: {"unlink"}, i: P] : st.p[o.i].obj \in Z \cup {"file"}}
  \cup {o \in [op: {"empty"}, i: P] : st.p[o.i].own # NoKeys}
  \cup {o \in [op: {"gone"}, z: Z] : st.x[o.z].th}
  \cup {o \in [op: {"make"}, z: Z] : ~st.x[o.z].th}

Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == \A i \in P : s.p[i].obj \in {"none", "own", "file"} \cup Z /\ s.p[i].own \in KeySets
User == {"unlink", "empty", "gone", "make"}
(* nothing but the user removes an object, from wherever it is *)
ObjectsStay == [][last'.op.op \notin User =>
                    /\ \A i \in P : Sub(s.p[i].own, s'.p[i].own) /\ s.p[i].tr <= s'.p[i].tr
                    /\ \A z \in Z : Sub(s.x[z].keys, s'.x[z].keys) /\ s.x[z].th = s'.x[z].th]_<<s, last>>
(* what a project could see before it was set up again, it sees afterwards *)
StillSeen == [][last'.op.op \in {"setup", "anchor"} =>
                  \A i \in P : Sub(Seen(s, i), Seen(s', i)) \/ s.p[i].obj = "none"]_<<s, last>>
(* the objects are where they were asked to be, or it was refused *)
AsAsked == [][last'.op.op = "setup" /\ last'.res = "ok" =>
                 LET i == last'.op.i IN /\ s'.p[i].dd
                                        /\ (last'.op.to \in Z => s'.p[i].obj = last'.op.to)
                                        /\ (last'.op.to = "here" => Open(s', i))]_<<s, last>>
(* setting up never moves a store from one place to another on its own *)
NeverRedirected == [][\A i \in P : s.p[i].obj \in Z /\ s'.p[i].obj # s.p[i].obj => last'.op.op = "unlink"]_<<s, last>>
(* a refusal leaves everything but an empty data folder as it was *)
RefusalsAreNoOps == [][last'.res = "refused" =>
                         /\ s'.x = s.x
                         /\ \A i \in P : [s'.p[i] EXCEPT !.dd = TRUE] = [s.p[i] EXCEPT !.dd = TRUE]]_<<s, last>>
(* the other project is not concerned *)
OtherStays == [][\A i \in P : last'.op.op \notin {"gone", "make"} /\ last'.op.i # i => s'.p[i] = s.p[i]]_<<s, last>>
(* once set up, doing it again changes nothing *)
Idempotent == \A i \in P, to \in {"here"} \cup Z : \A o \in SetUp(s, i, to) :
                 o.res = "ok" => \A o2 \in SetUp(o.post, i, to) :
                    o2.res = "ok" /\ (o2.post = o.post \/ o2.post = Trash(o.post, i))
(* what one project has fetched into a shared folder the other finds there *)
Shared == \A z \in Z : (s.p[1].obj = z /\ s.p[2].obj = z) => Seen(s, 1) = Seen(s, 2)
=============================================================================
