-------------------------------- MODULE Cwd --------------------------------
(* C12: scoped working directory changes.
   One process, one working directory, a push/pop stack, and a set of path
   objects that can be entered (possibly several times) as context managers.

   Directories: "b" (base), its children "a" and "c", and "s" below "a".
   Path objects: absolute ones (A, C, S, B), a relative one (R = 's'), the
   two spellings '.' (DOT) and '..' (UP), a link to c (L), and one that is a regular file (F).
   "c" may be closed: it is a directory still, but one that may not be entered. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs,      \* the path objects in play
          MaxFrames, \* bound on simultaneously open entries
          MaxStack,  \* bound on the push/pop stack
          MaxPop,    \* largest N given to pop
          Vanish,    \* TRUE: the directory "s" may be removed while in use
          Closing    \* TRUE: the directory "c" may be closed and opened
VARIABLES s, last

Dirs == {"b", "a", "c", "s"}
Parent(d) == CASE d = "s" -> "a" [] d \in {"a", "c"} -> "b" [] OTHER -> "none"
(* where a path object leads from a working directory; "none": not a directory *)
Target(st, o) ==
  LET t == CASE o = "A" -> "a" [] o \in {"C", "L"} -> "c" [] o = "S" -> "s" [] o = "B" -> "b"
             [] o = "R" -> (IF st.cwd = "a" THEN "s" ELSE "none")
             [] o = "DOT" -> st.cwd
             [] o = "UP" -> Parent(st.cwd)
             [] OTHER -> "none"
  IN IF t = "s" /\ ~st.alive THEN "none" ELSE t

(* frames: one entry per open context, oldest first *)
Init == /\ s \in [cwd: {"b", "a"}, stack: {<<>>}, frames: {<<>>}, alive: {TRUE}, open: {TRUE}]
        /\ last = [op |-> "init", res |-> "init"]

Gone(st) == st.cwd = "s" /\ ~st.alive    \* standing in a removed directory

IndexOf(fr, o) == LET I == {i \in 1..Len(fr) : fr[i].o = o}
                  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
Without(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]

Closed(st, d) == d = "c" /\ ~st.open
\* nothing can be reached by its name from where one may not look around
Shut(st, o) == Closed(st, st.cwd) /\ o \in {"R", "DOT", "UP"}
Live(st, d) == d # "s" \/ st.alive
Outcomes(st, op) ==
  CASE op.op = "enter" ->
        LET t == Target(st, op.o) IN
        IF Closed(st, t) \/ Shut(st, op.o) THEN {[res |-> "denied", post |-> st]}
        ELSE IF t = "none" THEN {[res |-> "notdir", post |-> st]}
        ELSE {[res |-> "in", post |-> [st EXCEPT !.cwd = t, !.frames = Append(@, [o |-> op.o, from |-> st.cwd])]]}
    [] op.op = "exit" ->   \* the most recent open entry of that object; normally or by an exception
        LET i == IndexOf(st.frames, op.o) IN
        {[res |-> "out", post |-> [st EXCEPT !.cwd = st.frames[i].from, !.frames = Without(@, i)]]}
    [] op.op = "push" ->
        LET t == Target(st, op.o) IN
        IF Closed(st, t) \/ Shut(st, op.o) THEN {[res |-> "denied", post |-> st]}
        ELSE IF t = "none" THEN {[res |-> "refused", post |-> st]}
        ELSE {[res |-> "pushed", post |-> [st EXCEPT !.cwd = t, !.stack = Append(@, st.cwd)]]}
    [] op.op = "pop" ->
        LET i == Len(st.stack) - op.n IN
        IF st.stack = <<>> THEN {[res |-> "empty", post |-> st]}
        ELSE IF i < 1 THEN {[res |-> "range", post |-> st]}
        ELSE IF Closed(st, st.stack[i]) THEN {[res |-> "denied", post |-> st]}
        ELSE IF ~Live(st, st.stack[i]) THEN {[res |-> "missing", post |-> st]}
        ELSE {[res |-> st.stack[i], post |-> [st EXCEPT !.cwd = st.stack[i], !.stack = Without(@, i)]]}
    [] op.op = "chdir" -> {[res |-> "ok", post |-> [st EXCEPT !.cwd = op.d]]}
    [] op.op = "close" -> {[res |-> "ok", post |-> [st EXCEPT !.open = ~@]]}
    [] op.op = "vanish" -> {[res |-> "ok", post |-> [st EXCEPT !.alive = FALSE]]}
    [] OTHER -> {}

\* '..' above the base leads out of the modelled tree
Usable(st) == IF st.cwd = "b" THEN Objs \ {"UP"} ELSE Objs
Ops(st) ==
  (IF Gone(st) \/ Len(st.frames) >= MaxFrames THEN {} ELSE [op: {"enter"}, o: Usable(st)])
  \cup {x \in [op: {"exit"}, o: Objs, exc: BOOLEAN] :
          LET i == IndexOf(st.frames, x.o) IN i > 0 /\ Live(st, st.frames[i].from) /\ ~Closed(st, st.frames[i].from)}
  \cup (IF Gone(st) \/ Len(st.stack) >= MaxStack THEN {} ELSE [op: {"push"}, o: Usable(st)])
  \cup [op: {"pop"}, n: 0..MaxPop]
  \cup {x \in [op: {"chdir"}, d: Dirs] : Live(st, x.d) /\ ~Closed(st, x.d)}
  \cup (IF Closing THEN {[op |-> "close"]} ELSE {})
  \cup (IF Vanish /\ st.alive THEN {[op |-> "vanish"]} ELSE {})

Next == \E op \in Ops(s) : \E o \in Outcomes(s, op) :
           s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == /\ s.cwd \in Dirs /\ s.alive \in BOOLEAN /\ s.open \in BOOLEAN
          /\ Len(s.stack) <= MaxStack /\ Len(s.frames) <= MaxFrames
          /\ \A i \in 1..Len(s.stack) : s.stack[i] \in Dirs
          /\ \A i \in 1..Len(s.frames) : s.frames[i].o \in Objs /\ s.frames[i].from \in Dirs
(* leaving all open contexts newest first brings one back to where the oldest was entered *)
RECURSIVE Unwind(_)
Unwind(st) == IF st.frames = <<>> THEN st.cwd
              ELSE LET f == st.frames[Len(st.frames)]
                   IN Unwind([st EXCEPT !.cwd = f.from, !.frames = SubSeq(@, 1, Len(@) - 1)])
Restores == s.frames # <<>> => Unwind(s) = s.frames[1].from
(* only enter/exit change the set of open entries, only push/pop change the stack *)
FramesOnlyByContext == [][s'.frames # s.frames => last'.op.op \in {"enter", "exit"}]_<<s, last>>
StackOnlyByPushPop == [][s'.stack # s.stack => last'.op.op \in {"push", "pop"}]_<<s, last>>
RefusalsAreNoOps == [][last'.res \in {"notdir", "refused", "empty", "range", "denied", "missing"} => s' = s]_<<s, last>>
=============================================================================
