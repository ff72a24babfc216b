-------------------------------- MODULE Repos --------------------------------
(* C17: every path resolves to its nearest enclosing repository.
   Folders: "" (the base), "a", "a/b", "a/b/c", "d".  Each is not there, a plain
   folder (1) or the root of a repository (2); head says which commit the
   repository is at (0: none yet, 9: cloned from the source, 8: the same without the
   commits before it, when only the last commits were asked for). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Base   \* Base: the base itself may be a repository
VARIABLES s, last

F == {"", "a", "a/b", "a/b/c", "d"}
Up(n) == CASE n = "a/b/c" -> "a/b" [] n = "a/b" -> "a" [] OTHER -> ""
(* paths to ask about, and the folder they are in *)
Paths == F \cup {"a/f", "a/b/c/f/g", "d/.x/y", "no"}
In(p) == CASE p = "a/f" -> "a" [] p = "a/b/c/f/g" -> "a/b/c" [] p = "d/.x/y" -> "d" [] p = "no" -> "" [] OTHER -> p
Above(n) == CASE n = "a/b/c" -> {"a/b", "a", ""} [] n = "a/b" -> {"a", ""} [] n = "" -> {} [] OTHER -> {""}
Below(n) == {m \in F : n \in Above(m)}
RECURSIVE Nearest(_, _)
Nearest(st, n) == IF st.f[n] = 2 THEN n ELSE IF n = "" THEN "none" ELSE Nearest(st, Up(n))

(* after n was made (with the folders above it), is gone (with what is below it) *)
Made(st, n, v, h) == [f |-> [m \in F |-> IF m = n THEN v ELSE IF m \in Above(n) /\ st.f[m] = 0 THEN 1 ELSE st.f[m]],
                      head |-> [st.head EXCEPT ![n] = h]]
Gone(st, n) == [f |-> [m \in F |-> IF m = n \/ m \in Below(n) THEN 0 ELSE st.f[m]],
                head |-> [m \in F |-> IF m = n \/ m \in Below(n) THEN 0 ELSE st.head[m]]]
Refuse(st) == {[res |-> "refused", post |-> st]}
Empty(st, n) == st.head[n] = 0 /\ \A m \in Below(n) : st.f[m] = 0
Clone(st, n, depth) == IF Nearest(st, n) # "none" \/ (st.f[n] # 0 /\ ~Empty(st, n)) THEN Refuse(st)
                ELSE {[res |-> "ok", post |-> Made(st, n, 2, IF depth = 1 THEN 8 ELSE 9)]}

Outcomes(st, op) ==
  CASE op.op = "ask" ->
         LET r == Nearest(st, In(op.p)) IN
         {[res |-> IF r = "none" THEN "not in one" ELSE "[" \o r \o "] " \o ToString(st.head[r]), post |-> st]}
    [] op.op = "init" ->
         IF Nearest(st, op.p) # "none" THEN Refuse(st) ELSE {[res |-> "ok", post |-> Made(st, op.p, 2, 0)]}
    [] op.op = "clone" -> IF op.bad THEN Refuse(st) ELSE Clone(st, op.p, op.depth)
    [] op.op = "clonefrom" -> Clone(st, op.p, op.depth)   \* from the folder above, under the name of the source
    [] op.op = "rm" -> {[res |-> "ok", post |-> Gone(st, op.p)]}
    [] op.op = "outside" ->    \* done without the library
         CASE op.what = "rm" -> {[res |-> "ok", post |-> Gone(st, op.p)]}
           [] op.what = "unrepo" -> {[res |-> "ok", post |-> [f |-> [st.f EXCEPT ![op.p] = 1], head |-> [st.head EXCEPT ![op.p] = 0]]]}
           [] op.what = "init" -> {[res |-> "ok", post |-> Made(st, op.p, 2, 0)]}
           [] op.what = "mkdir" -> {[res |-> "ok", post |-> Made(st, op.p, 1, 0)]}
           [] op.what = "commit" -> {[res |-> "ok", post |-> [st EXCEPT !.head[op.p] = IF @ = 1 THEN 2 ELSE 1]]}
    [] OTHER -> {}
Ops(st) ==
  [op: {"ask"}, p: Paths] \cup [op: {"init"}, p: F]
  \cup {x \in [op: {"clone"}, p: F \ {""}, bad: BOOLEAN, depth: {0, 1}] : x.bad => x.depth = 0}
  \cup {x \in [op: {"clonefrom"}, p: {"a/b"}, depth: {0, 1}] : st.f["a"] # 0}
  \cup {x \in [op: {"rm"}, p: F \ {""}] : st.f[x.p] # 0}
  \cup {x \in [op: {"outside"}, what: {"rm", "unrepo", "init", "mkdir", "commit"}, p: F] :
          CASE x.what = "rm" -> x.p # "" /\ st.f[x.p] # 0
            [] x.what = "unrepo" -> st.f[x.p] = 2
            [] x.what = "init" -> st.f[x.p] # 2 /\ (x.p = "" => Base)
            [] x.what = "mkdir" -> st.f[x.p] = 0
            [] x.what = "commit" -> st.f[x.p] = 2}

Init == /\ s \in [f: [F -> {0, 1, 2}], head: [F -> {0, 1, 9}]]
        /\ \A n \in F : (s.f[n] = 0 => \A m \in Below(n) : s.f[m] = 0)
        /\ \A n \in F : s.head[n] # 0 => s.f[n] = 2
        /\ \A n \in F : s.f[n] = 2 => s.head[n] = (CASE n = "a" -> 1 [] n = "d" -> 9 [] OTHER -> 0)
        /\ s.f[""] # 0 /\ (s.f[""] = 2 => Base)
        /\ last = [op |-> "init", res |-> "init"]
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == /\ \A n \in F : s.f[n] \in 0..2 /\ (s.f[n] = 0 => \A m \in Below(n) : s.f[m] = 0)
          /\ \A n \in F : s.head[n] # 0 => s.f[n] = 2
(* the nearest one: a repository, above or at the path, and none between *)
NearestIsNearest == \A n \in F : LET r == Nearest(s, n) IN
  IF r = "none" THEN \A m \in Above(n) \cup {n} : s.f[m] # 2
  ELSE /\ s.f[r] = 2 /\ r \in Above(n) \cup {n}
       /\ \A m \in (Above(n) \cup {n}) \cap Below(r) : s.f[m] # 2
(* the library makes no repository inside of another *)
NeverNests == [][last'.op.op \in {"init", "clone", "clonefrom"} =>
   \A n \in F : (s'.f[n] = 2 /\ s.f[n] # 2) => Nearest(s, n) = "none"]_<<s, last>>
RefusalsAreNoOps == [][last'.res = "refused" => s' = s]_<<s, last>>
OthersStay == [][\A n \in F : s.f[n] = 2 /\ (s'.f[n] # 2 \/ s'.head[n] # s.head[n]) =>
   last'.op.op \in {"rm", "outside"}]_<<s, last>>
=============================================================================
