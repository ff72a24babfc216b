------------------------------- MODULE Xattr -------------------------------
(* C16: extended attributes are a per-path key-value store, and the sparse mark
   is inherited by everything below.
   s.x[p][k] is the value of key k on path p ("none": absent); the key "mark" is
   the one the sparse mark is kept under.  s.here[p]: the path exists. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Live,      \* paths that operations are applied to
          MarkOn,    \* paths that are marked and cleared
          Absent,    \* paths that never exist (nothing there, or a link to nowhere)
          Keys, Values, StartMarks, OpNames
VARIABLES s, last

Paths == {"a", "d", "d/f", "d/e", "d/e/g"}
AllKeys == {"k1", "k2", "mark"}
Parent(p) == CASE p = "d/f" -> "d" [] p = "d/e" -> "d" [] p = "d/e/g" -> "d/e" [] OTHER -> "top"
RECURSIVE Above(_)
Above(p) == IF p = "top" THEN {} ELSE {p} \cup Above(Parent(p))

Blank == [k \in AllKeys |-> "none"]
Init == /\ s \in {[x |-> [p \in Paths |-> [Blank EXCEPT !["mark"] = IF p \in M THEN "1" ELSE "none"]],
                   here |-> [p \in Paths |-> TRUE]] : M \in SUBSET StartMarks}
        /\ last = [op |-> "init", res |-> "init"]

Here(st, p) == p \in Paths /\ st.here[p]
Put(st, p, k, v) == [st EXCEPT !.x[p][k] = v]
O(r, st) == {[res |-> r, post |-> st]}
IsSparse(st, p) == \E q \in Above(p) : st.x[q]["mark"] = "1"
Listing(st, p) == "k1=" \o st.x[p]["k1"] \o ",k2=" \o st.x[p]["k2"] \o ",mark=" \o st.x[p]["mark"]

Outcomes(st, op) ==
  LET p == op.p IN
  CASE ~Here(st, p) ->
         IF op.op = "sparse"     \* what is said about a path that is not there is left open
         THEN O("oserror", st) \cup O("yes", st) \cup O("no", st)
         ELSE IF op.op = "set" /\ op.v = "text" THEN O("typeerror", st)
         ELSE IF op.op = "setmany" /\ op.v = "text" THEN O("typeerror", st) \cup O("oserror", st)
         ELSE O("oserror", st)
    [] op.op = "set" -> IF op.v = "text" THEN O("typeerror", st) ELSE O("ok", Put(st, p, op.k, op.v))
    \* several at once: k1 gets v, k2 gets w; when one of the values is refused the other may or may not be there
    [] op.op = "setmany" -> IF op.v = "text"
                            THEN O("typeerror", st) \cup O("typeerror", Put(st, p, "k2", "w"))
                            ELSE O("ok", Put(Put(st, p, "k1", op.v), p, "k2", "w"))
    [] op.op = "get" -> IF st.x[p][op.k] = "none" THEN O("absent", st) ELSE O("=" \o st.x[p][op.k], st)
    [] op.op = "del" -> IF st.x[p][op.k] = "none"
                        THEN O(IF op.v = "fail" THEN "oserror" ELSE "ok", st)
                        ELSE O("ok", Put(st, p, op.k, "none"))
    [] op.op = "list" -> O(Listing(st, p), st)
    [] op.op = "mark" -> O("ok", Put(st, p, "mark", "1"))
    [] op.op = "clear" -> O("ok", Put(st, p, "mark", "none"))
    [] op.op = "sparse" -> O(IF IsSparse(st, p) THEN "yes" ELSE "no", st)
    \* the world: a file is removed, or replaced by a new one
    [] op.op = "remove" -> O("ok", [st EXCEPT !.here[p] = FALSE, !.x[p] = Blank])
    [] OTHER -> {}

Files == {"a", "d/f", "d/e/g"}
AllOps(st) ==
  [op: {"set", "setmany"}, p: Live \cup Absent, k: Keys, v: Values \cup {"text"}]
  \cup [op: {"get"}, p: Live \cup Absent, k: Keys, v: {""}]
  \cup [op: {"del"}, p: Live \cup Absent, k: Keys, v: {"", "fail"}]
  \cup [op: {"list", "sparse"}, p: Live \cup Absent, k: {""}, v: {""}]
  \cup [op: {"mark", "clear"}, p: MarkOn \cup Absent, k: {""}, v: {""}]
  \cup [op: {"remove"}, p: {q \in Live \cap Files : st.here[q]}, k: {""}, v: {""}]
Ops(st) == {o \in AllOps(st) : o.op \in OpNames /\ (o.op = "setmany" => o.k = CHOOSE k \in Keys : TRUE)}

Next == \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == \A p \in Paths : \A k \in AllKeys : s.x[p][k] \in Values \cup {"none", "1", "w"}
GoneHasNothing == \A p \in Paths : ~s.here[p] => s.x[p] = Blank
(* only the named key of the named path changes *)
OnlyNamed == [][\A p \in Paths : \A k \in AllKeys : s'.x[p][k] # s.x[p][k] =>
                   /\ last'.op.p = p
                   /\ CASE last'.op.op \in {"set", "del"} -> k = last'.op.k
                        [] last'.op.op = "setmany" -> k \in {"k1", "k2"}
                        [] last'.op.op \in {"mark", "clear"} -> k = "mark"
                        [] last'.op.op = "remove" -> TRUE
                        [] OTHER -> FALSE]_<<s, last>>
SetIsReadable == [][(last'.op.op = "set" /\ last'.res = "ok") => s'.x[last'.op.p][last'.op.k] = last'.op.v]_<<s, last>>
DeletedIsGone == [][(last'.op.op = "del" /\ last'.res = "ok") => s'.x[last'.op.p][last'.op.k] = "none"]_<<s, last>>
RefusedChangesNothing == [][(last'.res \in {"absent", "oserror"}) => s' = s]_<<s, last>>
MarkedSubtree == [][(last'.op.op = "mark" /\ last'.res = "ok") =>
                      \A p \in Paths : last'.op.p \in Above(p) => IsSparse(s', p)]_<<s, last>>
=============================================================================
