------------------------------- MODULE Swap -------------------------------
(* C10: swapping two paths exchanges them completely or changes nothing.
   Two paths a and b.  s.k holds the kind of item each starts with; s.at says where
   each item is now ("a", "b", or "other": kept under some other name); s.left: some
   entry that was not there before is left over. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Nests, Spells, Faults
VARIABLES s, last

(* kinds: file, secret (nobody may read it), dir, full (a directory with things in it), link (to a file),
   dlink (to a directory), xlink (to a file on another device), broken (link to nothing), none *)
Present(k) == k \notin {"none", "broken"}    \* swapping is only offered for things that exist
(* nest: b is a path inside a *)
Init == /\ s \in {st \in [k: [a: Kinds, b: Kinds], at: {[a |-> "a", b |-> "b"]}, nest: Nests, left: {FALSE}] :
                    /\ (st.nest => st.k["a"] = "full" /\ st.k["b"] \in {"file", "dir"})}
        /\ last = [op |-> "init", res |-> "init"]

Swapped(st) == [st EXCEPT !.at = [a |-> st.at["b"], b |-> st.at["a"]]]
CanSwap(st) == Present(st.k["a"]) /\ Present(st.k["b"]) /\ ~st.nest
O(r, st) == {[res |-> r, post |-> st]}

(* what may be found after the process was killed: nothing is lost *)
Places(st) == {[st EXCEPT !.at = f, !.left = l] :
                 f \in {g \in [{"a", "b"} -> {"a", "b", "other"}] : g["a"] # g["b"]}, l \in BOOLEAN}
IsCrash(f) == f \in {"crash1", "crash2", "crash3", "crash4"}
IsRename(f) == f \in {"rename1", "rename2", "rename3", "rename4"}

(* nothing is kept elsewhere, so that another operation can be looked at *)
Whole(st) == st.at["a"] \in {"a", "b"} /\ st.at["b"] \in {"a", "b"} /\ ~st.left
Outcomes(st, op) ==
  IF ~Whole(st) THEN {}
  ELSE IF ~CanSwap(st)
  THEN O("error", st)
  ELSE CASE op.op = "swap" -> IF op.atomic = "yes" THEN O("ok", Swapped(st)) ELSE O("error", st)
         [] op.op = "carefree" ->
            IF op.atomic = "yes" \/ op.fault = "none" THEN O("ok", Swapped(st))
            ELSE IF IsCrash(op.fault) THEN UNION {O("crash", p) \cup O("ok", Swapped(st)) : p \in Places(st)}
            \* one step fails once: everything is put back (or it was not needed)
            ELSE IF IsRename(op.fault) \/ op.fault = "mkdir" THEN O("ok", Swapped(st)) \cup O("error", st)
            \* removing the temporary folder fails: it may stay behind, empty
            ELSE IF op.fault = "rmdir"
                 THEN UNION {O("ok", [p EXCEPT !.left = l]) \cup O("error", [p EXCEPT !.left = l]) : p \in {Swapped(st)}, l \in BOOLEAN}
                      \cup O("error", st)
            \* every step from some step on fails: nothing is lost
            ELSE UNION {O("error", p) \cup O("ok", Swapped(st)) : p \in Places(st)}
         [] OTHER -> {}

Ops(st) ==
  [op: {"swap"}, who: {"ab", "ba"}, sp: Spells, atomic: {"yes", "no"}, fault: {"none"}]
  \cup [op: {"carefree"}, who: {"ab", "ba"}, sp: Spells, atomic: {"yes"}, fault: {"none"}]
  \cup {o \in [op: {"carefree"}, who: {"ab", "ba"}, sp: Spells, atomic: {"no"}, fault: Faults] :
          o.fault # "none" => CanSwap(st) /\ o.sp \in {"aa", "rr"}}

Next == \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
(* neither item is ever lost or put on top of the other *)
NothingLost == s.at["a"] # s.at["b"]
AllOrNothing == [][/\ (last'.res = "ok" => s'.at["a"] = s.at["b"] /\ s'.at["b"] = s.at["a"])
                   /\ (last'.res = "error" /\ last'.op.fault \in {"none", "mkdir", "rename1", "rename2", "rename3", "rename4"}
                         => s' = s)]_<<s, last>>
NoLeftovers == [][last'.op.fault \in {"none", "mkdir", "rename1", "rename2", "rename3", "rename4"} => ~s'.left]_<<s, last>>
MissingIsRefused == [][(~Present(s.k["a"]) \/ ~Present(s.k["b"])) => last'.res = "error" /\ s' = s]_<<s, last>>
=============================================================================
