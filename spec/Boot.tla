--------------------------------- MODULE Boot ---------------------------------
(* C01: bootstrapping a remote tree into an anchored folder.
   A path is a number whose digits are the names along it (12 is b in a, 0 the root); the name
   3 is one that a sparse selection takes.  r is the remote: its objects with their kind and
   the version v of their metadata, in the order of their paths; an object is identified by
   its path.  l is the local tree: directories, placeholders (link) and fetched files with the
   metadata recorded there, and what the user made there (udir, ufile).  marks are the folders
   known to be sparse. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Paths, OpNames, Fails, Selections, MaxRemote, MaxOps
VARIABLES s, last

Parent(p) == p \div 10
RECURSIVE Above(_)
Above(p) == IF Parent(p) = 0 THEN {} ELSE {Parent(p)} \cup Above(Parent(p))
Under(p, q) == q = 0 \/ p = q \/ q \in Above(p)
RECURSIVE Top(_)
Top(p) == IF Parent(p) = 0 THEN p ELSE Top(Parent(p))
RECURSIVE Seqn(_)
Seqn(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x.p <= y.p IN <<x>> \o Seqn(S \ {x})
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Set(t) == {t[i] : i \in DOMAIN t}
Has(t, p) == \E e \in Set(t) : e.p = p
At(t, p) == CHOOSE e \in Set(t) : e.p = p
Is(t, p, ks) == p = 0 \/ \E e \in Set(t) : e.p = p /\ e.k \in ks
Object(p, k, v) == [p |-> p, k |-> k, v |-> v]
Entry(p, k, v, c) == [p |-> p, k |-> k, v |-> v, c |-> c]
Trees == {t \in SUBSET {Object(p, k, 1) : p \in Paths, k \in {"dir", "file"}} :
            /\ \A e \in t : Parent(e.p) = 0 \/ Object(Parent(e.p), "dir", 1) \in t
            /\ \A e, f \in t : e.p = f.p => e = f
            /\ Cardinality(t) <= MaxRemote}
Init == /\ s \in [r : {Seqn(t) : t \in Trees}, l : {<<>>}, marks : {<<>>}]
        /\ last = [op |-> "init", res |-> "init"]
-----------------------------------------------------------------------------
\* which objects a selection takes
Incl(st, op, p) ==
  LET t == Top(p)
      taken == t \notin Set(op.skip) /\ (op.only = <<>> \/ t \in Set(op.only))
      thin == t \in Set(op.sparse)
  IN taken /\ (thin /\ At(st.r, p).k = "file" => p % 10 = 3)
Wanted(st, op) == {e \in Set(st.r) : Under(e.p, op.at) /\ Incl(st, op, e.p)}
Fresh(e) == Entry(e.p, IF e.k = "dir" THEN "dir" ELSE "link", e.v, 0)
\* the local entry of e afterwards: what is there stays and learns the metadata
After(st, e) == IF Has(st.l, e.p) THEN [At(st.l, e.p) EXCEPT !.v = e.v] ELSE Fresh(e)
Build(st, S) == {e \in Set(st.l) : ~\E w \in S : w.p = e.p} \cup {After(st, e) : e \in S}
Marked(st, op) == {t \in Set(op.sparse) : t \in {e.p : e \in Wanted(st, op)} /\ At(st.r, t).k = "dir"}
Closed(S, st) == \A e \in S : Parent(e.p) = 0 \/ Has(st.l, Parent(e.p)) \/ \E f \in S : f.p = Parent(e.p)
\* what the caller gets to see, at included
Yields(st, op) == ToString(Sorted({op.at} \cup {e.p : e \in Wanted(st, op)}))
Boot(st, op) ==
  LET W == Wanted(st, op)
      out == op.at # 0 /\ (op.at \in Set(op.skip) \/ (op.only # <<>> /\ op.at \notin Set(op.only)))
      News == {e \in W : ~Has(st.l, e.p) \/ At(st.l, e.p).v # e.v}
  IN IF out THEN {[res |-> "<<>>", post |-> st]}
     ELSE {[res |-> Yields(st, op), post |-> [st EXCEPT !.l = Seqn(Build(st, W)), !.marks = Sorted(Set(@) \cup Marked(st, op))]]}
          \cup IF ~op.fail THEN {}
               ELSE {[res |-> "interrupted", post |-> [st EXCEPT !.l = Seqn(Build(st, S)), !.marks = Sorted(Set(@) \cup m)]]
                      : S \in {S \in SUBSET News : Closed(S, st)}, m \in SUBSET Marked(st, op)}

Outcomes(st, op) ==
  CASE op.op = "boot" -> Boot(st, op)
    [] op.op = "again" -> {[res |-> "refused", post |-> st]}     \* not recursive, and there already
    [] op.op = "noid" -> {[res |-> "refused", post |-> st]}      \* from metadata without an id
    [] op.op = "fetch" -> {[res |-> "done", post |-> [st EXCEPT !.l = Seqn({IF e.p = op.at THEN [e EXCEPT !.k = "file", !.c = 1] ELSE e : e \in Set(@)})]]}
    [] op.op = "edit" -> {[res |-> "done", post |-> [st EXCEPT !.l = Seqn({IF e.p = op.at THEN [e EXCEPT !.c = 3] ELSE e : e \in Set(@)})]]}
    [] op.op = "mk" -> {[res |-> "done", post |-> [st EXCEPT !.l = Seqn(Set(@) \cup {Entry(op.at, op.k, 0, IF op.k = "ufile" THEN 2 ELSE 0)})]]}
    [] op.op = "rm" -> {[res |-> "done", post |-> [st EXCEPT !.l = Seqn({e \in Set(@) : ~Under(e.p, op.at)}), !.marks = Sorted({m \in Set(@) : m # op.at})]]}
    [] op.op = "grow" -> {[res |-> "done", post |-> [st EXCEPT !.r = Seqn(Set(@) \cup {Object(op.at, op.k, 1)})]]}
    [] op.op = "change" -> {[res |-> "done", post |-> [st EXCEPT !.r = Seqn({IF e.p = op.at THEN [e EXCEPT !.v = 2] ELSE e : e \in Set(@)})]]}
    [] OTHER -> {}

Tops(st) == {e.p : e \in {e \in Set(st.r) : Parent(e.p) = 0}}
Ways(S) == {<<>>} \cup {<<x>> : x \in S} \cup (IF "pairs" \in Selections THEN {Sorted(x) : x \in {x \in SUBSET S : Cardinality(x) = 2}} ELSE {})
No == [at |-> 0, only |-> <<>>, skip |-> <<>>, sparse |-> <<>>, fail |-> FALSE, k |-> ""]
Op(o, p) == [No EXCEPT !.at = p] @@ [op |-> o]
Ops(st) ==
  LET tops == Tops(st)
      cached == {"dir", "link", "file"}
      boots == [op : {"boot"}, at : {0} \cup {p \in tops : Is(st.l, p, {"dir"})},
                only : IF "only" \in Selections THEN Ways(tops) ELSE {<<>>}, skip : IF "skip" \in Selections THEN Ways(tops) ELSE {<<>>},
                sparse : IF "sparse" \in Selections THEN Ways({p \in tops : At(st.r, p).k = "dir"}) ELSE {<<>>}, fail : Fails, k : {""}]
      free(p) == ~Has(st.l, p) /\ ~Has(st.r, p)
  IN {op \in boots : (op.at # 0 => op.fail = FALSE)}
     \cup {Op(o, p) : o \in {"again", "noid"} \cap OpNames, p \in {0} \cup {e.p : e \in {e \in Set(st.l) : e.k = "dir"}}}
     \cup (IF "fetch" \in OpNames THEN {Op("fetch", e.p) : e \in {e \in Set(st.l) : e.k = "link" /\ e.v = At(st.r, e.p).v}} ELSE {})
     \cup (IF "edit" \in OpNames THEN {Op("edit", e.p) : e \in {e \in Set(st.l) : e.k = "file" /\ e.c = 1}} ELSE {})
     \cup (IF "mk" \in OpNames THEN {[No EXCEPT !.at = p, !.k = k] @@ [op |-> "mk"] : k \in {"udir", "ufile"},
                                     p \in {p \in Paths : free(p) /\ Is(st.l, Parent(p), {"dir", "udir"})}} ELSE {})
     \cup (IF "rm" \in OpNames THEN {Op("rm", e.p) : e \in Set(st.l)} ELSE {})
     \cup (IF "grow" \in OpNames THEN {[No EXCEPT !.at = p, !.k = k] @@ [op |-> "grow"] : k \in {"dir", "file"},
                                       p \in {p \in Paths : free(p) /\ Is(st.r, Parent(p), {"dir"}) /\ ~\E q \in Above(p) : Is(st.l, q, {"ufile"})}} ELSE {})
     \cup (IF "change" \in OpNames THEN {Op("change", e.p) : e \in {e \in Set(st.r) : e.k = "file" /\ e.v = 1 /\ ~Is(st.l, e.p, {"file"})}} ELSE {})
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
Untouched(e) == e.k \in {"file", "ufile", "udir"}
IsTree == \A e \in Set(s.l) : Is(s.l, Parent(e.p), {"dir", "udir"})
OneToOne == \A e \in Set(s.l) : e.k \in {"udir", "ufile"} \/ (Has(s.r, e.p) /\ (e.k = "dir") = (At(s.r, e.p).k = "dir"))
Booted == last'.op.op = "boot" /\ last'.res # "interrupted"
Mirrors == [][(Booted /\ last'.res # "<<>>") => \A e \in Set(s.r) : (Under(e.p, last'.op.at) /\ Incl(s, last'.op, e.p)) =>
                 Is(s'.l, e.p, IF e.k = "dir" THEN {"dir"} ELSE {"link", "file"}) /\ At(s'.l, e.p).v = e.v]_<<s, last>>
NothingElse == [][last'.op.op = "boot" => \A e \in Set(s'.l) : Has(s.l, e.p) \/ (Under(e.p, last'.op.at) /\ Incl(s, last'.op, e.p))]_<<s, last>>
KeepsData == [][last'.op.op = "boot" => \A e \in Set(s.l) : Untouched(e) => e \in Set(s'.l)]_<<s, last>>
=============================================================================
