-------------------------------- MODULE Meta --------------------------------
(* C06: metadata survives every stored form unchanged.
   s.m[f] is the class of the value of field f (the binding picks a value of that
   class), s.via the form the metadata last went through.  Going through a form gives
   metadata equal in every field, except where the form cannot represent a value:
   there a placeholder refuses to be written.
   s.old is a placeholder of an earlier version of the format: its version, the class
   of text in each field of the layout of that version, and what was read from it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Forms, Bases, Vary, Vary2, OldVersions, OpNames
VARIABLES s, last

Fields == {"name", "size", "created", "updated", "checksum", "checksum_cypher", "etag", "chunksize", "multi",
           "parent_id", "id", "file_id", "old_id", "gid", "user_id", "mode", "errors"}
IdClasses == {"none", "plain", "slash", "abs", "dot", "dots", "bang", "bangdot", "bar", "barslash", "hash", "empty", "long"}
Classes == [name |-> {"none", "plain", "noext", "space", "unicode", "dots", "hidden", "bang", "bangdot", "bar", "slash",
                      "hash", "semi", "newline", "empty", "digits", "long"},
            size |-> {"none", "zero", "plain", "big"},
            created |-> {"none", "utc", "micro", "offset", "naive", "text"},
            updated |-> {"none", "utc", "micro", "offset", "naive", "text"},
            checksum |-> {"none", "plain", "seps", "zeros"},
            checksum_cypher |-> {"none", "plain", "dot"},
            etag |-> {"none", "plain", "one"},
            chunksize |-> {"none", "plain", "big"},
            multi |-> {"none", "plain", "zero"},
            parent_id |-> IdClasses, id |-> IdClasses \ {"none"}, old_id |-> IdClasses,
            file_id |-> {"none", "zero", "plain", "big"},
            gid |-> {"none", "zero", "plain"},
            user_id |-> {"none", "zero", "plain", "text", "dot", "slash", "bang", "digits"},
            mode |-> {"none", "plain"},
            errors |-> {"none", "one", "two", "semi", "dot", "slash", "empty"}]

Full == [name |-> "plain", size |-> "plain", created |-> "utc", updated |-> "micro", checksum |-> "plain",
         checksum_cypher |-> "plain", etag |-> "plain", chunksize |-> "plain", multi |-> "plain", parent_id |-> "plain",
         id |-> "plain", file_id |-> "plain", old_id |-> "plain", gid |-> "plain", user_id |-> "plain", mode |-> "plain",
         errors |-> "one"]
Sparse == [f \in Fields |-> IF f = "id" THEN "plain" ELSE "none"]
Base(b) == IF b = "full" THEN Full ELSE Sparse

(* what each form may be unable to represent *)
SymlinkHard(f, c) ==
  \/ f = "name" /\ c \in {"bang", "bangdot", "bar", "slash", "hash", "empty"}
  \/ f \in {"id", "parent_id", "old_id"} /\ c \in {"bang", "bangdot", "bar", "barslash", "hash", "empty", "dots"}
  \/ f = "checksum_cypher" /\ c = "dot"
  \/ f = "user_id" /\ c \in {"bang", "digits"}
  \/ f = "errors" /\ c \in {"semi", "dot", "slash", "empty"}
XattrsHard(f, c) ==
  \/ f \in {"name", "id", "parent_id", "old_id"} /\ c = "empty"
  \/ f = "user_id" /\ c = "digits"
  \/ f = "errors" /\ c \in {"semi", "empty"}
Hard(form, m) == CASE form = "symlink" -> \E f \in Fields : SymlinkHard(f, m[f])
                   [] form \in {"xattrs", "file", "blob"} -> \E f \in Fields : XattrsHard(f, m[f])
                   [] OTHER -> FALSE

(* the layouts of the earlier versions, in the order they were introduced *)
Layout == [meta |-> <<"file_id", "size", "created", "updated", "checksum", "old_id", "gid", "user_id", "mode", "errors">>,
           mdv1 |-> <<"file_id", "size", "created", "updated", "checksum", "chunksize", "old_id", "gid", "user_id", "mode",
                      "errors">>,
           mdv2 |-> <<"file_id", "size", "created", "updated", "checksum", "etag", "chunksize", "old_id", "gid", "user_id",
                      "mode", "errors">>,
           mdv3 |-> <<"file_id", "size", "created", "updated", "checksum", "etag", "chunksize", "parent_id", "old_id", "gid",
                      "user_id", "mode", "name", "errors">>,
           mdv4 |-> <<"file_id", "size", "created", "updated", "checksum", "checksum_cypher", "etag", "chunksize",
                      "parent_id", "old_id", "gid", "user_id", "mode", "name", "errors">>,
           mdv5 |-> <<"file_id", "size", "created", "updated", "checksum", "checksum_cypher", "etag", "chunksize",
                      "parent_id", "old_id", "gid", "user_id", "mode", "name", "errors">>,
           mdv6 |-> <<"file_id", "size", "created", "updated", "checksum", "checksum_cypher", "etag", "chunksize", "multi",
                      "parent_id", "old_id", "gid", "user_id", "mode", "name", "errors">>]
\* a "|" stands for a "/" in ids; in names it stood for a "." before version 5; "!" stands for "." from version 5 on
Escapes(v) == v \in {"mdv5", "mdv6"}
OldClasses(v, f) ==
  CASE f = "name" -> IF Escapes(v) THEN {"none", "noext", "escaped", "bar"} ELSE {"none", "noext", "bar", "bang"}
    [] f \in {"parent_id", "old_id", "id"} -> IF Escapes(v) THEN {"none", "plain", "bar", "escaped"} ELSE {"none", "plain", "bar", "bang"}
    [] f \in {"created", "updated"} -> {"none", "utc", "micro", "offset"}
    [] f = "errors" -> {"none", "one", "two"}
    [] f = "user_id" -> {"none", "plain", "text"}
    [] f = "mode" -> {"none", "plain"}
    [] OTHER -> {"none", "plain"}
\* a name with the mark of a "/" in it cannot have been written from version 5 on
OldRefused(v, f, c) == f = "name" /\ Escapes(v) /\ c = "bar"
InLayout(v, f) == f = "id" \/ \E i \in 1 .. Len(Layout[v]) : Layout[v][i] = f

New(m) == [m |-> m, via |-> "none"]
Init == /\ s \in {New(Base(b)) : b \in Bases}
               \cup {New([Base(b) EXCEPT ![f] = c]) : b \in Bases, f \in Vary, c \in UNION {Classes[f] : f \in Vary}}
               \cup {New([[Base(b) EXCEPT ![f] = c] EXCEPT ![g] = d]) :
                       b \in Bases, f \in Vary2, g \in Vary2, c \in UNION {Classes[h] : h \in Vary2}, d \in UNION {Classes[h] : h \in Vary2}}
        /\ \A f \in Fields : s.m[f] \in Classes[f]
        /\ last = [op |-> "init", res |-> "init"]

O(r, st) == {[res |-> r, post |-> st]}
Outcomes(st, op) ==
  CASE op.op = "through" ->
         LET done == IF Hard(op.form, st.m) THEN st ELSE [st EXCEPT !.via = op.form] IN
         IF ~Hard(op.form, st.m) THEN O("equal", done)
         ELSE IF op.form = "symlink" THEN O("equal", done) \cup O("refused", st)
         ELSE O("equal", done) \cup O("refused", st) \cup O("altered", st)
    \* the same metadata with another value in one field is not equal to it
    [] op.op = "differs" -> O("different", st)
    \* a link that carries the name of another path is not believed
    [] op.op = "othername" -> O("refused", st)
    [] op.op = "old" -> IF OldRefused(op.form, op.f, op.c) THEN O("refused", st) ELSE O("as meant", st)
    [] OTHER -> {}

Ops(st) ==
  {o \in [op: {"through"}, form: Forms, f: {""}, c: {""}]
         \cup [op: {"differs"}, form: {""}, f: Vary, c: {"other", "gone"}]
         \cup [op: {"othername"}, form: {""}, f: {""}, c: {""}]
         \cup UNION {[op: {"old"}, form: {v}, f: {f}, c: OldClasses(v, f)] : v \in OldVersions, f \in Fields} :
     /\ o.op \in OpNames
     /\ o.op = "old" => InLayout(o.form, o.f) /\ st.via = "none" /\ (o.f = "id" => o.c # "none")
     /\ o.op = "othername" => st.via = "none"
     /\ o.op = "differs" => /\ st.via = "none"
                            /\ o.c = "gone" => st.m[o.f] \notin {"none"}}
Next == \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
TypeOK == \A f \in Fields : s.m[f] \in Classes[f]
NeverAltered == [][s'.m = s.m]_<<s, last>>
SymlinksNeverAlter == [][last'.op.form = "symlink" => last'.res # "altered"]_<<s, last>>
PlainAlwaysFits == [][(s.m = Full /\ last'.op.op = "through") => last'.res = "equal"]_<<s, last>>
=============================================================================
