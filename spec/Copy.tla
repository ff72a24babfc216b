-------------------------------- MODULE Copy --------------------------------
(* C11: copying never clobbers and always copies exactly.
   A small file system.  s.e[p] is the entry at path p: "none", "dir", "=q" (a file whose inode was born at q, so two paths with the
   same one are hard links) or ">q" (a symbolic link to path q).  s.c[q] is the content
   of the inode born at q, s.m[q] the cached metadata it carries ("none": no metadata). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Metas,     \* may files carry metadata
          OutKinds,  \* what is at the place copied out to
          SrcKinds, DstKinds, InOut,   \* what is at a, at b, in the folder copied out to
          MaxOps,    \* operations in a row
          OpNames
VARIABLES s, last

Paths == {"a", "b", "ext", "gone", "o", "o/a", "o/b"}
File == [a |-> "=a", b |-> "=b", ext |-> "=ext", gone |-> "=gone", o |-> "=o", oa |-> "=o/a", ob |-> "=o/b"]
Self(p) == CASE p = "o/a" -> "=o/a" [] p = "o/b" -> "=o/b" [] OTHER -> File[p]
Born(v) == CASE v = "=a" -> "a" [] v = "=b" -> "b" [] v = "=ext" -> "ext" [] v = "=gone" -> "gone"
             [] v = "=o" -> "o" [] v = "=o/a" -> "o/a" [] v = "=o/b" -> "o/b" [] OTHER -> "-"
Dest(v) == CASE v = ">a" -> "a" [] v = ">b" -> "b" [] v = ">ext" -> "ext" [] v = ">gone" -> "gone"
             [] v = ">o" -> "o" [] v = ">self" -> "self" [] v = ">deep" -> "deep" [] OTHER -> "-"
IsLink(v) == Dest(v) # "-"
\* the path a path leads to; "self" for a link to itself, "deep" for one into a missing folder
RECURSIVE Final(_, _, _)
Final(st, p, n) == IF p \notin Paths THEN p
                   ELSE IF IsLink(st.e[p]) THEN IF n = 0 THEN "self" ELSE Final(st, Dest(st.e[p]), n - 1)
                   ELSE p
Fin(st, p) == Final(st, p, 4)
At(st, p) == LET f == Fin(st, p) IN IF f \in Paths THEN st.e[f] ELSE "none"
IsFile(st, p) == Born(At(st, p)) # "-"
Content(st, p) == st.c[Born(At(st, p))]
Meta(st, p) == st.m[Born(At(st, p))]
IsDir(st, p) == At(st, p) = "dir"
Same(st, x, y) == IsFile(st, x) /\ IsFile(st, y) /\ At(st, x) = At(st, y)

Blank == [p \in Paths |-> "none"]
Init == /\ \E a \in SrcKinds : \E b \in DstKinds : \E o \in OutKinds : \E oa \in InOut :
            \E ca \in {"A", "E"} : \E cb \in {"B", "E"} : \E ma \in Metas : \E mb \in Metas :
             /\ ~(a = ">b" /\ b \in {">a", "=a"}) /\ (b = "=a" => a = "=a")
             /\ (oa = "=a" => a = "=a") /\ (o # "dir" => oa = "none")
             /\ (a # "=a" => ca = "A" /\ ma = "none") /\ (b # "=b" => cb = "B" /\ mb = "none")
             /\ (ca = "E" => cb = "B")
             /\ (o # "dir" \/ oa # "none" => b \in {"none", "=b"} /\ a \in {"=a", "none", ">ext"})
             /\ s = [e |-> [Blank EXCEPT !["a"] = a, !["b"] = b, !["ext"] = "=ext", !["o"] = o, !["o/a"] = oa],
                     c |-> [Blank EXCEPT !["a"] = IF a = "=a" THEN ca ELSE "none", !["b"] = IF b = "=b" THEN cb ELSE "none",
                                         !["ext"] = "X", !["o/a"] = IF oa = "=o/a" THEN "O" ELSE "none",
                                         !["o"] = IF o = "=o" THEN "F" ELSE "none"],
                     m |-> [Blank EXCEPT !["a"] = IF ma = "m" THEN "MA" ELSE "none",
                                         !["b"] = IF mb = "m" THEN "MB" ELSE "none"]]
        /\ last = [op |-> "init", res |-> "init"]

\* the target ends up with the content: written through links into what is there, or put there anew
Write(st, y, con, met, anew) ==
  LET f == Fin(st, y)
      v == At(st, y) IN
  (IF Born(v) # "-"
   THEN {[st EXCEPT !.c[Born(v)] = con, !.m[Born(v)] = met]}
   ELSE IF f \in Paths
   THEN {[st EXCEPT !.e[f] = Self(f), !.c[f] = con, !.m[f] = met]}
   ELSE {})
  \cup (IF IsLink(st.e[y]) THEN {[st EXCEPT !.e[y] = Self(y), !.c[y] = con, !.m[y] = anew]} ELSE {})
R(r, S) == {[res |-> r, post |-> pst] : pst \in S}

Copying2(st, x, y, force, meta, con, met) ==
  IF st.e[y] # "none" /\ ~force THEN R("exists", {st})
  ELSE IF ~IsFile(st, x) THEN R("error", {st})
  ELSE IF y = "nofolder" THEN R("error", {st})
  ELSE IF Same(st, x, y) THEN R("error", {st}) \cup R("ok", {st})
  ELSE IF IsDir(st, y)
       THEN R("error", {st}) \cup (IF Fin(st, y) # "o" \/ meta THEN {}
                                   ELSE LET z == "o/" \o x IN
                                        IF Same(st, x, z) THEN R("ok", {st}) ELSE R("ok", Write(st, z, con, IF IsFile(st, z) THEN Meta(st, z) ELSE "none", "none")))
  ELSE IF Fin(st, y) \notin Paths
       THEN R("error", {st}) \cup R("ok", Write(st, y, con, "none", IF meta THEN met ELSE "none"))
  ELSE LET has == IsFile(st, y)
           own == IF has THEN Meta(st, y) ELSE "none" IN
       IF ~meta THEN R("ok", Write(st, y, con, own, "none"))
       \* asked for, onto a link or onto a file that has its own metadata: which is kept, and whether that is an
       \* error, is left open
       ELSE IF IsLink(st.e[y])
            THEN UNION {R(r, Write(st, y, con, m, n)) : r \in {"ok", "error", "exists"}, m \in {own, met}, n \in {own, met}}
       ELSE IF own = "none" THEN R("ok", Write(st, y, con, met, met))
       ELSE UNION {R(r, Write(st, y, con, m, m)) : r \in {"ok", "error", "exists"}, m \in {own, met}}
Copying(st, x, y, force, meta) ==
  UNION {Copying2(st, x, y, force, meta, con, met) :
         con \in {IF IsFile(st, x) THEN Content(st, x) ELSE "none"}, met \in {IF IsFile(st, x) THEN Meta(st, x) ELSE "none"}}

\* nofolder: a path below a folder that does not exist
Entry(st, y) == IF y = "nofolder" THEN "none" ELSE st.e[y]
Copy(st, x, y, force, meta) ==
  IF y = "nofolder" THEN R("error", {st}) ELSE Copying(st, x, y, force, meta)

Outcomes(st, op) ==
  CASE op.op \in {"copy_to", "copy_from"} -> Copy(st, op.x, op.y, op.force, op.meta)
    [] op.op \in {"copy_outto", "copy_infrom"} ->
         IF op.y = "nofolder" THEN R("error", {st})
         ELSE IF ~IsDir(st, op.y) THEN R("error", {st})
         ELSE IF Fin(st, op.y) # "o" THEN {}
         ELSE Copy(st, op.x, "o/" \o op.x, op.force, FALSE)
    [] OTHER -> {}

Ops(st) ==
  {o \in [op: {"copy_to", "copy_from"}, x: {"a", "b"}, y: {"a", "b", "o", "o/a", "nofolder"}, force: BOOLEAN, meta: BOOLEAN]
         \cup [op: {"copy_outto", "copy_infrom"}, x: {"a", "b"}, y: {"o", "b", "ext", "nofolder"}, force: BOOLEAN, meta: {FALSE}] :
     /\ o.op \in OpNames
     /\ o.y = "o/a" => st.e["o"] = "dir"
     \* what a forced copy onto a folder leaves in it is looked at for one folder only
     /\ (o.force /\ o.y \in Paths /\ o.op \in {"copy_to", "copy_from"} /\ IsDir(st, o.y)) => Fin(st, o.y) = "o"
     /\ o.meta => Metas # {"none"} /\ IsFile(st, o.x) /\ Meta(st, o.x) # "none"
     /\ (o.op \in {"copy_outto", "copy_infrom"} /\ o.y = "b") => Fin(st, "b") \in Paths /\ (IsDir(st, "b") => Fin(st, "b") = "o")}

Next == TLCGet("level") <= MaxOps /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == \A p \in Paths : s.c[p] \in {"none", "A", "B", "E", "X", "O", "F"} /\ s.m[p] \in {"none", "MA", "MB"}
\* nothing is overwritten unless that was asked for
NeverClobbers == [][(last'.op.op # "init" /\ ~last'.op.force) =>
                     \A p \in Paths : s.e[p] # "none" => s'.e[p] = s.e[p] /\ s'.c[p] = s.c[p] /\ s'.m[p] = s.m[p]]_<<s, last>>
SourceKept == [][LET x == last'.op.x IN
                 /\ s'.e[x] = s.e[x]
                 /\ IsFile(s, x) => Content(s', x) = Content(s, x) /\ Meta(s', x) = Meta(s, x)]_<<s, last>>
CopiedExactly == [][(last'.res = "ok" /\ last'.op.op \in {"copy_to", "copy_from"} /\ ~IsDir(s, last'.op.y)) =>
                     Content(s', last'.op.y) = Content(s, last'.op.x)]_<<s, last>>
OnlyIntoFolders == [][(last'.op.op \in {"copy_outto", "copy_infrom"} /\ last'.res = "ok") => IsDir(s, last'.op.y)]_<<s, last>>
MetaOnlyOnRequest == [][(~last'.op.meta) => \A p \in Paths : s'.m[p] # s.m[p] => s'.m[p] = "none"]_<<s, last>>
RefusedChangesNothing == [][(last'.res \in {"exists"} /\ ~last'.op.force) => s' = s]_<<s, last>>
=============================================================================
