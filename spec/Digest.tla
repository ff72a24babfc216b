------------------------------- MODULE Digest -------------------------------
(* C14: digests depend only on the content, and validation detects differences.
   h is a multipart hasher: its part size and how much was fed to it (in symbols; the
   binding picks how many bytes a symbol is and how they are chunked).  f is a file:
   its length and which variant of the bytes it has.  rec is what was recorded for it:
   which of tag, checksum and size, for which content, part size and algorithm.
   A tag is described by the lengths of its parts, a checksum by its algorithm. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFed, PartSizes, FileLens, Variants, Algs, Kinds, Recs, OpNames, MaxOps
VARIABLES s, last

NoFile == [there |-> FALSE, n |-> 0, v |-> 0]
Files == {NoFile} \cup {x \in [there : {TRUE}, n : FileLens, v : Variants] : x.n = 0 => x.v = 0}
NoRec == [etag |-> FALSE, sum |-> FALSE, size |-> FALSE, n |-> 0, v |-> 0, p |-> 1, alg |-> "none"]
AllRecs == {r \in [etag : BOOLEAN, sum : BOOLEAN, size : BOOLEAN, n : FileLens, v : Variants, p : PartSizes,
                   alg : Algs \cup {"none"}] :
              /\ r.n = 0 => r.v = 0
              /\ ~r.sum => r.alg = "none"
              /\ ~r.etag => r.p = CHOOSE p \in PartSizes : \A q \in PartSizes : p <= q
              /\ ~r.etag /\ ~r.sum /\ ~r.size => r.v = 0 /\ r.n = CHOOSE n \in FileLens : \A q \in FileLens : n <= q}
Init == /\ s \in [h : {[p |-> 0, n |-> 0]}, f : Files, rec : IF Recs THEN AllRecs ELSE {NoRec}, k : Kinds]
        /\ s.k # "cached" => s.rec = NoRec
        /\ last = [op |-> "init", res |-> "init"]

RECURSIVE Parts(_, _)
Parts(n, p) == IF n = 0 THEN <<>> ELSE IF n <= p THEN <<n>> ELSE <<p>> \o Parts(n - p, p)
Default(k) == IF k = "plain" THEN "blake2b" ELSE "sha256"
SameContent(st) == st.f.n = st.rec.n /\ st.f.v = st.rec.v
\* tag first, then checksum, then size
Differs(st) == IF st.rec.etag \/ st.rec.sum THEN ~SameContent(st) ELSE IF st.rec.size THEN st.f.n # st.rec.n ELSE FALSE

O(r, st) == {[res |-> r, post |-> st]}
Outcomes(st, op) ==
  CASE op.op = "new" -> O("new", [st EXCEPT !.h = [p |-> op.p, n |-> 0]])
    [] op.op = "update" -> O("fed", [st EXCEPT !.h.n = @ + op.n])
    \* a digest may be taken at any time and changes nothing
    [] op.op = "digest" -> O(ToString(Parts(st.h.n, st.h.p)), st)
    [] op.op = "etag" -> O(IF st.f.there THEN ToString(Parts(st.f.n, op.p)) ELSE "none", st)
    [] op.op = "checksum" ->
         O(IF ~st.f.there THEN "none"
           ELSE ToString([i \in 1 .. Len(op.algs) |-> IF op.algs[i] = "default" THEN Default(st.k) ELSE op.algs[i]]), st)
    [] op.op = "write" -> O("written", [st EXCEPT !.f = [there |-> TRUE, n |-> op.n, v |-> op.v]])
    [] op.op = "unlink" -> O("gone", [st EXCEPT !.f = NoFile])
    [] op.op = "validate" -> O(IF Differs(st) THEN "reported" ELSE "silent", st)
    \* is the content another one than what was recorded
    [] op.op = "different" -> O(IF SameContent(st) THEN "no" ELSE "yes", st)
    [] OTHER -> {}

NoOp == [op |-> "", p |-> 0, n |-> 0, v |-> 0, algs |-> <<>>]
AlgLists == {<<a>> : a \in Algs \cup {"default"}} \cup {<<a, b>> : a \in Algs \cup {"default"}, b \in Algs}
Ops(st) ==
  {op \in {[NoOp EXCEPT !.op = "new", !.p = p] : p \in PartSizes}
          \cup {[NoOp EXCEPT !.op = "update", !.n = n] : n \in 0 .. MaxFed}
          \cup {[NoOp EXCEPT !.op = "digest"]}
          \cup {[NoOp EXCEPT !.op = "etag", !.p = p] : p \in PartSizes}
          \cup {[NoOp EXCEPT !.op = "checksum", !.algs = q] : q \in AlgLists}
          \cup {[NoOp EXCEPT !.op = "write", !.n = x.n, !.v = x.v] : x \in Files \ {NoFile}}
          \cup {[NoOp EXCEPT !.op = o] : o \in {"validate", "different", "unlink"}} :
     /\ op.op \in OpNames
     /\ op.op = "update" => st.h.p # 0 /\ st.h.n + op.n <= MaxFed
     /\ op.op = "digest" => st.h.p # 0
     /\ op.op \in {"validate", "different"} => st.f.there /\ st.k = "cached"
     \* with another algorithm than the class has only validation knows how to compare
     /\ op.op = "different" => st.rec.size /\ (st.rec.sum => st.rec.alg \in {"none", "sha256"})
     /\ op.op = "unlink" => st.f.there /\ st.k # "cached"}
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* the parts cover what was fed, and all but the last are full
PartsCover == s.h.p # 0 => LET q == Parts(s.h.n, s.h.p) IN
                /\ Sum(q) = s.h.n
                /\ \A i \in 1 .. Len(q) : IF i < Len(q) THEN q[i] = s.h.p ELSE q[i] \in 1 .. s.h.p
ReadsKeep == [][last'.op.op \in {"digest", "etag", "checksum", "validate", "different"} => s' = s]_<<s, last>>
\* what agrees is never reported
AgreeingSilent == [][(last'.op.op = "validate" /\ SameContent(s)) => last'.res = "silent"]_<<s, last>>
DifferentSizeReported == [][(last'.op.op = "validate" /\ s.f.n # s.rec.n /\ (s.rec.etag \/ s.rec.sum \/ s.rec.size)) =>
                             last'.res = "reported"]_<<s, last>>
=============================================================================
