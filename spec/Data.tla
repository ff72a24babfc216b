-------------------------------- MODULE Data --------------------------------
(* C13: reading and writing the data of a local file in chunks.
   A file is absent or a sequence of symbols (each stands for a block of bytes whose
   length the binding picks).  Whatever the chunk size, a read gives exactly the bytes
   asked for, a write leaves exactly the concatenation of the chunks, a stream that
   forwards what it writes forwards the chunks unchanged, and a stream that fails before
   its first chunk leaves the file alone. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen,      \* contents at the start have up to this many symbols
          ChunkSizes,  \* of reading, in symbols
          MaxRanges,   \* ranges asked for in one read
          MaxChunks, ChunkLens,   \* of a written stream
          OpNames, MaxOps
VARIABLES s, last

NONE == 99       \* no end of a range: up to the end of the file
Min(a, b) == IF a < b THEN a ELSE b
Upto(n, from) == [i \in 1 .. n |-> from + i]
Absent == [there |-> FALSE, c |-> <<>>]
File(c) == [there |-> TRUE, c |-> c]
Starts == {Absent} \cup {File(Upto(n, 0)) : n \in 0 .. MaxLen}
Init == s \in [f : Starts, g : {Absent, File(<<50>>)}] /\ last = [op |-> "init", res |-> "init"]

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
Lo(c, r) == IF r[1] < 0 THEN Len(c) + r[1] ELSE r[1]
Hi(c, r) == IF r[2] = NONE THEN Len(c) ELSE IF r[2] < 0 THEN Len(c) + r[2] ELSE Min(r[2], Len(c))
Bytes(c, r) == SubSeq(c, Lo(c, r) + 1, Hi(c, r))
IsRange(r) == IF r[1] < 0 THEN r[2] = NONE \/ (r[2] < 0 /\ r[2] >= r[1]) ELSE r[2] >= r[1]
Ranges == {r \in (-(MaxLen + 1) .. MaxLen + 1) \X (-MaxLen .. MaxLen + 2 \cup {NONE}) : IsRange(r)}
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # <<>>)

\* the chunks of a written stream of the given lengths
RECURSIVE Cut(_, _)
Cut(lens, from) == IF lens = <<>> THEN <<>> ELSE <<Upto(Head(lens), from)>> \o Cut(Tail(lens), from + Head(lens))
Chunks(op) == Cut(op.lens, 10 * op.tag)
Before(op) == SubSeq(Chunks(op), 1, op.fail - 1)          \* what came before the failure

O(r, st) == {[res |-> r, post |-> st]}
With(st, w, c) == [st EXCEPT ![w] = File(c)]
Base(st, op) == IF op.append /\ st[op.w].there THEN st[op.w].c ELSE <<>>
Outcomes(st, op) ==
  CASE op.op = "read" -> IF ~st[op.w].there THEN O("refused", st) ELSE O(ToString(st[op.w].c), st)
    [] op.op = "ranges" ->
         IF ~st[op.w].there \/ \E i \in 1 .. Len(op.ranges) : Lo(st[op.w].c, op.ranges[i]) < 0 THEN O("refused", st)
         ELSE O(ToString(IF op.ranges = <<>> THEN st[op.w].c
                         ELSE Concat([i \in 1 .. Len(op.ranges) |-> Bytes(st[op.w].c, op.ranges[i])])), st)
    \* fail = 0: the stream does not fail; k: it fails instead of giving its k-th chunk
    [] op.op = "write" ->
         IF op.fail = 0 THEN O("written", With(st, op.w, Concat(Chunks(op))))
         ELSE IF op.fail = 1 THEN O("failed", st)
         ELSE UNION {O("failed", With(st, op.w, Concat(SubSeq(Chunks(op), 1, k)))) : k \in 0 .. op.fail - 1}
    \* a stream that writes what it passes on; stop = 0: all of it is taken, k: only k chunks are
    [] op.op = "tee" ->
         IF op.fail = 0 /\ op.stop = 0
         THEN O(ToString(NonEmpty(Chunks(op))), With(st, op.w, Base(st, op) \o Concat(Chunks(op))))
         ELSE IF op.fail = 1 THEN O("failed", st)
         ELSE IF op.fail # 0
         THEN UNION {O("failed", With(st, op.w, Base(st, op) \o Concat(SubSeq(Chunks(op), 1, k)))) : k \in 0 .. op.fail - 1}
         ELSE UNION {O(ToString(NonEmpty(SubSeq(Chunks(op), 1, op.stop))),
                       With(st, op.w, Base(st, op) \o Concat(SubSeq(Chunks(op), 1, k)))) : k \in op.stop .. Len(op.lens)}
    \* one file read into the other
    [] op.op = "pipe" ->
         LET src == IF op.w = "g" THEN "f" ELSE "g" IN
         IF ~st[src].there THEN O("failed", st) ELSE O("written", With(st, op.w, Base(st, op) \o st[src].c))
    [] op.op = "unlink" -> IF st[op.w].there THEN O("gone", [st EXCEPT ![op.w] = Absent]) ELSE O("refused", st)
    [] OTHER -> {}

SeqsOf(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
NoOp == [w |-> "f", cs |-> 1, ranges |-> <<>>, lens |-> <<>>, tag |-> 1, fail |-> 0, stop |-> 0, append |-> FALSE, op |-> ""]
ReadOps == {[NoOp EXCEPT !.op = "read", !.w = w, !.cs = k] : w \in {"f", "g"}, k \in ChunkSizes}
RangeOps == {[NoOp EXCEPT !.op = "ranges", !.cs = k, !.ranges = q] : k \in ChunkSizes, q \in SeqsOf(Ranges, MaxRanges)}
Lens == SeqsOf(ChunkLens, MaxChunks)
WriteOps == {[NoOp EXCEPT !.op = "write", !.lens = q, !.fail = k] : q \in Lens, k \in 0 .. MaxChunks + 1}
TeeOps == {[NoOp EXCEPT !.op = "tee", !.lens = q, !.fail = k, !.stop = j, !.append = a] :
              q \in Lens, k \in 0 .. MaxChunks + 1, j \in 0 .. MaxChunks, a \in BOOLEAN}
PipeOps == {[NoOp EXCEPT !.op = "pipe", !.w = w, !.cs = k, !.append = a] : w \in {"f", "g"}, k \in ChunkSizes, a \in BOOLEAN}
UnlinkOps == {[NoOp EXCEPT !.op = "unlink", !.w = w] : w \in {"f", "g"}}
Ops(st) == {op \in (IF "read" \in OpNames THEN ReadOps ELSE {}) \cup (IF "ranges" \in OpNames THEN RangeOps ELSE {}) \cup
                   (IF "write" \in OpNames THEN WriteOps ELSE {}) \cup (IF "tee" \in OpNames THEN TeeOps ELSE {}) \cup
                   (IF "pipe" \in OpNames THEN PipeOps ELSE {}) \cup (IF "unlink" \in OpNames THEN UnlinkOps ELSE {}) :
              op.fail <= Len(op.lens) + 1 /\ op.stop <= Len(op.lens) /\ (op.stop = 0 \/ op.fail = 0)}
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
TypeOK == \A w \in {"f", "g"} : s[w].there \/ s[w].c = <<>>
\* reading changes nothing
ReadsKeep == [][last'.op.op \in {"read", "ranges"} => s' = s]_<<s, last>>
\* reading the whole in two adjoining ranges gives the whole
Adjoining == \A k \in 0 .. Len(s.f.c) : Bytes(s.f.c, <<0, k>>) \o Bytes(s.f.c, <<k, NONE>>) = s.f.c
\* failing before the first chunk leaves everything as it was
EarlyFailureKeeps == [][(last'.op.op \in {"write", "tee"} /\ last'.op.fail = 1) => s' = s]_<<s, last>>
\* appending keeps what was there
AppendKeeps == [][(last'.op.op = "tee" /\ last'.op.append) =>
                   SubSeq(s'[last'.op.w].c, 1, Len(s[last'.op.w].c)) = s[last'.op.w].c]_<<s, last>>
OnlyTarget == [][\A w \in {"f", "g"} : s'[w] # s[w] => w = last'.op.w]_<<s, last>>
=============================================================================
