------------------------------ MODULE Compare ------------------------------
(* C28: comparing and showing metadata.
   Two records (1, 2); each field is missing (0) or has one of two values, of
   which 2 is the later or larger one.  What is asked: the table of one record,
   the table of both side by side, whether the content differs, whether they
   are the same, whether there is anything in one. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps,
          Active,    \* the fields in play
          Vals       \* the values in play
VARIABLES s, last

(* in the order they are shown in *)
F == <<"size", "created", "updated", "checksum", "id", "file_id", "name", "errors">>
D == DOMAIN F
P == {1, 2}
Records == {f \in [D -> 0..2] : \A i \in D : f[i] \in IF F[i] \in Active THEN Vals ELSE {0}}
Init == /\ s \in [m: [P -> Records]]
        /\ last = [op |-> "init", res |-> "init"]

Val(m, f) == m[CHOOSE i \in D : F[i] = f]
Cell(m, i) == IF m[i] = 0 THEN "" ELSE F[i] \o "=" \o ToString(m[i])
RECURSIVE Rows(_, _)
(* a row for every field of the records that are shown *)
Rows(ms, i) ==
  IF i > Len(F) THEN <<>>
  ELSE (IF \E k \in DOMAIN ms : ms[k][i] # 0 THEN <<[k \in DOMAIN ms |-> Cell(ms[k], i)]>> ELSE <<>>) \o Rows(ms, i + 1)
Table(ms) == ToString(Rows(ms, 1))
Yes(b) == IF b THEN "yes" ELSE "no"
(* evidence that the content changed from a to b: the checksums decide if
   there are two, otherwise another size, or a later time *)
Differs(a, b) ==
  IF Val(a, "checksum") # 0 /\ Val(b, "checksum") # 0 THEN Val(a, "checksum") # Val(b, "checksum")
  ELSE \/ Val(a, "size") # Val(b, "size")
       \/ Val(a, "updated") # 0 /\ Val(b, "updated") # 0 /\ Val(a, "updated") < Val(b, "updated")

Outcomes(st, op) ==
  LET a == st.m[op.p] b == st.m[3 - op.p]
  IN CASE op.op = "set" -> {[res |-> "ok", post |-> [st EXCEPT !.m[op.p][op.f] = op.v]]}
       [] op.op = "show" -> {[res |-> Table(<<a>>), post |-> st]}
       [] op.op = "diff" -> {[res |-> Yes(Differs(a, b)) \o " " \o Table(<<a, b>>), post |-> st]}
       [] op.op = "differs" -> {[res |-> Yes(Differs(a, b)), post |-> st]}
       [] op.op = "same" -> {[res |-> Yes(a = b), post |-> st]}
       [] op.op = "any" -> {[res |-> Yes(\E i \in D : a[i] # 0), post |-> st]}
       [] OTHER -> {}

Ops(st) == [op: {"show", "diff", "differs", "same", "any"}, p: P]
           \cup {o \in [op: {"set"}, p: P, f: D, v: Vals] : F[o.f] \in Active /\ st.m[o.p][o.f] # o.v}
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == \A p \in P : s.m[p] \in Records
(* a table leaves no field of either record out, and shows nothing twice *)
Complete == LET r == Rows(s.m, 1)
            IN /\ \A p \in P : Cardinality({i \in DOMAIN r : r[i][p] # ""}) = Cardinality({i \in D : s.m[p][i] # 0})
               /\ \A i, j \in DOMAIN r : i # j => \A p \in P : r[i][p] = "" \/ r[i][p] # r[j][p]
               /\ Len(r) = Cardinality({i \in D : s.m[1][i] # 0 \/ s.m[2][i] # 0})
(* a record does not differ from itself *)
Irreflexive == \A p \in P : ~Differs(s.m[p], s.m[p])
SameIsNotDifferent == s.m[1] = s.m[2] => ~Differs(s.m[1], s.m[2])
(* asking changes nothing *)
AskingIsFree == [][last'.op.op # "set" => s' = s]_<<s, last>>
=============================================================================
