--------------------------------- MODULE Ssh ---------------------------------
(* C23: a file seen over ssh is the file on the host.
   The host has the entries "a" and "d" in a base folder, and "x" and "y" in "d" when
   that is a folder.  The account used to log in ("me") is neither root nor the owner of
   everything: it sees what the kernel lets it see.  Between the queries of one session
   anything can change on the host. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,     \* "tree": kinds, links, contents; "bits": every owner, group and permission
          Wide,     \* more of the initial states
          Account,  \* who logs in: "me" or "root"
          MaxOps
VARIABLES s, last

Slots == {"a", "d", "x", "y"}
Kinds(n) == CASE n = "a" -> {"n", "f", "d", "l:d", "l:x", "l:gone", "l:loop"}
              [] n = "d" -> {"n", "f", "d"}
              [] n = "x" -> {"n", "f", "d", "p", "l:a", "l:y", "l:gone"}
              [] OTHER -> {"n", "f"}
IsLink(k) == k \in {"l:d", "l:x", "l:gone", "l:loop", "l:a", "l:y"}
Target(k) == CASE k = "l:d" -> <<"d">> [] k = "l:x" -> <<"d", "x">> [] k = "l:y" -> <<"d", "y">>
               [] k = "l:a" -> <<"a">> [] k = "l:gone" -> <<"z">> [] OTHER -> <<"a">>
Meta(u, g, o, own, grp) == [u |-> u, g |-> g, o |-> o, own |-> own, grp |-> grp]
Plain == Meta(7, 7, 7, "me", "mine")
Owners == {"me", "them"}
Groups == {"mine", "second", "theirs"}
AllMeta == [u: 0..7, g: 0..7, o: 0..7, own: Owners, grp: Groups]
Few == IF Wide THEN 0..7 ELSE {0, 1, 2, 4, 7}
SomeMeta == [u: Few, g: Few, o: Few, own: Owners, grp: Groups]
FileMeta == {Meta(6, 4, 4, "me", "mine"), Meta(6, 0, 4, "them", "second"), Meta(0, 6, 6, "me", "mine")}
DirMeta == {Meta(7, 5, 5, "them", "theirs"), Meta(7, 5, 1, "them", "theirs"), Meta(4, 7, 7, "me", "theirs"), Meta(7, 0, 7, "them", "second")}
MetaOf(k) == CASE k = "f" -> FileMeta [] k = "d" -> DirMeta [] k = "p" -> {Meta(6, 4, 4, "me", "mine")} [] OTHER -> {Plain}
(* contents 0 (nothing), 1, 2 and modification times 0, 1 (before 1970), 2 (with a fraction) *)
Contents(k) == IF k = "f" THEN 0..2 ELSE {0}
Times(k) == IF k = "f" THEN 0..2 ELSE {0}

Bit(v, b) == (v \div b) % 2 = 1
R == 4  W == 2  X == 1
(* only the most specific class counts *)
Right(st, n, b) == LET m == st.m[n] IN
  Bit(IF m.own = "me" THEN m.u ELSE IF m.grp # "theirs" THEN m.g ELSE m.o, b)

Kind(st, n) == IF n = "" THEN "d" ELSE st.k[n]
(* root may do anything, but only run what somebody may run *)
May(st, n, b) == IF Account # "root" THEN Right(st, n, b)
                 ELSE b # X \/ Kind(st, n) = "d" \/ Bit(st.m[n].u, X) \/ Bit(st.m[n].g, X) \/ Bit(st.m[n].o, X)

(* where a path leads: [r |-> "ok", n |-> slot] or what is in the way *)
Child(n, c) == CASE n = "" /\ c \in {"a", "d"} -> c
                 [] n = "d" /\ c \in {"x", "y"} -> c
                 [] OTHER -> "none"
RECURSIVE Walk(_, _, _, _)
Walk(st, n, q, fuel) ==
  IF fuel = 0 THEN [r |-> "loop", n |-> ""]
  ELSE IF q = <<>> THEN [r |-> "ok", n |-> n]
  ELSE IF Kind(st, n) # "d" THEN [r |-> "notdir", n |-> ""]
  ELSE IF n # "" /\ ~Right(st, n, X) THEN [r |-> "denied", n |-> ""]
  ELSE LET m == Child(n, q[1]) rest == SubSeq(q, 2, Len(q)) IN
       IF m = "none" \/ Kind(st, m) = "n" THEN [r |-> "missing", n |-> ""]
       ELSE IF IsLink(Kind(st, m)) THEN Walk(st, "", Target(Kind(st, m)) \o rest, fuel - 1)
       ELSE Walk(st, m, rest, fuel)
Where(st, q) == Walk(st, "", q, 6)

Digit(v) == ToString(v)
Status(st, n) ==
  LET k == st.k[n] m == st.m[n] IN
  IF IsLink(k) THEN "link"
  ELSE k \o " " \o Digit(m.u) \o Digit(m.g) \o Digit(m.o) \o " " \o m.own \o " " \o m.grp
       \o (IF k = "f" THEN " c" \o Digit(st.c[n]) \o " t" \o Digit(st.t[n]) ELSE "")
Sum(st, n) == "c" \o Digit(st.c[n])
(* the checksum next to an entry of a listing: of the file it is or leads to, when that can be read *)
ListedSum(st, n) ==
  LET w == Where(st, <<"d", n>>) IN
  IF w.r = "ok" /\ st.k[w.n] = "f" /\ Right(st, w.n, R) THEN "=" \o Sum(st, w.n) ELSE ""
Entry(st, n) == IF st.k[n] = "n" THEN "" ELSE "[" \o n \o " " \o Status(st, n) \o ListedSum(st, n) \o "]"
Listing(st, n) == IF n = "d" THEN Entry(st, "x") \o Entry(st, "y") ELSE ""

Bool(b) == IF b THEN "yes" ELSE "no"
Answers(st, op) ==
  LET w == Where(st, op.q)
      ok == w.r = "ok"
      k == IF ok THEN st.k[w.n] ELSE "n"
      read == ok /\ Right(st, w.n, R)
      dir == k = "d"
  IN CASE op.op = "exists" -> {IF w.r = "denied" THEN "denied" ELSE Bool(ok)}
       [] op.op = "isdir" -> {Bool(dir)} \cup (IF w.r = "denied" THEN {"denied"} ELSE {})
       [] op.op = "isfile" -> {Bool(k = "f")} \cup (IF w.r = "denied" THEN {"denied"} ELSE {})
       [] op.op = "stat" -> {IF ok THEN Status(st, w.n) ELSE w.r}
       [] op.op = "checksum" -> (IF ~ok THEN {w.r} ELSE IF dir THEN {"none"} \cup (IF read THEN {} ELSE {"denied"})
                                 ELSE IF read THEN {Sum(st, w.n)} ELSE {"denied"})
       [] op.op = "data" -> {IF ~ok THEN w.r ELSE IF ~read THEN "denied" ELSE IF dir THEN "isdir" ELSE Sum(st, w.n)}
       \* a connection that is lost meanwhile: what came is not the file
       [] op.op = "lostdata" -> {"failed"}
       [] op.op = "read" -> {Bool(ok /\ May(st, w.n, R))}
       [] op.op = "write" -> {Bool(ok /\ May(st, w.n, W))}
       [] op.op = "execute" -> {Bool(ok /\ May(st, w.n, X))}
       [] op.op = "list" -> (IF w.r = "denied" THEN {"none", "denied"}
                             ELSE IF ~dir THEN {"none"}
                             ELSE IF ~read \/ ~Right(st, w.n, X) THEN {"denied"}
                             ELSE {Listing(st, w.n)})
       [] op.op = "meta" -> {IF w.r = "denied" THEN "denied"
                             ELSE IF ~ok THEN "absent"
                             ELSE IF k = "f" /\ ~read THEN "denied"
                             ELSE IF k = "f" THEN Status(st, w.n) \o "=" \o Sum(st, w.n)
                             ELSE Status(st, w.n)}
                           \cup (IF dir /\ ~read THEN {"denied"} ELSE {})
       [] OTHER -> {}
Asks == {"exists", "isdir", "isfile", "stat", "checksum", "data", "lostdata", "read", "write", "execute", "list", "meta"}
Queries == {<<"a">>, <<"d">>, <<"d", "x">>, <<"d", "y">>, <<"a", "x">>, <<"a", "z">>, <<"d", "z">>, <<"d", "x", "z">>}
(* reading a pipe waits for a writer, like it does locally *)
Askable(st, op) == LET w == Where(st, op.q) IN
  w.r = "ok" /\ st.k[w.n] = "p" => op.op \notin {"checksum", "data", "lostdata", "meta"}

(* changes on the host *)
Put(st, n, k, c, t, m) == [k |-> [st.k EXCEPT ![n] = k], c |-> [st.c EXCEPT ![n] = c],
                           t |-> [st.t EXCEPT ![n] = t], m |-> [st.m EXCEPT ![n] = m]]
CanPut(st, n, k) == /\ k \in Kinds(n)
                    /\ (n \in {"x", "y"} => st.k["d"] = "d")
                    /\ (n = "d" /\ st.k["d"] = "d" /\ k # "d" => st.k["x"] = "n" /\ st.k["y"] = "n")
IsState(st, n, k, c, t, m) == k \in Kinds(n) /\ c \in Contents(k) /\ t \in Times(k)
                              /\ m \in (IF k \in {"f", "d"} THEN AllMeta ELSE MetaOf(k))
Outcomes(st, op) ==
  IF op.op = "put" THEN (IF CanPut(st, op.n, op.k) /\ IsState(st, op.n, op.k, op.c, op.t, op.m)
                         THEN {[res |-> "ok", post |-> Put(st, op.n, op.k, op.c, op.t, op.m)]} ELSE {})
  ELSE IF Askable(st, op) THEN {[res |-> a, post |-> st] : a \in Answers(st, op)} ELSE {}

Puts(st) == UNION {{[op |-> "put", n |-> n, k |-> k, c |-> c, t |-> t, m |-> m] :
                      c \in Contents(k), t \in Times(k), m \in MetaOf(k)} :
                   <<n, k>> \in {z \in Slots \X {"n", "f", "d", "p", "l:d", "l:x", "l:gone", "l:loop", "l:a", "l:y"} : CanPut(st, z[1], z[2])}}
Ops(st) ==
  IF Mode = "bits"
  THEN [op: {"stat", "checksum", "data", "read", "write", "execute", "exists", "list", "meta"}, q: {<<"d">>, <<"d", "x">>}]
  ELSE {x \in [op: Asks, q: Queries] : Askable(st, x)}

Empty == [k |-> [n \in Slots |-> "n"], c |-> [n \in Slots |-> 0], t |-> [n \in Slots |-> 0], m |-> [n \in Slots |-> Plain]]
Dir(m) == Put(Empty, "d", "d", 0, 0, m)
BitStates == {Put(Dir(Meta(7, 5, 5, "them", "theirs")), "x", "f", 1, 2, m) : m \in SomeMeta}
             \cup {Put(Dir(m), "x", "f", 1, 2, Meta(6, 4, 4, "me", "mine")) : m \in SomeMeta}
Choices(n) == UNION {{<<n, k, c, (c + 1) % 3, m>> : c \in Contents(k), m \in MetaOf(k)} : k \in Kinds(n)}
Fix(st, z) == Put(st, z[1], z[2], z[3], IF z[2] = "f" THEN z[4] ELSE 0, z[5])
TreeStates ==
  {Fix(Fix(Fix(Fix(Empty, a), d), x), y) :
     a \in {z \in Choices("a") : (z[2] \in {"f", "d"} => z[5] \in {Meta(6, 0, 4, "them", "second"), Meta(7, 5, 1, "them", "theirs")})
                              /\ (z[2] = "f" /\ ~Wide => z[3] = 1)},
     d \in {z \in Choices("d") : z[2] = "d"},
     x \in {z \in Choices("x") : Wide \/ z[2] # "f" \/ z[3] = 2 \/ (z[5].u = 6 /\ z[5].own = "me")},
     y \in {z \in Choices("y") : z[2] = "f" => z[3] = 1 /\ z[5].u = 6 /\ z[5].own = "me"}}
  \cup {Fix(Fix(Empty, a), d) : a \in {z \in Choices("a") : z[3] = 0}, d \in {z \in Choices("d") : z[2] # "d"}}
Init == s \in (CASE Mode = "bits" -> BitStates [] Mode = "tree" -> TreeStates [] OTHER -> {Empty})
        /\ last = [op |-> [op |-> "init"], res |-> "init"]
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) \cup (IF Mode = "changes" THEN Puts(s) ELSE {}) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == \A n \in Slots : IsState(s, n, s.k[n], s.c[n], s.t[n], s.m[n])
A(o, q) == Answers(s, [op |-> o, q |-> q])
(* the answers about one path agree *)
Agree == \A q \in Queries :
  /\ ("yes" \in A("isfile", q) \/ "yes" \in A("isdir", q)) => A("exists", q) = {"yes"}
  /\ ~("yes" \in A("isfile", q) /\ "yes" \in A("isdir", q))
  /\ (Account = "me" /\ "yes" \in A("read", q) /\ "yes" \in A("isfile", q)) => A("checksum", q) = A("data", q)
  /\ A("exists", q) # {"yes"} => A("stat", q) \in {{"missing"}, {"notdir"}, {"loop"}, {"denied"}}
  /\ A("exists", q) # {"yes"} => A("read", q) \cup A("write", q) \cup A("execute", q) = {"no"}
(* what is listed can be asked for *)
ListedExists == \A n \in {"x", "y"} :
  "denied" \notin A("list", <<"d">>) /\ s.k["d"] = "d" /\ s.k[n] \in {"f", "d", "p"} => A("exists", <<"d", n>>) = {"yes"}
(* nobody but the owner is affected by the bits of the owner, etc. *)
MostSpecific == \A n \in Slots, b \in {R, W, X} :
  /\ s.m[n].own = "me" => (Right(s, n, b) <=> Bit(s.m[n].u, b))
  /\ s.m[n].own # "me" /\ s.m[n].grp = "theirs" => (Right(s, n, b) <=> Bit(s.m[n].o, b))
AskingIsFree == [][last'.op.op # "put" => s' = s]_<<s, last>>
=============================================================================
