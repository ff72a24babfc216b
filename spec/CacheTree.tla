------------------------------ MODULE CacheTree ------------------------------
(* C22: listing a cache root, and finding it.
   An anchored folder with its internal data folder.  Below it the entries "d"
   and "u", and "x" and "o" inside each when it is a folder ("o" is a folder or
   file of the user which happens to be named like the internal data folder).
   Each entry is nothing, a plain or cached file, a placeholder, a plain or
   cached folder, or a link. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, TopKinds, SubKinds
VARIABLES s, last

(* n nothing, f file, F cached file, P placeholder, k folder, K cached folder,
   links: l. to the cache root, ld to the entry d, lx to x next to it, lz to nowhere *)
Top == {"d", "u"}
Kid == [d |-> <<"d/x", "d/o">>, u |-> <<"u/x", "u/o">>]
Slots == {"d", "u", "d/x", "d/o", "u/x", "u/o"}
Dir(k) == k \in {"k", "K"}
Link(k) == k \in {"l.", "ld", "lz", "lx"}

There(st, q) == SelectSeq(q, LAMBDA n : st.t[n] # "n")
(* the names below a real folder, as paths from the cache root; links are not followed *)
KidsOf(st, n) == IF n = "" THEN There(st, <<"d", "u">>)
                 ELSE IF n \in Top /\ Dir(st.t[n]) THEN There(st, Kid[n]) ELSE <<>>
RECURSIVE Below(_, _)
Below(st, q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Below(st, KidsOf(st, Head(q))) \o Below(st, Tail(q))
AllOf(st, n) == Below(st, KidsOf(st, n))

(* the real folder an entry leads to: itself, or through links; "-" when to none *)
RECURSIVE Real(_, _, _)
Real(st, n, fuel) ==
  IF fuel = 0 THEN "-" ELSE IF n = "" THEN ""
  ELSE LET k == st.t[n] IN
       IF Dir(k) THEN n
       ELSE IF k = "l." THEN ""
       ELSE IF k = "ld" THEN Real(st, "d", fuel - 1)
       ELSE "-"   \* files, placeholders, dangling; "lx" leads to itself or to a sibling which is not there

RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE Head(q) \o " " \o Show(Tail(q))
Outcomes(st, op) ==
  CASE op.op = "children" -> {[res |-> Show(LET r == Real(st, op.n, 4) IN IF r = "-" THEN <<>> ELSE KidsOf(st, r)), post |-> st]}
    [] op.op = "all" -> {[res |-> Show(LET r == Real(st, op.n, 4) IN IF r = "-" THEN <<>> ELSE AllOf(st, r)), post |-> st]}
    [] op.op = "root" -> {[res |-> "the anchor", post |-> st]}    \* of any path below, there or not
    [] op.op = "outside" -> {[res |-> "none", post |-> st]}
    [] op.op = "set" -> {[res |-> "ok", post |-> [t |-> [st.t EXCEPT ![op.n] = op.k]]]}
    [] OTHER -> {}

Kinds(n) == IF n \in Top THEN TopKinds ELSE SubKinds
Valid(t) == \A n \in Top : ~Dir(t[n]) => \A i \in {1, 2} : t[Kid[n][i]] = "n"
(* not asked for through a link: that may be inside the internal data folder *)
Own(st, n) == n \in Top \cup {""} \/ ~Link(st.t[IF n \in {"d/x", "d/o"} THEN "d" ELSE "u"])
Ops(st) ==
  {x \in [op: {"children", "all"}, n: Slots \cup {""}] : Own(st, x.n)}
  \cup [op: {"root"}, n: Slots \cup {"", "nope", "d/nope", "u/nope/not", ".operations", ".operations/trash"}]
  \cup {[op |-> "outside"]}
  \cup {x \in [op: {"set"}, n: Slots, k: TopKinds \cup SubKinds] :
          /\ x.k \in Kinds(x.n) /\ x.k # st.t[x.n]
          /\ Valid([st.t EXCEPT ![x.n] = x.k]) }

Init == /\ s \in {[t |-> [n \in Slots |-> CASE n = "d" -> kd [] n = "u" -> ku [] n = "d/x" -> k1
                                          [] n = "d/o" -> k2 [] n = "u/x" -> k3 [] OTHER -> "n"]] :
                    kd \in TopKinds, ku \in TopKinds, k1 \in SubKinds, k2 \in {"n", "f", "k"} \cap SubKinds, k3 \in {"n", "f"}}
        /\ Valid(s.t)
        /\ last = [op |-> "init", res |-> "init"]
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == Valid(s.t) /\ \A n \in Slots : s.t[n] \in Kinds(n)
(* everything that is there is listed below the cache root, once; nothing else is *)
ListsAll == LET q == AllOf(s, "") IN
  /\ {q[i] : i \in 1..Len(q)} = {n \in Slots : s.t[n] # "n"}
  /\ Len(q) = Cardinality({n \in Slots : s.t[n] # "n"})
(* the descendants are the children and theirs *)
ChildrenOfChildren == \A n \in Top \cup {""} : LET q == AllOf(s, n) c == KidsOf(s, n) IN
  \A i \in 1..Len(c) : \E j \in 1..Len(q) : q[j] = c[i]
AskingIsFree == [][last'.op.op # "set" => s' = s]_<<s, last>>
=============================================================================
