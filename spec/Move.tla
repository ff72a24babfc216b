--------------------------------- MODULE Move ---------------------------------
(* C07: moving a cached path.
   A path is a number whose digits are the names along it (12 is b in a).  The tree is the
   sequence of its entries in the order of the paths: a directory, a file, or a placeholder,
   with the id it carries (0: it is not cached), its content and what is recorded beyond the
   id (v).  The remote says that the moved object is at the target. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Paths, Sources, Kinds, Others, OtherKinds, OpNames, Fails, Vs, MaxOps
VARIABLES s, last

Parent(p) == p \div 10
RECURSIVE Depth(_)
Depth(p) == IF p = 0 THEN 0 ELSE 1 + Depth(Parent(p))
RECURSIVE Above(_)
Above(p) == IF Parent(p) = 0 THEN {} ELSE {Parent(p)} \cup Above(Parent(p))
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
\* q, which is below or at p, after p went to r
Reroot(q, p, r) == LET n == Depth(q) - Depth(p) IN r * Pow(n) + (q % Pow(n))

RECURSIVE Seqn(_)
Seqn(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x.p <= y.p IN <<x>> \o Seqn(S \ {x})
Set(t) == {t[i] : i \in DOMAIN t}
Has(t, p) == \E e \in Set(t) : e.p = p
At(t, p) == CHOOSE e \in Set(t) : e.p = p
Entry(p, k, id, c, v) == [p |-> p, k |-> k, id |-> id, c |-> c, v |-> v]
Ids(t) == {e.id : e \in Set(t)}
Fresh(t, p) == CHOOSE n \in {100 * i + p : i \in 10 .. 20} :
                 n \notin Ids(t) /\ \A m \in {100 * i + p : i \in 10 .. 20} : m \notin Ids(t) => n <= m
\* with the directories that lead there
Close(S) == S \cup {Entry(q, "dir", 1000 + q, 0, 0) : q \in UNION {Above(e.p) : e \in S}}
Start(S) == {e \in Close(S) : ~\E f \in S : f.p = e.p /\ f # e}
Srcs == {Entry(p, k, 1, IF k = "file" THEN 1 ELSE 0, v) : p \in Sources, k \in Kinds, v \in Vs}
Occs == {Entry(p, k, id, IF k = "file" THEN 2 ELSE 0, 0) : p \in Paths, k \in OtherKinds, id \in Others}
Init == /\ \E a \in Srcs : \E b \in {{}} \cup {{o} : o \in Occs} :
             /\ \A o \in b : /\ o.p # a.p
                             /\ o.k = "link" => o.id # 0
                             /\ o.id = 1 => (o.k = "dir" <=> a.k = "dir")
                             /\ o.p \in Above(a.p) => o.k = "dir" /\ o.id # 1
                             /\ a.p \in Above(o.p) => a.k = "dir" /\ o.id # 1
             /\ s = [t |-> Seqn(Start({a} \cup b))]
        /\ last = [op |-> "init", res |-> "init"]

\* the directory that is there already may take over what is recorded of the other one
Merge(t, d, e) == {Set(t), (Set(t) \ {d}) \cup {[d EXCEPT !.v = IF e.v # 0 THEN e.v ELSE @]}}
O(r, t) == {[res |-> r, post |-> [t |-> Seqn(t)]]}
Below(t, p) == {e \in Set(t) : p \in Above(e.p)}
Tree(t, p) == {e \in Set(t) : e.p = p} \cup Below(t, p)
\* the directories that are missing on the way, with the ids the remote has for them
Parents(t, p) == {Entry(q, "dir", Fresh(t, q), 0, 0) : q \in {q \in Above(p) : ~Has(t, q)}}
Moved(t, src, dst) == (Set(t) \ Tree(t, src)) \cup {[e EXCEPT !.p = Reroot(e.p, src, dst)] : e \in Tree(t, src)}
Move(t, src, dst, fail) ==
  LET e == At(t, src)
  IN IF src = dst THEN O("same", Set(t))
     ELSE IF \E q \in Above(dst) : Has(t, q) /\ At(t, q).k # "dir" THEN O("refused", Set(t))
     ELSE IF ~Has(t, dst)
     THEN IF fail /\ e.k # "link" THEN O("refused", Set(t) \cup Parents(t, dst)) \cup O("refused", Set(t))
          ELSE O("moved", Moved(t, src, dst) \cup Parents(t, dst))
     ELSE LET d == At(t, dst)
              rest == Set(t) \ {d}
          IN IF d.id # e.id THEN O("refused", Set(t))
             \* the same object is there already
             ELSE IF e.k = "link" THEN O("moved", (rest \ {e}) \cup {[d EXCEPT !.v = IF e.v # 0 THEN e.v ELSE @]})
             ELSE IF fail THEN O("refused", Set(t)) \cup (IF e.k = "dir" /\ d.k = "dir" THEN UNION {O("moved", m) : m \in Merge(t, d, e)} ELSE {})
             ELSE IF e.k = "dir" /\ d.k = "dir" /\ Below(t, dst) # {} THEN UNION {O("moved", m) : m \in Merge(t, d, e)}
             ELSE O("moved", {x \in Moved(t, src, dst) : x # d \/ x.p # dst})
Outcomes(st, op) ==
  CASE op.op = "move" -> Move(st.t, op.src, op.dst, op.fail)
    [] OTHER -> {}
Deepest(t, p) == LET S == {Depth(e.p) : e \in Tree(t, p)} IN (CHOOSE x \in S : \A y \in S : y <= x) - Depth(p)
Ops(st) == {op \in [op : {"move"} \cap OpNames, src : {e.p : e \in {e \in Set(st.t) : e.id # 0}}, dst : Paths,
                    way : {"remote", "target"}, fail : Fails] :
              /\ op.src \notin Above(op.dst)
              /\ op.dst \notin Above(op.src)
              \* what a remote cannot have
              /\ {e.id : e \in Tree(st.t, op.src)} \cap {At(st.t, q).id : q \in {q \in Above(op.dst) : Has(st.t, q)}} \subseteq {0}
              /\ Depth(op.dst) + Deepest(st.t, op.src) <= 3}
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
IsTree == /\ \A e \in Set(s.t) : Parent(e.p) # 0 => Has(s.t, Parent(e.p)) /\ At(s.t, Parent(e.p)).k = "dir"
          /\ Cardinality({e.p : e \in Set(s.t)}) = Len(s.t)
Bag(t) == {[id |-> e.id, c |-> e.c] : e \in {e \in Set(t) : e.c # 0}}
\* no content is lost but that of another copy of the same object
NothingLost == [][\A b \in Bag(s.t) : b \in Bag(s'.t) \/ (b.id = At(s.t, last'.op.src).id)]_<<s, last>>
Carries == [][(last'.res = "moved" /\ ~(Has(s.t, last'.op.dst) /\ At(s.t, last'.op.dst).k = "dir")) =>
                /\ ~Has(s'.t, last'.op.src)
                /\ At(s'.t, last'.op.dst).id = At(s.t, last'.op.src).id
                /\ (At(s.t, last'.op.src).k # "link" => At(s'.t, last'.op.dst) = [At(s.t, last'.op.src) EXCEPT !.p = last'.op.dst])
                /\ (At(s.t, last'.op.src).v # 0 => At(s'.t, last'.op.dst).v = At(s.t, last'.op.src).v)]_<<s, last>>
Refused == [][(last'.res \in {"refused", "same"}) => \A e \in Set(s.t) : e \in Set(s'.t)]_<<s, last>>
=============================================================================
