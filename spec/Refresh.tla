-------------------------------- MODULE Refresh --------------------------------
(* C02: refreshing cached paths after the remote changed.
   A path is a number whose digits are the names along it.  r: the objects of the remote with
   their id i, path, kind and version v.  l: the local entries: path, kind (dir, link: a
   placeholder, file: fetched, mine: the user's, without an id), id, the version of the
   metadata and the content c (the version it is of, 4: edited, 5: the user's own).
   trash: ids with contents (9 a directory) that left the tree. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Paths, Shapes, LocalKinds, OpNames, Fails, MaxOps
VARIABLES s, last

Parent(p) == p \div 10
RECURSIVE Depth(_)
Depth(p) == IF p = 0 THEN 0 ELSE 1 + Depth(Parent(p))
RECURSIVE Above(_)
Above(p) == IF Parent(p) = 0 THEN {} ELSE {Parent(p)} \cup Above(Parent(p))
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
Reroot(q, p, n) == LET d == Depth(q) - Depth(p) IN n * Pow(d) + (q % Pow(d))
RECURSIVE Seqn(_)
Seqn(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x.p <= y.p IN <<x>> \o Seqn(S \ {x})
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Set(t) == {t[n] : n \in DOMAIN t}
Has(t, p) == \E e \in Set(t) : e.p = p
At(t, p) == CHOOSE e \in Set(t) : e.p = p
HasId(t, i) == \E e \in Set(t) : e.i = i
ById(t, i) == CHOOSE e \in Set(t) : e.i = i
Object(p, k, i, v) == [p |-> p, k |-> k, i |-> i, v |-> v]
Entry(p, k, i, v, c) == [p |-> p, k |-> k, i |-> i, v |-> v, c |-> c]
\* everything at p and below, after p became n
Reborn(S, p, n) == {IF x.p = p \/ p \in Above(x.p) THEN [x EXCEPT !.p = Reroot(x.p, p, n)] ELSE x : x \in S}
Below(t, p) == {e \in Set(t) : e.p = p \/ p \in Above(e.p)}

Shape(n) == CASE n = "flat" -> [dirs |-> {1}, files |-> {2, 11}]
              [] n = "deep" -> [dirs |-> {1, 12}, files |-> {11, 121}]
              [] n = "two" -> [dirs |-> {1, 2}, files |-> {11, 21}]
              [] OTHER -> [dirs |-> {}, files |-> {1, 2}]
Trees == {Shape(n) : n \in Shapes}
Init == /\ \E t \in Trees, k \in LocalKinds :
             s = [r |-> Seqn({Object(p, IF p \in t.dirs THEN "dir" ELSE "file", p, 1) : p \in t.dirs \cup t.files}),
                  l |-> Seqn({Entry(p, IF p \in t.dirs THEN "dir" ELSE k, p, 1, IF p \notin t.dirs /\ k = "file" THEN 1 ELSE 0) : p \in t.dirs \cup t.files}),
                  trash |-> <<>>]
        /\ last = [op |-> "init", res |-> "init"]
-----------------------------------------------------------------------------
O(r, st) == {[res |-> r, post |-> st]}
Code(e) == e.i * 10 + (IF e.k = "dir" THEN 9 ELSE e.c)
Throw(tr, S) == Sorted(Set(tr) \cup {Code(e) : e \in {e \in S : e.k = "dir" \/ e.c # 0}})
Put(st, e) == [st EXCEPT !.l = Seqn({IF x.p = e.p THEN e ELSE x : x \in Set(@)})]
\* the entry is not where the remote has it, as seen from the folder it is in
Astray(st, e, o) ==
  \/ e.p % 10 # o.p % 10
  \/ (IF Parent(e.p) = 0 THEN 0 ELSE At(st.l, Parent(e.p)).i) # (IF Parent(o.p) = 0 THEN 0 ELSE At(st.r, Parent(o.p)).i)
Missing(st, p) == {Entry(q, "dir", At(st.r, q).i, At(st.r, q).v, 0) : q \in {q \in Above(p) : ~Has(st.l, q)}}
Moved(st, e, o) ==
  IF ~Astray(st, e, o) THEN O("done", st)
  ELSE IF \E q \in Above(o.p) : Has(st.l, q) /\ At(st.l, q).k # "dir" THEN O("refused", st)
  ELSE IF Has(st.l, o.p) /\ o.p # e.p THEN O("refused", st)
  ELSE O("done", [st EXCEPT !.l = Seqn(Reborn(Set(@), e.p, o.p) \cup Missing(st, o.p))])
\* the metadata, and the content if it was there
Updated(st, e, o, fail) ==
  IF e.k # "file" \/ e.v = o.v THEN O("done", Put(st, [e EXCEPT !.v = o.v]))
  ELSE IF e.c \notin {e.v, o.v} \/ fail THEN O("refused", st)
  ELSE O("done", [Put(st, [e EXCEPT !.v = o.v, !.c = o.v]) EXCEPT !.trash = Throw(@, {e})])
Fetched(st, i, fail) ==
  LET e == ById(st.l, i)
  IN IF e.k # "link" THEN O("done", st)
     ELSE IF fail THEN O("refused", st)
     ELSE O("done", Put(st, [e EXCEPT !.k = "file", !.c = e.v]))
Refresh(st, op) ==
  LET e == At(st.l, op.p)
  IN IF ~HasId(st.r, e.i)
     THEN O("gone", [st EXCEPT !.l = Seqn(Set(@) \ Below(@, op.p)), !.trash = Throw(@, Below(st.l, op.p))])
     ELSE LET o == ById(st.r, e.i)
              one == Updated(st, e, o, op.fail)
              two == UNION {IF x.res = "done" THEN Moved(x.post, At(x.post.l, op.p), o) ELSE {x} : x \in one}
          IN \* a refusal to move may come before or after the metadata was brought in line
             UNION {IF x.res = "done" /\ op.data THEN Fetched(x.post, e.i, op.fail) ELSE {x} : x \in two}
             \cup (IF \E x \in two : x.res = "refused" THEN O("refused", st) ELSE {})

\* what is above is where the remote has it
InOrder(st, p) ==
  LET e == At(st.l, p)
  IN ~HasId(st.r, e.i) \/
     LET o == ById(st.r, e.i)
     IN \A q \in Above(o.p) : LET a == At(st.r, q)
                              IN /\ (HasId(st.l, a.i) => ById(st.l, a.i).p = q)
                                 /\ (Has(st.l, q) => At(st.l, q).i \in {0, a.i})
\* bootstrapping the whole tree again: folders follow the remote, or leave for the trash if they
\* are gone; what is new is added as a placeholder; a file that is here already, even if at an
\* old place, is left to be refreshed and not added twice; and a file gone on the remote stays
Stale(st) == {e \in Set(st.l) : e.k = "dir" /\ e.i # 0 /\ (~HasId(st.r, e.i) \/ ById(st.r, e.i).p # e.p)}
Tops(st) == {e \in Stale(st) : ~\E f \in Stale(st) : f.p \in Above(e.p)}
Target(st, e) == ById(st.r, e.i).p
Followed(st) ==
  LET T == Tops(st)
      Top(x) == {e \in T : x.p = e.p \/ e.p \in Above(x.p)}
      Left == {x \in Set(st.l) : \E e \in Top(x) : ~HasId(st.r, e.i)}
      Stay == {IF Top(x) = {} THEN x ELSE LET e == CHOOSE e \in Top(x) : TRUE IN [x EXCEPT !.p = Reroot(x.p, e.p, Target(st, e))] : x \in Set(st.l) \ Left}
  IN [st EXCEPT !.l = Seqn(Stay), !.trash = Throw(@, Left)]
Behind(st) == {e \in Set(st.l) : HasId(st.r, e.i) /\ ById(st.r, e.i).p = e.p /\ ById(st.r, e.i).v # e.v}
Learn(st, e) == CHOOSE x \in Updated(st, e, ById(st.r, e.i), FALSE) : TRUE
Stuck(st) == {e \in Behind(st) : Learn(st, e).res = "refused"}
RECURSIVE LearnAll(_, _)
LearnAll(st, S) == IF S = {} THEN st ELSE LET e == CHOOSE e \in S : TRUE IN LearnAll(Learn(st, e).post, S \ {e})
New(st) == {Entry(o.p, IF o.k = "dir" THEN "dir" ELSE "link", o.i, o.v, 0) : o \in {o \in Set(st.r) : ~HasId(st.l, o.i)}}
Add(st, N) == [st EXCEPT !.l = Seqn(Set(@) \cup N)]
\* every folder can follow without another one having to make way first, and nothing is in the way
Orderly(st) ==
  LET n == Followed(st)
  IN /\ \A e \in Tops(st) : HasId(st.r, e.i) =>
          /\ InOrder(st, e.p)
          /\ ~Has(st.l, Target(st, e))
          /\ \A q \in Above(Target(st, e)) : Has(st.l, q) => (At(st.l, q).k = "dir" /\ At(st.l, q).i # 0 /\ At(st.l, q) \notin Stale(st))
     /\ \A e, f \in Set(n.l) : e.p = f.p => e = f
     /\ \A x \in Stale(st) : x \in Tops(st) \/ \E e \in Tops(st) : e.p \in Above(x.p) /\ ((HasId(st.r, e.i) /\ HasId(st.r, x.i) /\ Target(st, x) = Reroot(x.p, e.p, Target(st, e))) \/ (~HasId(st.r, e.i) /\ ~HasId(st.r, x.i)))
     /\ \A o \in Set(st.r) : Has(n.l, o.p) => At(n.l, o.p).i = o.i
     /\ Stale(n) = {}
\* a file edited here and changed there stops it, wherever it has got to
Reboot(st) ==
  LET f == Followed(st)
  IN IF Stuck(f) = {} THEN O("done", Add(LearnAll(f, Behind(f)), New(f)))
     ELSE {[res |-> "refused", post |-> Add(LearnAll(f, L), N)] : L \in SUBSET (Behind(f) \ Stuck(f)),
             N \in {N \in SUBSET New(f) : \A e \in N : Parent(e.p) = 0 \/ Has(f.l, Parent(e.p)) \/ \E g \in N : g.p = Parent(e.p)}}

Outcomes(st, op) ==
  CASE op.op = "refresh" -> Refresh(st, op)
    [] op.op = "edit" -> O("done", Put(st, [At(st.l, op.p) EXCEPT !.c = 4]))
    [] op.op = "mk" -> O("done", [st EXCEPT !.l = Seqn(Set(@) \cup {Entry(op.p, "mine", 0, 0, 5)})])
    [] op.op = "rmove" -> O("done", [st EXCEPT !.r = Seqn(Reborn(Set(@), op.p, op.to))])
    [] op.op = "rchange" -> O("done", [st EXCEPT !.r = Seqn({IF o.p = op.p THEN [o EXCEPT !.v = o.v + 1] ELSE o : o \in Set(@)})])
    [] op.op = "rdel" -> O("done", [st EXCEPT !.r = Seqn(Set(@) \ Below(@, op.p))])
    [] op.op = "reboot" -> Reboot(st)
    [] OTHER -> {}

No == [p |-> 0, to |-> 0, data |-> FALSE, fail |-> FALSE]
Ops(st) ==
     {op \in {[No EXCEPT !.p = e.p, !.data = d, !.fail = f] @@ [op |-> "refresh"] : e \in {e \in Set(st.l) : e.i # 0 /\ InOrder(st, e.p)}, d \in {TRUE, FALSE}, f \in Fails} :
        \* who asks for the data again gives up what was edited
        LET e == At(st.l, op.p)
        IN op.data => /\ e.c \in {0, e.v}
                      /\ e.k = "file" => ~op.fail}
     \cup (IF "edit" \in OpNames THEN {[No EXCEPT !.p = e.p] @@ [op |-> "edit"] : e \in {e \in Set(st.l) : e.k = "file"}} ELSE {})
     \cup (IF "mk" \in OpNames THEN {[No EXCEPT !.p = p] @@ [op |-> "mk"] : p \in {p \in Paths : ~Has(st.l, p) /\ (Parent(p) = 0 \/ (Has(st.l, Parent(p)) /\ At(st.l, Parent(p)).k = "dir"))}} ELSE {})
     \cup (IF "rmove" \in OpNames THEN {[No EXCEPT !.p = o.p, !.to = n] @@ [op |-> "rmove"] : o \in Set(st.r),
              n \in {n \in Paths : /\ ~Has(st.r, n)
                                   /\ Parent(n) = 0 \/ (Has(st.r, Parent(n)) /\ At(st.r, Parent(n)).k = "dir")}} ELSE {})
     \cup (IF "rchange" \in OpNames THEN {[No EXCEPT !.p = o.p] @@ [op |-> "rchange"] : o \in {o \in Set(st.r) : o.v < 3}} ELSE {})
     \cup (IF "rdel" \in OpNames THEN {[No EXCEPT !.p = o.p] @@ [op |-> "rdel"] : o \in Set(st.r)} ELSE {})
     \cup (IF "reboot" \in OpNames THEN (IF Orderly(st) THEN {No @@ [op |-> "reboot"]} ELSE {}) ELSE {})
\* not into itself, and not too deep
Legal(st, op) == op.op = "rmove" => /\ op.p \notin Above(op.to)
                                    /\ \A o \in Below(st.r, op.p) : Depth(Reroot(o.p, op.p, op.to)) <= 3
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : Legal(s, op) /\ \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
IsTree == /\ \A e \in Set(s.l) : Parent(e.p) = 0 \/ (Has(s.l, Parent(e.p)) /\ At(s.l, Parent(e.p)).k = "dir")
          /\ \A e, f \in Set(s.l) : e.i = f.i /\ e.i # 0 => e = f
Contents(st) == {Code(e) : e \in {e \in Set(st.l) : e.c # 0}} \cup {c \in Set(st.trash) : c % 10 # 9}
\* every content that was in the tree is there still or in the trash
NothingLost == [][last'.op.op # "edit" => Contents(s) \subseteq Contents(s')]_<<s, last>>
InLine == [][(last'.op.op = "refresh" /\ last'.res = "done") =>
               LET i == At(s.l, last'.op.p).i
                   e == ById(s'.l, i)
                   o == ById(s'.r, i)
               IN e.v = o.v /\ ~Astray(s', e, o)
                  /\ (e.k = "file" /\ e.c # 4 => e.c = o.v) /\ (last'.op.data /\ o.k = "file" => e.k = "file")]_<<s, last>>
Gone == [][(last'.op.op = "refresh" /\ last'.res = "gone") => ~Has(s'.l, last'.op.p)]_<<s, last>>
Stays == [][(last'.op.op = "refresh") => \A e \in Set(s.l) : e.c \in {4, 5} => (HasId(s'.l, e.i) /\ ById(s'.l, e.i).c = e.c) \/ Code(e) \in Set(s'.trash)]_<<s, last>>
\* afterwards every object of the remote is here exactly once, and its folders are where they are there
Mirrored == [][(last'.op.op = "reboot" /\ last'.res = "done") =>
                 \A o \in Set(s'.r) : /\ Cardinality({e \in Set(s'.l) : e.i = o.i}) = 1
                                      /\ (o.k = "dir" => ById(s'.l, o.i).p = o.p)
                                      /\ (~HasId(s.l, o.i) => ById(s'.l, o.i).p = o.p)]_<<s, last>>
\* and files that were here stay in the folder they were in
LeftAlone == [][(last'.op.op = "reboot") =>
                 \A e \in Set(s.l) : e.k # "dir" /\ (Parent(e.p) = 0 \/ HasId(s.r, At(s.l, Parent(e.p)).i)) =>
                    \E f \in Set(s'.l) : [f EXCEPT !.p = e.p, !.v = e.v, !.c = IF @ = f.v THEN e.c ELSE @] = e /\ f.p % 10 = e.p % 10]_<<s, last>>
=============================================================================
