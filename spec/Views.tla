-------------------------------- MODULE Views --------------------------------
(* C26: the three views of an object (the local path, the cached metadata at that path, and
   the remote object) lead to each other, and what is created through one is seen by all.
   Objects are 1..N, 0 is the root; kinds[i] is "d" or "f".  rem[i] and loc[i] are the folder
   an object is in and its name there, on the remote and here; folder -1: it is not there.
   One of the names is the name of the root folder itself. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes, Names, OpNames, MaxOps
VARIABLES s, last

Away == [p |-> -1, n |-> ""]
At(p, n) == [p |-> p, n |-> n]
Is(t, i) == IF i = 0 THEN TRUE ELSE t[i].p # -1
Ids(st) == DOMAIN st.kinds
Dir(st, i) == IF i = 0 THEN TRUE ELSE st.kinds[i] = "d"
\* the folders above, from the nearest, the root last
RECURSIVE Up(_, _)
Up(t, i) == IF i = 0 THEN <<>> ELSE <<t[i].p>> \o Up(t, t[i].p)
RECURSIVE Path(_, _)
Path(t, i) == IF i = 0 THEN <<>> ELSE Path(t, t[i].p) \o <<t[i].n>>
Set(q) == {q[k] : k \in DOMAIN q}
In(st, t, p) == {i \in Ids(st) : t[i].p = p}
Taken(st, t, p, n) == \E i \in In(st, t, p) : t[i].n = n
RECURSIVE Below(_, _, _)
Below(st, t, p) == In(st, t, p) \cup UNION {Below(st, t, i) : i \in In(st, t, p)}
\* it is here where the remote has it, or not here with nothing in its place
Agrees(st, i) == IF i = 0 THEN TRUE ELSE st.loc[i] = st.rem[i]
Fits(st, i) == IF Agrees(st, i) THEN TRUE
               ELSE st.loc[i] = Away /\ ~Taken(st, st.loc, st.rem[i].p, st.rem[i].n)
Settled(st, i) == IF i = 0 THEN TRUE ELSE Is(st.rem, i) /\ Agrees(st, i) /\ \A a \in Set(Up(st.rem, i)) : Agrees(st, a)

Shape(n) == CASE n = "chain" -> [kinds |-> <<"d", "d", "f", "d">>, rem |-> <<At(0, "a"), At(1, "r"), At(2, "b"), Away>>]
              [] n = "fork" -> [kinds |-> <<"d", "d", "f", "d">>, rem |-> <<At(0, "r"), At(0, "a"), At(1, "a"), Away>>]
              [] n = "deep" -> [kinds |-> <<"d", "d", "d", "f">>, rem |-> <<At(0, "r"), At(1, "a"), At(2, "r"), At(3, "b")>>]
              [] OTHER -> [kinds |-> <<"d", "f">>, rem |-> <<At(0, "a"), At(1, "r")>>]
Init == /\ \E n \in Shapes, all \in BOOLEAN :
             s = Shape(n) @@ [loc |-> [i \in DOMAIN Shape(n).kinds |-> IF all THEN Shape(n).rem[i] ELSE Away]]
        /\ last = [op |-> "init", res |-> "init"]
-----------------------------------------------------------------------------
O(r, st) == {[res |-> r, post |-> st]}
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN ToString(q[1]) ELSE ToString(q[1]) \o sep \o Join(Tail(q), sep)
RECURSIVE Slashed(_)
Slashed(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o Slashed(Tail(q))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Place(st, I) == [st EXCEPT !.loc = [i \in Ids(st) |-> IF i \in I THEN st.rem[i] ELSE @[i]]]
Unused(st) == {i \in Ids(st) : st.kinds[i] = "d" /\ st.rem[i] = Away /\ st.loc[i] = Away}
Lowest(S) == CHOOSE i \in S : \A j \in S : i <= j
Make(st, i, p, n) == [st EXCEPT !.rem[i] = At(p, n), !.loc[i] = At(p, n)]

\* from the remote object to a path here: only into folders that are here, or with all that is missing
Mirror(st, op) ==
  LET need == {a \in Set(Up(st.rem, op.i)) : ~Is(st.loc, a)}
  IN IF need # {} /\ ~op.parents THEN O("refused", st)
     ELSE O("done", Place(st, need \cup {op.i}))
\* from a path here to a new folder on the remote
Mkdir(st, op) ==
  IF op.m = "" THEN
    IF Taken(st, st.loc, op.i, op.n) \/ Taken(st, st.rem, op.i, op.n) THEN O("refused", st)
    ELSE LET i == Lowest(Unused(st)) IN O("done", Make(st, i, op.i, op.n))
  ELSE IF ~op.parents \/ Taken(st, st.rem, op.i, op.n) THEN O("refused", st)
  ELSE LET i == Lowest(Unused(st)) one == Make(st, i, op.i, op.n)
           j == Lowest(Unused(one))
       IN O("done", Make(one, j, i, op.m))
\* the path on the remote, unless folders above were moved since
Known(st, i) == IF i = 0 THEN TRUE
                ELSE Is(st.rem, i) /\ IF st.rem[i].p # st.loc[i].p THEN TRUE ELSE Settled(st, st.rem[i].p)
Views(st, i) == Join(<<i>> \o Up(st.loc, i), ".") \o " " \o Join(Up(st.rem, i), ".") \o " "
                \o (IF Known(st, i) THEN Slashed(Path(st.rem, i)) ELSE "?")
Lookup(st, op) ==
  LET here == {i \in In(st, st.loc, op.i) : st.loc[i].n = op.n}
  IN IF here = {} THEN "none" ELSE ToString(CHOOSE i \in here : TRUE)

Outcomes(st, op) ==
  CASE op.op = "rmv" -> O("done", [st EXCEPT !.rem[op.i] = At(op.p, op.n)])
    [] op.op = "lmv" -> O("done", [st EXCEPT !.loc[op.i] = At(op.p, op.n)])
    [] op.op = "lrm" -> O("done", [st EXCEPT !.loc = [i \in Ids(st) |-> IF i = op.i \/ i \in Below(st, st.loc, op.i) THEN Away ELSE @[i]]])
    [] op.op = "mirror" -> Mirror(st, op)
    [] op.op = "children" -> O(Join(Sorted(In(st, st.rem, op.i)), " "), Place(st, In(st, st.rem, op.i)))
    [] op.op = "rchildren" -> O(Join(Sorted(Below(st, st.rem, op.i)), " "), Place(st, Below(st, st.rem, op.i)))
    [] op.op = "mkdir" -> Mkdir(st, op)
    [] op.op = "views" -> O(Views(st, op.i), st)
    [] op.op = "fresh" -> O(Slashed(Path(st.rem, op.i)) \o " " \o Join(Up(st.rem, op.i), "."), st)
    [] op.op = "lookup" -> O(Lookup(st, op), st)
    [] OTHER -> {}

No == [i |-> 0, p |-> 0, n |-> "", m |-> "", parents |-> FALSE]
Room(st, I) == \A i \in I : Fits(st, i)
Ops(st) ==
  LET here == {0} \cup {i \in Ids(st) : Is(st.loc, i)}
      there == {i \in Ids(st) : Is(st.rem, i)}
  IN {[No EXCEPT !.i = i, !.p = p, !.n = n] @@ [op |-> "rmv"] : i \in there, p \in {0} \cup there, n \in Names}
     \* the user moves or removes something here
     \cup {[No EXCEPT !.i = i, !.p = p, !.n = n] @@ [op |-> "lmv"] : i \in here \ {0}, p \in here, n \in Names}
     \cup {[No EXCEPT !.i = i] @@ [op |-> "lrm"] : i \in here \ {0}}
     \cup {[No EXCEPT !.i = i, !.parents = b] @@ [op |-> "mirror"] : i \in there, b \in BOOLEAN}
     \cup {[No EXCEPT !.i = i] @@ [op |-> o] : i \in here, o \in {"children", "rchildren"}}
     \cup {[No EXCEPT !.i = i, !.n = n, !.m = m, !.parents = b] @@ [op |-> "mkdir"] : i \in here, n \in Names, m \in Names \cup {""}, b \in BOOLEAN}
     \cup {[No EXCEPT !.i = i] @@ [op |-> "views"] : i \in here}
     \cup {[No EXCEPT !.i = i] @@ [op |-> "fresh"] : i \in there \cup {0}}
     \cup {[No EXCEPT !.i = i, !.n = n] @@ [op |-> "lookup"] : i \in here, n \in Names}
Legal(st, op) ==
  /\ op.op \in OpNames
  /\ CASE op.op = "rmv" -> /\ Dir(st, op.p) /\ op.i # op.p /\ op.i \notin Set(Up(st.rem, op.p))
                           /\ ~Taken(st, st.rem, op.p, op.n)
       \* a placeholder makes the folder it is in when just that one is missing, which no object is known for: left open
       [] op.op = "lmv" -> /\ Dir(st, op.p) /\ op.i # op.p /\ op.i \notin Set(Up(st.loc, op.p))
                           /\ ~Taken(st, st.loc, op.p, op.n)
       [] op.op = "mirror" -> /\ Room(st, {op.i} \cup Set(Up(st.rem, op.i)))
                              /\ Dir(st, op.i) \/ Is(st.loc, st.rem[op.i].p) \/ ~Is(st.loc, Up(st.rem, op.i)[2])
       \* a listing of a folder that moved, or of objects that are elsewhere here, is left open
       [] op.op = "children" -> Dir(st, op.i) /\ Settled(st, op.i) /\ Room(st, In(st, st.rem, op.i))
       [] op.op = "rchildren" -> Dir(st, op.i) /\ Settled(st, op.i) /\ Room(st, Below(st, st.rem, op.i))
       [] op.op = "mkdir" -> /\ Dir(st, op.i) /\ Is(st.rem, op.i)
                             /\ (op.m # "" => ~Taken(st, st.loc, op.i, op.n))
                             /\ Cardinality(Unused(st)) >= (IF op.m = "" THEN 1 ELSE 2)
       [] op.op = "lookup" -> Dir(st, op.i)
       [] OTHER -> TRUE
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : Legal(s, op) = TRUE /\ \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
-----------------------------------------------------------------------------
Tree(t) == \A i \in DOMAIN t : t[i].p # -1 =>
             /\ t[i].p = 0 \/ t[t[i].p].p # -1
             /\ \A j \in DOMAIN t : i # j => t[i] # t[j]
\* both sides are trees, with one object at each path
Trees == Tree(s.rem) /\ Tree(s.loc)
\* nothing moves or goes away here because somebody looked
Calm == [][last'.op.op \notin {"lmv", "lrm"} => \A i \in Ids(s) : s.loc[i] # Away => s'.loc[i] = s.loc[i]]_<<s, last>>
\* nothing but a move and a new folder changes the remote
Remote == [][last'.op.op \notin {"rmv", "mkdir"} => s'.rem = s.rem]_<<s, last>>
\* what came to be here is where the remote has it
Found == [][last'.op.op \notin {"lmv", "lrm"} => \A i \in Ids(s) : s'.loc[i] # s.loc[i] => s'.loc[i] = s'.rem[i]]_<<s, last>>
=============================================================================
