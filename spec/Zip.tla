--------------------------------- MODULE Zip ---------------------------------
(* C21: paths into a zip archive present exactly the archive.
   Two places (1, 2).  Each holds nothing, an archive, a file which is no
   archive, or a folder.  m says which members are there and which data they
   have: -1 not there, else the number of its data (0 is empty).
   "d/" and "de/" are records of the folders themselves. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Datas, Places
VARIABLES s, last

P == {1, 2}
Members == {"d/", "de/", "d/f", "d/g/i/h", "top"}
Files == {"d/f", "d/g/i/h", "top"}
(* everything that can be asked for below a place, "" is the place itself *)
Known == <<"d", "d/f", "d/g", "d/g/i", "d/g/i/h", "de", "top">>
Asked == {"", "d", "d/f", "d/g", "d/g/i", "d/g/i/h", "de", "top", "no", "d/no", "top/x", "d/f/x"}
Up(n) == CASE n \in {"d/f", "d/g"} -> "d" [] n = "d/g/i" -> "d/g" [] n = "d/g/i/h" -> "d/g/i" [] OTHER -> ""
Below(a, n) == CASE a = "" -> n # "" [] a = "d" -> n \in {"d/f", "d/g", "d/g/i", "d/g/i/h"} [] a = "d/g" -> n \in {"d/g/i", "d/g/i/h"} [] a = "d/g/i" -> n = "d/g/i/h" [] OTHER -> FALSE

Has(x, n) == x.m[n] >= 0
IsFile(x, n) == n \in Files /\ Has(x, n)
(* a folder is there when it has a record or leads to a member *)
IsDir(x, n) == n = "" \/ (n \in {"d", "de"} /\ Has(x, n \o "/")) \/ (\E f \in Files : Has(x, f) /\ Below(n, f))
There(x, n) == IsFile(x, n) \/ IsDir(x, n)

RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE Head(q) \o " " \o Show(Tail(q))
Kids(x, n) == Show(SelectSeq(Known, LAMBDA c : There(x, c) /\ Up(c) = n))
All(x, n) == Show(SelectSeq(Known, LAMBDA c : There(x, c) /\ Below(n, c)))
YN(b) == IF b THEN "yes" ELSE "no"
Data(p, x, n) == ToString(p) \o ":" \o n \o ":" \o ToString(x.m[n])

(* api "out": the path through the archive; "in": the path inside of it *)
Ask(st, op) ==
  LET x == st.z[op.p] n == op.n IN
  IF op.api = "in" /\ x.k # "zip" THEN "none"
  ELSE IF x.k \in {"zip", "dir"} THEN
         CASE op.q = "exists" -> YN(There(x, n))
           [] op.q = "isdir" -> YN(IF n = "" /\ op.api = "out" THEN x.k = "dir" ELSE IsDir(x, n))
           [] op.q = "isfile" -> YN(IF n = "" THEN x.k = "zip" ELSE IsFile(x, n))
           [] op.q = "kids" -> (IF IsDir(x, n) THEN Kids(x, n) ELSE "")
           [] op.q = "all" -> (IF IsDir(x, n) THEN All(x, n) ELSE "")
           [] op.q = "data" -> (IF IsFile(x, n) THEN Data(op.p, x, n) ELSE "refused")
  ELSE LET file == x.k = "file" /\ n = "" IN
         CASE op.q \in {"exists", "isfile"} -> YN(file)
           [] op.q = "isdir" -> "no"
           [] op.q = "all" -> ""
           [] op.q = "data" -> (IF file THEN "not an archive" ELSE "refused")

Nothing == [k |-> "none", m |-> [n \in Members |-> -1]]
(* d is a folder or there are no members below it without one, in a real folder *)
Real(x) == x.k = "dir" => ((Has(x, "d/f") \/ Has(x, "d/g/i/h")) => Has(x, "d/"))
Shape(x) == /\ x.k \in {"none", "file"} => x.m = Nothing.m
            /\ \A n \in {"d/", "de/"} : x.m[n] \in {-1, 0}
            /\ Real(x)
Contents == {x \in [k: {"none", "file", "zip", "dir"},
                    m: {[n \in Members |-> CASE n = "d/" -> d [] n = "de/" -> e [] n = "d/f" -> f [] n = "d/g/i/h" -> h [] OTHER -> t] :
                         d \in {-1, 0}, e \in {-1, 0}, f \in {-1} \cup Datas, h \in {-1, 0, 1}, t \in {-1} \cup Datas}] : Shape(x)}
(* a few contents for the second place, and to put in the place of another *)
Few == {x \in Contents : x.m["de/"] = -1 /\ x.m["d/g/i/h"] = -1 /\ x.m["top"] \in {-1, 1}
                         /\ (x.k \in {"none", "file"} \/ (x.m["d/f"] # -1 /\ x.m["d/"] = (IF x.k = "dir" THEN 0 ELSE -1)))}

Outcomes(st, op) ==
  CASE op.op = "ask" -> {[res |-> Ask(st, op), post |-> st]}
    [] op.op = "put" -> {[res |-> "ok", post |-> [z |-> [st.z EXCEPT ![op.p] = op.x]]]}
    [] OTHER -> {}
Ops(st) ==
  [op: {"ask"}, p: Places, n: Asked, api: {"out"}, q: {"exists", "isdir", "isfile", "all", "data"}]
  \cup [op: {"ask"}, p: Places, n: Asked, api: {"in"}, q: {"exists", "isdir", "kids", "all", "data"}]
  \cup (IF MaxOps = 1 THEN {} ELSE {x \in [op: {"put"}, p: P, x: Few] : x.x # st.z[x.p]})

Init == /\ s \in {[z |-> <<a, b>>] : a \in (IF MaxOps = 1 THEN Contents ELSE Few), b \in (IF MaxOps = 1 THEN {Nothing} ELSE Few)}
        /\ last = [op |-> "init", res |-> "init"]
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == \A p \in P : Shape(s.z[p])
(* everything that is there is above or at a member, and the other way round *)
Exactly == \A p \in P : s.z[p].k = "zip" => \A n \in Asked \ {""} :
  There(s.z[p], n) <=> \E m \in Members : Has(s.z[p], m) /\ (m = n \/ m = n \o "/" \/ (m \in Files /\ Below(n, m)))
FolderOrFile == \A p \in P : \A n \in Asked : ~(IsFile(s.z[p], n) /\ IsDir(s.z[p], n))
KidsAreThere == \A p \in P : \A n \in Asked \ {""} : There(s.z[p], n) => IsDir(s.z[p], Up(n))
AskingIsFree == [][last'.op.op = "ask" => s' = s]_<<s, last>>
OtherPlace == [][last'.op.op = "put" => s'.z[3 - last'.op.p] = s.z[3 - last'.op.p]]_<<s, last>>
=============================================================================
