-------------------------------- MODULE Paths --------------------------------
(* C22: path queries are total and truthful.
   A small file system: the entries "a" and "b" of the base folder, and "x" and
   "y" inside "a" when that is a folder.  Each is nothing, a file, a folder, a pipe
   or a symbolic link.  A query walks a path through it the way the kernel does. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,     \* "query": the file system; "relative": relative paths; "type": the types of files
          MaxOps,
          Links     \* the link targets in play
VARIABLES s, last

Slots == {"a", "b", "x", "y"}
Up(n) == CASE n \in {"x", "y"} -> "a" [] n \in {"a", "b"} -> "" [] OTHER -> "^"   \* above the base: nothing asked for
(* link targets: where the walk goes on, relative to the folder of the link or from the base *)
Abs(k) == k \in {"->/b", "->/a/x"}
Target(k) == CASE k = "->a" -> <<"a">> [] k = "->b" -> <<"b">> [] k = "->x" -> <<"x">>
               [] k = "->y" -> <<"y">> [] k = "->zz" -> <<"zz">> [] k = "->." -> <<".">>
               [] k = "->../b" -> <<"..", "b">> [] k = "->../a" -> <<"..", "a">>
               [] k = "->a/x" -> <<"a", "x">> [] k = "->b/x" -> <<"b", "x">>
               [] k = "->a/.." -> <<"a", "..">> [] k = "->/b" -> <<"b">>
               [] k = "->/a/x" -> <<"a", "x">> [] k = "->long" -> <<"LONG">>
               [] OTHER -> <<>>
IsLink(k) == k \notin {"n", "f", "d", "p"}
Top == {l \in Links : l \notin {"->x", "->y", "->../b", "->../a"}}
Sub == {l \in Links : l \in {"->x", "->y", "->zz", "->.", "->../b", "->../a", "->/b", "->/a/x", "->long"}}
Kinds(n) == {"n", "f", "d", "p"} \cup (IF n \in {"a", "b"} THEN Top ELSE Sub)
Kind(st, n) == IF n \in {"", "^"} THEN "d" ELSE st.t[n]
Child(n, c) == CASE n = "" /\ c \in {"a", "b"} -> c
                 [] n = "a" /\ c \in {"x", "y"} -> c
                 [] OTHER -> "none"

RECURSIVE Walk(_, _, _, _)
Walk(st, n, q, fuel) ==
  IF fuel = 0 THEN "loop"
  ELSE IF q = <<>> THEN (CASE Kind(st, n) = "d" -> "dir" [] Kind(st, n) = "p" -> "pipe" [] OTHER -> "file")
  ELSE IF Kind(st, n) # "d" THEN "notdir"
  ELSE LET c == Head(q) IN
       IF c = "." THEN Walk(st, n, Tail(q), fuel)
       ELSE IF c = ".." THEN Walk(st, Up(n), Tail(q), fuel)
       ELSE LET m == Child(n, c) IN
            IF m = "none" \/ Kind(st, m) = "n" THEN "missing"
            ELSE IF IsLink(Kind(st, m))
                 THEN Walk(st, IF Abs(Kind(st, m)) THEN "" ELSE n, Target(Kind(st, m)) \o Tail(q), fuel - 1)
            ELSE Walk(st, m, Tail(q), fuel)
Fuel == 12
(* the folder reached by all but the last part, for the queries which do not follow a final link *)
RECURSIVE Reach(_, _, _, _)
Reach(st, n, q, fuel) ==
  IF fuel = 0 THEN "none"
  ELSE IF q = <<>> THEN n
  ELSE IF Kind(st, n) # "d" THEN "none"
  ELSE LET c == Head(q) IN
       IF c = "." THEN Reach(st, n, Tail(q), fuel)
       ELSE IF c = ".." THEN Reach(st, Up(n), Tail(q), fuel)
       ELSE LET m == Child(n, c) IN
            IF m = "none" \/ Kind(st, m) = "n" THEN "none"
            ELSE IF IsLink(Kind(st, m))
                 THEN Reach(st, IF Abs(Kind(st, m)) THEN "" ELSE n, Target(Kind(st, m)) \o Tail(q), fuel - 1)
            ELSE Reach(st, m, Tail(q), fuel)
SlotAt(st, q) ==
  LET d == Reach(st, "", SubSeq(q, 1, Len(q) - 1), Fuel)
      c == q[Len(q)]
      m == IF d = "none" THEN "none" ELSE Child(d, c)
  IN IF d # "none" /\ Kind(st, d) = "d" THEN m ELSE "none"
LinkAt(st, q) == LET m == SlotAt(st, q) IN m # "none" /\ IsLink(Kind(st, m))

B(x, c) == IF x THEN c ELSE "-"
(* exists, file, dir, symlink, broken symlink, exists and not a symlink; may be read, may be executed
   (root asks, and no file has the bit), may be read itself even if it is a link that leads nowhere;
   where it leads to, and what the link says *)
Answer(st, q) ==
  LET w == Walk(st, "", q, Fuel)
      l == LinkAt(st, q)
      e == w \in {"file", "dir", "pipe"}
  IN B(e, "e") \o B(w = "file", "f") \o B(w = "dir", "d") \o B(l, "l") \o B(l /\ ~e, "b") \o B(e /\ ~l, "n")
     \o B(e, "r") \o B(w = "dir", "x") \o B(e \/ l, "m")
     \o ":" \o (IF e THEN Reach(st, "", q, Fuel) ELSE "-") \o ":" \o (IF l THEN Kind(st, SlotAt(st, q)) ELSE "-")

Queries == {<<c>> : c \in {"a", "b", "zz", "LONG", "NUL"}}
  \cup {<<c, e>> : c \in {"a", "b"}, e \in {"x", "y", "zz", "..", "LONG"}}
  \cup {<<"a", c, e>> : c \in {"x", "y", ".."}, e \in {"x", "b", ".."}}
  \cup {<<"b", "..", "b">>, <<"b", "x", "y">>, <<"zz", "x">>, <<"zz", "..", "a">>}
Inside(q) == \* does not lead above the base
  q \notin {<<"a", "..", "..">>} /\ q # <<"a", "..", "x">>

(* relative paths: purely on the parts *)
RECURSIVE Common(_, _)
Common(p, q) == IF p = <<>> \/ q = <<>> \/ Head(p) # Head(q) THEN 0 ELSE 1 + Common(Tail(p), Tail(q))
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o Join(Tail(q))
(* from (the folder of) one path to another; a path that contains the other one is its own folder *)
Relative(from, to) ==
  LET n == Common(from, to)
      ups == IF Len(from) = n THEN 0 ELSE Len(from) - n - 1
      r == [i \in 1..ups |-> ".."] \o SubSeq(to, n + 1, Len(to))
  IN IF r = <<>> THEN "." ELSE Join(r)
Names == {"a", "b", "ab"}
RelPaths == {<<>>} \cup {<<c>> : c \in Names} \cup {<<c, e>> : c \in Names, e \in Names}
  \cup {<<c, e, g>> : c \in {"a"}, e \in {"a", "b"}, g \in Names}

(* the type of what is at a path: a folder, or what the last parts of its own name say, however the
   path is written and whether or not it leads anywhere; ours: suffixes the class knows the type of *)
TypeNames == {"q", "q.txt", "q.TXT", "q.json", "q.txt.gz", "q.tar.gz", "q.tgz", "q.gz", "q.svgz", ".txt", "q.", "q.zz", "q.aa.zz",
              "q.txt.zz", "q r.txt", "q#1.txt", "q?a=b.txt", "q%2Ejson", "q;a=b.txt", "q:1.json", "data:,q.txt"}
Known(n) == CASE n \in {"q.txt", "q.TXT", "q.txt.gz", "q r.txt", "q#1.txt", "q?a=b.txt", "q;a=b.txt", "data:,q.txt"} -> "text/plain"
              [] n \in {"q.json", "q:1.json"} -> "application/json"
              [] n \in {"q.tar.gz", "q.tgz"} -> "application/x-tar"
              [] n = "q.svgz" -> "image/svg+xml"
              [] n = "q.aa.zz" -> "ours"
              [] OTHER -> "-"
Packed(n) == IF n \in {"q.txt.gz", "q.tar.gz", "q.tgz", "q.gz", "q.svgz"} THEN "gzip" ELSE "-"
Type(op) == IF op.kind \in {"dir", "link to dir"} THEN "inode/directory" ELSE Known(op.name) \o " " \o Packed(op.name)
TypeOps == {x \in [op: {"type"}, name: TypeNames, kind: {"nothing", "file", "dir", "pipe", "link to file", "link to dir", "link to nothing",
                                                       "link to itself"}, to: {"q", "q.json", "q.gz"}] :
              x.kind \in {"link to file", "link to nothing"} \/ x.to = "q"}

Outcomes(st, op) ==
  CASE op.op = "type" -> {[res |-> Type(op), post |-> st]}
    [] op.op = "set" -> {[res |-> "ok", post |-> [t |-> [st.t EXCEPT ![op.n] = op.k]]]}
    [] op.op = "ask" -> {[res |-> Answer(st, op.q), post |-> st]}
    [] op.op = "rel" -> {[res |-> Relative(op.from, op.to), post |-> st]}
    [] OTHER -> {}
SetOk(st, n, k) == /\ k # st.t[n] /\ k \in Kinds(n)
                   /\ (n \in {"x", "y"} => st.t["a"] = "d")
                   /\ (n = "a" => st.t["x"] = "n" /\ st.t["y"] = "n")
Ops(st) ==
  IF Mode = "relative" THEN [op: {"rel"}, from: RelPaths, to: RelPaths]
  ELSE IF Mode = "type" THEN TypeOps
  ELSE {x \in [op: {"ask"}, q: Queries] : Inside(x.q)}
       \cup {x \in [op: {"set"}, n: Slots, k: {"n", "f", "d", "p"} \cup Links] : SetOk(st, x.n, x.k)}

Valid(t) == /\ \A n \in Slots : t[n] \in Kinds(n)
            /\ t["a"] # "d" => t["x"] = "n" /\ t["y"] = "n"
Init == /\ s \in IF Mode # "query" THEN {[t |-> [n \in Slots |-> "n"]]}
                 ELSE {[t |-> [n \in Slots |-> CASE n = "a" -> ka [] n = "b" -> kb [] n = "x" -> kx [] OTHER -> ky]] :
                        ka \in Kinds("a"), kb \in Kinds("b"), kx \in Kinds("x"), ky \in Kinds("y")}
        /\ Valid(s.t)
        /\ last = [op |-> "init", res |-> "init"]
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == Valid(s.t)
(* the answers to one question agree with each other *)
Consistent == \A q \in Queries : Inside(q) =>
  LET w == Walk(s, "", q, Fuel) l == LinkAt(s, q)
  IN (w \in {"missing", "notdir", "loop", "file", "dir", "pipe"})
     /\ (~l /\ w = "loop" => Len(q) > 1)
     /\ (s.t[IF q[1] \in Slots THEN q[1] ELSE "a"] = "n" /\ q[1] \in Slots => w = "missing")
(* asking changes nothing *)
AskingIsFree == [][last'.op.op # "set" => s' = s]_<<s, last>>
(* a relative path leads back: appended to the folder it starts from it is the other path *)
RECURSIVE Norm(_)
Norm(q) == IF \E i \in 2..Len(q) : q[i] = ".." /\ q[i - 1] # ".."
           THEN LET i == CHOOSE i \in 2..Len(q) : q[i] = ".." /\ q[i - 1] # ".." /\ \A j \in 2..(i - 1) : q[j] # ".."
                IN Norm(SubSeq(q, 1, i - 2) \o SubSeq(q, i + 1, Len(q)))
           ELSE q
LeadsBack == Mode = "relative" => \A p \in RelPaths, q \in RelPaths :
  LET n == Common(p, q)
      start == IF Len(p) = n THEN p ELSE SubSeq(p, 1, Len(p) - 1)
      ups == IF Len(p) = n THEN 0 ELSE Len(p) - n - 1
  IN Norm(start \o [i \in 1..ups |-> ".."] \o SubSeq(q, n + 1, Len(q))) = q
=============================================================================
