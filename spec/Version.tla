------------------------------- MODULE Version -------------------------------
(* C20: the next version is a legal successor of the current one.
   A version: release numbers, and optionally a pre-release, a post-release, a
   dev-release and a local part (-1, or "no": not there). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Mixed, Releases, Pres, Posts, Devs, Locals, Epochs
VARIABLES s, last

Rel(r) == CASE r = "1.2.3" -> <<1, 2, 3>> [] r = "0.0.0" -> <<0, 0, 0>> [] r = "1.9" -> <<1, 9>>
            [] r = "7" -> <<7>> [] r = "1.2.0.4" -> <<1, 2, 0, 4>>
No == [k |-> "no", n |-> -1]
Phases == {"current", "dev", "pre", "a", "b", "rc", "release", "major", "minor", "micro", "post", "local"}
Comps == {"release", "major", "minor", "micro"}
Max2(x, y) == IF x > y THEN x ELSE y

State(v) == IF v.local # "no" THEN "local" ELSE IF v.post >= 0 THEN "post"
            ELSE IF v.pre # No THEN v.pre.k ELSE IF v.dev >= 0 THEN "dev" ELSE "release"
PreRank(k) == CASE k = "a" -> 1 [] k = "b" -> 2 [] k = "rc" -> 3 [] OTHER -> 0
IsPre(c) == c \in {"a", "b", "rc"}

(* the order of versions (PEP 440): epoch, release, then dev < a < b < rc < release < post; a dev-release
   of something comes before it; a local part comes after what it is of *)
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
RelCmp(p, q) ==
  LET I == {i \in 1..Max2(Len(p), Len(q)) : At(p, i) # At(q, i)}
  IN IF I = {} THEN 0 ELSE LET i == CHOOSE x \in I : \A y \in I : x <= y
                           IN IF At(p, i) < At(q, i) THEN -1 ELSE 1
Key(v) == << (* phase *) IF v.pre # No THEN PreRank(v.pre.k) ELSE IF v.post < 0 /\ v.dev >= 0 THEN 0 ELSE 4,
             v.pre.n, v.post, IF v.dev >= 0 THEN v.dev ELSE 1000000, IF v.local = "no" THEN 0 ELSE 1 >>
RECURSIVE SeqLess(_, _)
SeqLess(p, q) == IF p = <<>> THEN FALSE ELSE Head(p) < Head(q) \/ (Head(p) = Head(q) /\ SeqLess(Tail(p), Tail(q)))
Less(v, w) == v.epoch < w.epoch \/ (v.epoch = w.epoch /\
                (RelCmp(v.rel, w.rel) < 0 \/ (RelCmp(v.rel, w.rel) = 0 /\ SeqLess(Key(v), Key(w)))))

Bare(v) == [v EXCEPT !.pre = No, !.post = -1, !.dev = -1, !.local = "no"]
(* one component up, the ones after it zero *)
Index(v, c) == CASE c = "release" -> Len(v.rel) [] c = "major" -> 1 [] c = "minor" -> 2 [] c = "micro" -> 3
Bump(v, c) == LET i == Index(v, c) IN
  [Bare(v) EXCEPT !.rel = [j \in 1..Max2(Len(v.rel), i) |-> IF j < i THEN At(v.rel, j) ELSE IF j = i THEN At(v.rel, j) + 1 ELSE 0]]
Short(v, c) == Index(v, c) > Len(v.rel)
Pre(v, k, n) == [v EXCEPT !.pre = [k |-> k, n |-> n]]
(* versions that are several things at once are only held to what holds for every version *)
Plain(v) == Cardinality({x \in {"pre", "post", "dev"} :
              CASE x = "pre" -> v.pre # No [] x = "post" -> v.post >= 0 [] OTHER -> v.dev >= 0}) <= 1

(* the successors of a plain version; {} when the request is refused *)
NextPre(k) == CASE k = "a" -> "b" [] OTHER -> "rc"
Fresh(v, ph, c) == (* the pre- or dev-release of a new release *)
  LET w == Bump(v, c) IN {IF ph = "dev" THEN [w EXCEPT !.dev = 0] ELSE Pre(w, ph, 0)}
Legal(v, ph, c) ==
  LET st == State(v) IN
  CASE ph = "current" ->
         CASE st = "release" -> {Bump(v, "release")}
           [] st = "dev" -> {[v EXCEPT !.dev = @ + 1]}
           [] st = "post" -> {[v EXCEPT !.post = @ + 1]}
           [] IsPre(st) -> {[v EXCEPT !.pre.n = @ + 1]}
           [] OTHER -> {}
    [] ph = "dev" ->
         CASE st = "dev" -> {[v EXCEPT !.dev = @ + 1]}
           [] IsPre(st) -> {}
           [] OTHER -> Fresh(v, "dev", c)
    [] ph = "pre" ->
         CASE st = "dev" -> {Pre(Bare(v), "a", 0)}
           [] st = "rc" -> {Pre(v, "rc", v.pre.n + 1)}
           [] IsPre(st) -> {Pre(v, NextPre(st), n) : n \in {0, v.pre.n + 1}}
           [] OTHER -> Fresh(v, "a", c)
    [] IsPre(ph) ->
         CASE st = "dev" -> {Pre(Bare(v), ph, 0)}
           [] IsPre(st) -> (IF PreRank(st) > PreRank(ph) THEN {}   \* backwards
                            ELSE Fresh(v, ph, c) \cup {Pre(v, ph, n) : n \in {x \in {0, v.pre.n + 1} : st # ph \/ x > v.pre.n}})
           [] OTHER -> Fresh(v, ph, c)
    [] ph = "release" -> IF st = "dev" \/ IsPre(st) THEN {Bare(v)} ELSE {Bump(v, "release")}
    [] ph \in {"major", "minor", "micro"} -> {Bump(v, ph)}
    [] ph = "post" -> IF st = "release" THEN {[v EXCEPT !.post = 0]} ELSE {}
    [] ph = "local" -> IF st = "local" THEN {} ELSE {[v EXCEPT !.local = "0"]}
Must(v, ph, c) == (* what may not be refused *)
  /\ Plain(v) /\ Legal(v, ph, c) # {} /\ State(v) # "local"
  /\ ~Short(v, IF ph \in {"major", "minor", "micro"} THEN ph ELSE "release")
  /\ ~Short(v, c)
InPhase(w, ph, v) == CASE ph = "current" -> State(w) = State(v)
                       [] ph = "pre" -> IsPre(State(w))
                       [] ph \in {"major", "minor", "micro"} -> State(w) = "release"
                       [] OTHER -> State(w) = ph

(* for the versions which are several things at once: any greater one in the phase asked for that is near *)
AnyOk(v, w, ph) == Less(v, w) /\ InPhase(w, ph, v)
Near(v, ph, c) ==
  {w \in [epoch: {v.epoch}, rel: {v.rel} \cup {Bump(v, x).rel : x \in {"release", c} \cup ({ph} \cap Comps)},
          pre: {No, v.pre} \cup [k: {"a", "b", "rc"}, n: {0, v.pre.n + 1}], post: {-1, 0, v.post, v.post + 1},
          dev: {-1, 0, v.dev, v.dev + 1}, local: {"no", "0", v.local}] : AnyOk(v, w, ph)}

Refused(st) == {[res |-> "refused", post |-> st]}
(* the answer becomes the current version *)
Outcomes(st, op) ==
  LET v == st.v
      ok == {[res |-> "next", post |-> [v |-> w]] : w \in IF Plain(v) THEN Legal(v, op.ph, op.c) ELSE
                     IF Legal(v, op.ph, op.c) = {} THEN {} ELSE Near(v, op.ph, op.c)}
  IN IF Must(v, op.ph, op.c) THEN ok ELSE ok \cup Refused(st)
Ops(st) == [op: {"next"}, ph: Phases, c: Comps]
Init == /\ \E r \in Releases, p \in {No} \cup [k: {"a", "b", "rc"}, n: Pres], po \in {-1} \cup Posts,
              d \in {-1} \cup Devs, l \in {"no"} \cup Locals, e \in Epochs :
             s = [v |-> [epoch |-> e, rel |-> Rel(r), pre |-> p, post |-> po, dev |-> d, local |-> l]]
        /\ Plain(s.v) # Mixed
        /\ last = [op |-> "init", res |-> "init"]
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == (Mixed \/ Plain(s.v)) /\ Len(s.v.rel) >= 1
(* only from a version without a local part does the order say anything about the part itself *)
Greater == [][last'.res = "next" => Less(s.v, s'.v)]_<<s, last>>
Asked == [][last'.res = "next" => InPhase(s'.v, last'.op.ph, s.v)]_<<s, last>>
KeepsRelease == [][last'.res = "next" /\ last'.op.ph = "release" /\ (IsPre(State(s.v)) \/ State(s.v) = "dev")
                    => s'.v.rel = s.v.rel]_<<s, last>>
ZeroesAfter == [][last'.res = "next" /\ last'.op.ph \in {"major", "minor", "micro"}
                   => \A i \in 1..Len(s'.v.rel) : i > Index(s.v, last'.op.ph) => s'.v.rel[i] = 0]_<<s, last>>
NeverBack == [][last'.res = "next" /\ IsPre(State(s.v)) =>
                 last'.op.ph # "dev" /\ (IsPre(last'.op.ph) => PreRank(last'.op.ph) >= PreRank(State(s.v)))]_<<s, last>>
PostFromRelease == [][last'.res = "next" /\ last'.op.ph = "post" => State(s.v) = "release"]_<<s, last>>
(* a legal way on from everywhere *)
NeverStuck == State(s.v) # "local" => Legal(s.v, "release", "release") # {}
=============================================================================
