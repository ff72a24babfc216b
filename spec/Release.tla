------------------------------- MODULE Release --------------------------------
(* C25: a package's release state is that of its own tags and files.
   One repository with three packages: "r" at its root (name rr), "s" in a folder
   (name s) and "st" in another one (name s-t).  hist: what each commit after the
   first changed; at: the commit that is checked out; tags: where each is (0: not
   there); man: is there a MANIFEST.in; ver: the version in setup.py; pub: the
   versions published; gh: the tags released on GitHub, newest first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxHist, Few
VARIABLES s, last

P == {"r", "s", "st"}
Files == {"r/code", "r/notes", "s/code", "s/notes", "st/code", "st/notes"}
Tags == {"1.0", "1.10", "2nd", "v3.0", "s-1.0", "s-1.10", "s-old", "s-t-1.0", "s-t-x", "xs-2.0"}
Vers == {"1.9.0", "1.10.0rc2", "1.10.0", "1.10.1rc1"}
Name(p) == CASE p = "r" -> "rr" [] p = "s" -> "s" [] OTHER -> "s-t"
(* the version a tag is of, for a package: its name goes before it, unless it is at the root *)
TagVersion(p, t) ==
  CASE p = "r" -> (CASE t = "1.0" -> "1.0" [] t = "1.10" -> "1.10" [] OTHER -> "none")
    [] p = "s" -> (CASE t = "s-1.0" -> "1.0" [] t = "s-1.10" -> "1.10" [] OTHER -> "none")
    [] OTHER -> (CASE t = "s-t-1.0" -> "1.0" [] OTHER -> "none")
Own(p) == {t \in Tags : TagVersion(p, t) # "none"}
(* the nearest ones behind what is checked out *)
Behind(st, p) == {t \in Own(p) : st.tags[t] > 0 /\ st.tags[t] <= st.at}
Latest(st, p) == {t \in Behind(st, p) : \A u \in Behind(st, p) : st.tags[u] <= st.tags[t]}
(* what a release has in it: without a manifest, all in the folder of the package *)
Released(st, p) == IF st.man[p] THEN {p \o "/code"}
                   ELSE IF p = "r" THEN Files ELSE {p \o "/code", p \o "/notes"}
(* commit 1 has all the files *)
Changed(st, i) == IF i = 1 THEN Files ELSE {st.hist[i - 1]}
Since(st, p) == LET from == IF Latest(st, p) = {} THEN 0 ELSE st.tags[CHOOSE t \in Latest(st, p) : TRUE] IN
  {i \in 1..st.at : i > from /\ Changed(st, i) \cap Released(st, p) # {}}
RECURSIVE Told(_, _)
Told(I, n) == IF n = 0 THEN "" ELSE (IF n \in I THEN " " \o ToString(n) ELSE "") \o Told(I, n - 1)

Rank(v) == CASE v = "1.9.0" -> 1 [] v = "1.10.0rc2" -> 2 [] v = "1.10.0" -> 3 [] OTHER -> 4
Greatest(V) == CHOOSE v \in V : \A w \in V : Rank(w) <= Rank(v)
Finals(V) == V \ {"1.10.0rc2", "1.10.1rc1"}
(* what the index calls the version of a package: a pre-release only when there is nothing else *)
Current(V) == IF Finals(V) # {} THEN Greatest(Finals(V)) ELSE Greatest(V)
Pub(st) == {v \in Vers : st.pub[v]}
After(v, ph) == CASE ph = "micro" -> (CASE v = "1.9.0" -> "1.9.1" [] v \in {"1.10.0rc2", "1.10.0"} -> "1.10.1" [] OTHER -> "1.10.2")
                  [] ph = "minor" -> (CASE v = "1.9.0" -> "1.10.0" [] OTHER -> "1.11.0")
                  [] OTHER -> (CASE v = "1.9.0" -> "1.9.1.dev0" [] v = "1.10.0" -> "1.10.1.dev0" [] OTHER -> "refused")
Firsts(st, p) == {i \in 1..Len(st.gh) : st.gh[i] \in Own(p)}
OnGithub(st, p) == IF Firsts(st, p) = {} THEN "none" ELSE st.gh[CHOOSE i \in Firsts(st, p) : \A j \in Firsts(st, p) : i <= j]

Ans(st, x) == {[res |-> x, post |-> st]}
Do(st) == {[res |-> "ok", post |-> st]}
Outcomes(st, op) ==
  CASE op.op = "folder" -> Ans(st, op.p)
    [] op.op = "tag" -> IF Latest(st, op.p) = {} THEN Ans(st, "none") ELSE UNION {Ans(st, t) : t \in Latest(st, op.p)}
    [] op.op = "tagversion" -> IF Latest(st, op.p) = {} THEN Ans(st, "none") ELSE UNION {Ans(st, TagVersion(op.p, t)) : t \in Latest(st, op.p)}
    [] op.op = "since" -> Ans(st, "commits" \o Told(Since(st, op.p), st.at))
    [] op.op = "version" -> Ans(st, st.ver[op.p])
    [] op.op = "published" -> Ans(st, IF Pub(st) = {} THEN "none" ELSE Greatest(Pub(st)))
    [] op.op = "next" -> IF Pub(st) = {} THEN Ans(st, st.ver[op.p])
                         ELSE IF Greatest(Pub(st)) # Current(Pub(st)) THEN Ans(st, "refused") ELSE Ans(st, After(Current(Pub(st)), op.ph))
    \* the command that releases it names its folder and what comes next
    [] op.op = "command" -> {[o EXCEPT !.res = IF @ = "refused" THEN @ ELSE op.p \o " " \o @] :
                                o \in IF Pub(st) = {} THEN Ans(st, st.ver[op.p])
                                      ELSE IF Greatest(Pub(st)) # Current(Pub(st)) THEN Ans(st, "refused") ELSE Ans(st, After(Current(Pub(st)), op.ph))}
    \* the module of the same name, the one of "st" is called otherwise
    [] op.op = "module" -> Ans(st, IF op.p = "st" THEN "refused" ELSE op.p)
    [] op.op = "github" -> Ans(st, OnGithub(st, op.p))
    [] op.op = "githubversion" -> Ans(st, IF OnGithub(st, op.p) = "none" THEN "none" ELSE TagVersion(op.p, OnGithub(st, op.p)))
    [] op.op = "commit" -> Do([st EXCEPT !.hist = Append(SubSeq(st.hist, 1, st.at - 1), op.f), !.at = @ + 1,
                                          !.tags = [t \in Tags |-> IF @[t] > st.at THEN 0 ELSE @[t]]])
    [] op.op = "checkout" -> Do([st EXCEPT !.at = op.i])
    [] op.op = "settag" -> Do([st EXCEPT !.tags[op.t] = st.at])
    [] op.op = "deltag" -> Do([st EXCEPT !.tags[op.t] = 0])
    [] op.op = "manifest" -> Do([st EXCEPT !.man[op.p] = ~@])
    [] op.op = "setversion" -> Do([st EXCEPT !.ver[op.p] = op.v])
    [] op.op = "publish" -> Do([st EXCEPT !.pub[op.v] = TRUE])
    [] op.op = "ghrelease" -> Do([st EXCEPT !.gh = <<op.t>> \o @])
    [] OTHER -> {}
Asks == [op: {"folder", "tag", "tagversion", "since", "version", "published", "module", "github", "githubversion"}, p: P]
        \cup [op: {"next", "command"}, p: P, ph: {"micro", "minor", "dev"}]
Changes(st) ==
  {x \in [op: {"commit"}, f: Files] : Len(st.hist) < MaxHist}
  \cup [op: {"checkout"}, i: 1..(Len(st.hist) + 1)] \cup [op: {"settag", "deltag"}, t: Tags]
  \cup [op: {"manifest"}, p: P] \cup [op: {"setversion"}, p: P, v: {"0.9", "1.10.0"}]
  \cup [op: {"publish"}, v: Vers] \cup {x \in [op: {"ghrelease"}, t: Tags] : Len(st.gh) < 3}
Ops(st) == Asks \cup Changes(st)

H == {<<>>, <<"s/code">>, <<"r/notes", "s/code">>, <<"s/notes", "st/code">>, <<"s/code", "r/code">>, <<"r/code", "s/notes", "s/code">>,
      <<"st/notes", "st/code", "r/notes">>, <<"s/code", "s/code", "r/code">>}
NoTags == [t \in Tags |-> 0]
Sets == IF Few THEN {NoTags} ELSE {NoTags} \cup {[NoTags EXCEPT ![a] = i, ![b] = j] : a \in Tags, b \in Tags, i \in {1, 3}, j \in {2, 3}}
Init == /\ \E h \in H, tg \in Sets, m \in {P, {}}, v \in {"0.9", "1.10.0"}, pb \in SUBSET Vers,
              g \in {<<>>, <<"s-t-1.0", "s-1.0">>, <<"2nd", "xs-2.0", "1.10">>, <<"s-old", "v3.0">>, <<"s-t-x", "1.0", "s-1.10">>, <<"s-1.0", "s-1.10">>,
                     <<"1.0", "s-t-1.0", "1.10">>}, i \in 1..4 :
             /\ \A t \in Tags : tg[t] <= Len(h) + 1
             /\ i \in {Len(h), Len(h) + 1} \ {0}
             /\ (tg # NoTags => pb = {} /\ g = <<>> /\ v = "0.9" /\ (m = {} => i = Len(h) + 1))
             /\ (h # <<"s/code">> => pb = {} /\ g = <<>> /\ v = "0.9")
             /\ (g # <<>> => pb = {} /\ v = "0.9" /\ m = P)
             /\ s = [hist |-> h, at |-> i, tags |-> tg, man |-> [p \in P |-> p \in m], ver |-> [p \in P |-> IF p = "st" THEN "0.9" ELSE v],
                     pub |-> [w \in Vers |-> w \in pb], gh |-> g]
        /\ last = [op |-> "init", res |-> "init"]
Narrow(st, op) == CASE st.tags # NoTags -> op.op \in {"tag", "tagversion", "since"}
                    [] Pub(st) # {} -> op.op \in {"published", "next", "command"}
                    [] OTHER -> TRUE
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : (Few \/ Narrow(s, op)) /\ \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == /\ s.at \in 1..(Len(s.hist) + 1) /\ \A t \in Tags : s.tags[t] \in 0..(Len(s.hist) + 1)
(* no tag is taken for two packages *)
OneOwner == \A p, q \in P : p # q => Own(p) \cap Own(q) = {}
(* the tag is behind what is checked out and nothing of the package is between *)
Nearest == \A p \in P : \A t \in Latest(s, p) :
   s.tags[t] \in 1..s.at /\ \A u \in Own(p) : s.tags[u] > s.at \/ s.tags[u] <= s.tags[t]
(* every commit of a released file is in the log of one that is not released, or before its last tag *)
NothingMissed == \A p \in P : \A i \in 1..s.at :
   (p \o "/code") \in Changed(s, i) => i \in Since(s, p) \/ \E t \in Behind(s, p) : s.tags[t] >= i
NothingOfOthers == \A i \in Since(s, "s") : Changed(s, i) \cap {"s/code", "s/notes"} # {}
(* right after a release there is nothing to release *)
ReleasedIsEmpty == [][last'.op.op = "settag" => \A p \in P : last'.op.t \in Own(p) => Since(s', p) = {}]_<<s, last>>
OthersTagsDoNotCount == [][last'.op.op \in {"settag", "deltag"} =>
   \A p \in P : last'.op.t \notin Own(p) => Since(s', p) = Since(s, p) /\ Latest(s', p) = Latest(s, p)]_<<s, last>>
AskingChangesNothing == [][last'.op \in Asks => s' = s]_<<s, last>>
=============================================================================
