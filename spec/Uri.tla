--------------------------------- MODULE Uri ---------------------------------
(* C24: the remote address of a path names exactly that path.
   Three repositories: "g", "l" (cloned from g), "m" (cloned from l).  Each has
   the address of a remote and something checked out: a branch, or a commit
   alone ("detached"). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Names, Wide
VARIABLES s, last

R == {"g", "l", "m"}
(* how an address is written: forms git takes *)
Forms == {"https", "https.git", "https/", "https.git/", "http.git", "https-user.git", "https-token", "https-port.git", "https-caps.git",
          "scp", "scp.git", "scp-abs.git", "scp-nouser.git", "scp-other.git", "ssh", "ssh.git", "ssh-port.git", "git.git"}
Hosts == {"github.com", "github.company.com", "gitlab.com", "notgithub.com", "github.com.example.org"}
(* a local one: a repository by its folder, by what is in it, by a link to it *)
Local == {"path", "path/", "path/.git", "link"}
(* what no address can be told of: no remote, a bare repository, a folder that is in a repository, one that is
   not there, an address relative to the folder, a file address *)
Nowhere == {"none", "bare", "within", "gone", "relative", "file"}
Web == [form: Forms, host: Hosts, name: Names]
Loc(t) == [form: Local, host: {"local"}, name: t]
Off == [form: Nowhere, host: {"local"}, name: {"g"}]

Heads == {"main", "f/x", "detached"}
Refs == {"", "HEAD", "main", "f/x", "tag", "v/1", "sha", "short", "commit", "nope"}
Paths == {".", "a", "a/b", "odd", "d/odd", "gone"}

(* the repository whose remote counts: the end of the chain of clones *)
RECURSIVE Chain(_, _, _)
Chain(st, r, n) == LET u == st.url[r] IN
  IF n = 0 THEN "nowhere" ELSE IF u.host = "github.com" THEN r
  ELSE IF u.form \in Local THEN Chain(st, u.name, n - 1) ELSE "nowhere"
End(st, r) == Chain(st, r, 4)
(* what a ref is called in an address; "": the one checked out at the end of the chain *)
Called(st, e, ref) == CASE ref \in {"", "HEAD"} -> IF st.head[e] = "detached" THEN "sha" ELSE st.head[e]
                        [] ref = "commit" -> "sha"
                        [] OTHER -> ref
Address(st, op) == LET e == End(st, op.r) IN
  IF e = "nowhere" \/ (op.what # "api" /\ op.ref = "nope") THEN "refused"
  ELSE CASE op.what = "api" -> "api o/" \o st.url[e].name
         [] OTHER -> op.what \o " o/" \o st.url[e].name \o " " \o Called(st, e, op.ref) \o " " \o op.p
(* the folder a clone is made in *)
CloneName(u) == u.name

Outcomes(st, op) ==
  CASE op.op = "ask" -> {[res |-> Address(st, op), post |-> st]}
    [] op.op = "clonepath" -> {[res |-> CloneName(op.u), post |-> st]}
    [] op.op = "url" -> {[res |-> "ok", post |-> [st EXCEPT !.url[op.r] = op.u]]}
    [] op.op = "checkout" -> {[res |-> "ok", post |-> [st EXCEPT !.head[op.r] = op.h]]}
    [] OTHER -> {}
Ask == [op: {"ask"}, what: {"human", "machine"}, r: R, p: Paths, ref: Refs]
       \cup [op: {"ask"}, what: {"api"}, r: R, p: {".", "a/b"}, ref: {""}]
Ops(st) == Ask
  \cup [op: {"clonepath"}, u: {u \in Web : u.host \in {"github.com", "gitlab.com"}}
                              \cup [form: {"path", "path/", "path/.git", "path.git", "file"}, host: {"local"}, name: Names]]
  \cup (IF Wide THEN (* no circles *)
      {x \in [op: {"url"}, r: R, u: Web \cup Loc(R) \cup Off] : x.u.form \in Local => <<x.r, x.u.name>> \in {<<"l", "g">>, <<"m", "g">>, <<"m", "l">>}} \cup [op: {"checkout"}, r: R, h: Heads] ELSE {})
(* one where there is a difference to see *)
Narrow(st, op) == CASE op.op = "ask" -> /\ (op.r = "m" => op.ref \in {"", "f/x", "commit"} /\ op.p \in {".", "d/odd"})
                                        /\ (op.r = "l" => op.ref \in {"HEAD", "nope", "tag"} /\ op.p \in {"odd", "a/b"})
                                        /\ (op.p \in {"a", "gone"} => op.ref \in {"", "v/1"})
                    [] op.op = "clonepath" -> st.url["g"].form = "none" /\ st.head["g"] = "main" /\ st.url["l"].form = "path"
                    [] OTHER -> TRUE

Init == /\ \E g \in Web \cup Off, f \in Local \ {"path/"}, hg \in Heads, hl \in {"main", "f/x"} :
             /\ s = [url |-> [r \in R |-> CASE r = "g" -> g [] r = "l" -> [form |-> f, host |-> "local", name |-> "g"]
                                            [] OTHER -> [form |-> "path", host |-> "local", name |-> "l"]],
                     head |-> [r \in R |-> CASE r = "g" -> hg [] r = "l" -> hl [] OTHER -> "main"]]
             /\ (f # "path" => g.form \in {"https.git", "scp.git", "bare"} /\ hg = "main")
             /\ (hg = "main" \/ (hl = "main" /\ g.name = "my.repo"))
             /\ (hl = "main" \/ g.name = "my.repo")
             /\ (g.host # "github.com" => (hg = "main" /\ hl = "main" /\ (g.name = "my.repo" \/ g.host = "local")))
        /\ last = [op |-> "init", res |-> "init"]
Next == /\ TLCGet("level") <= MaxOps
        /\ \E op \in Ops(s) : (Wide \/ Narrow(s, op)) /\ \E o \in Outcomes(s, op) :
             s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))

-----------------------------------------------------------------------------
TypeOK == s.url \in [R -> Web \cup Loc(R) \cup Off] /\ s.head \in [R -> Heads]
(* an address is only ever made out of a remote that is on the host the address is of *)
OnlyThere == [][last'.op.op = "ask" /\ last'.res # "refused" => \E r \in R : s.url[r].host = "github.com"]_<<s, last>>
(* however the remote is written, the address is the same *)
FormFree == \A f \in Forms, r \in R : s.url[r].host = "github.com" =>
  \A x \in {x \in Ask : x.p = "a/b"} : Address(s, x) = Address([s EXCEPT !.url[r].form = f], x)
(* a clone of a clone has the addresses of what it was cloned from, whatever is checked out in it *)
CloneAgrees == \A x \in Ask : s.url[x.r].form \in Local => Address(s, x) = Address(s, [x EXCEPT !.r = s.url[x.r].name])
AskingChangesNothing == [][last'.op.op \in {"ask", "clonepath"} => s' = s]_<<s, last>>
(* different paths, different refs: different addresses *)
Distinct == \A r \in R, w \in {"human", "machine"} : End(s, r) # "nowhere" =>
  \A p, q \in Paths, a, b \in {"main", "f/x", "tag", "v/1", "sha"} :
     <<p, a>> # <<q, b>> => Address(s, [op |-> "ask", what |-> w, r |-> r, p |-> p, ref |-> a]) #
                            Address(s, [op |-> "ask", what |-> w, r |-> r, p |-> q, ref |-> b])
=============================================================================
