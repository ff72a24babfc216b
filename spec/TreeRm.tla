------------------------------- MODULE TreeRm -------------------------------
(* C09: recursive removal stays inside the named tree.
   A world W holds a tree "t" with entries t/x, t/x/y, t/z, t/z/u and an outside
   directory "o" with a file o/f.  Every entry has a kind; links may point
   outside, inside, to themselves or nowhere.  Directories of kind "ldir" do
   not allow entries to be removed from them (no write permission). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS KT, KX, KY, KZ, KU,   \* kinds of t, t/x, t/x/y, t/z, t/z/u in the initial states
          Modes, Spells, Zones, Specials
VARIABLES s, last

Nodes == {"t", "t/x", "t/x/y", "t/z", "t/z/u"}
Parent(n) == CASE n = "t/x/y" -> "t/x" [] n = "t/z/u" -> "t/z" [] n \in {"t/x", "t/z"} -> "t" [] OTHER -> "w"
Below(n) == CASE n = "t" -> Nodes [] n = "t/x" -> {"t/x", "t/x/y"} [] n = "t/z" -> {"t/z", "t/z/u"} [] OTHER -> {n}
IsDirKind(k) == k \in {"dir", "ldir"}
LinkKinds == {"l:o", "l:of", "l:loop", "l:gone", "l:up"}
(* what following the entry finds: the kernel's view, used for 'is it a directory' *)
LeadsToDir(k) == k \in {"dir", "ldir", "l:o", "l:up"}

WellFormed(k) == /\ (~IsDirKind(k["t"]) => k["t/x"] = "none" /\ k["t/z"] = "none")
                 /\ (~IsDirKind(k["t/x"]) => k["t/x/y"] = "none")
                 /\ (~IsDirKind(k["t/z"]) => k["t/z/u"] = "none")
(* cwd: the node that is the working directory; "w" the world, "o" outside *)
CwdOK(st) == st.cwd \in {"w", "o"} \/ IsDirKind(st.k[st.cwd])
Init == /\ s \in {st \in [k: {[n \in Nodes |-> CASE n = "t" -> a [] n = "t/x" -> b [] n = "t/x/y" -> c [] n = "t/z" -> d [] OTHER -> e]
                                : a \in KT, b \in KX, c \in KY, d \in KZ, e \in KU},
                          cwd: {"w", "t", "t/x"}] : WellFormed(st.k) /\ CwdOK(st)}
        /\ last = [op |-> "init", res |-> "init"]

Exists(st, n) == st.k[n] # "none"
Remove(st, R) == [st EXCEPT !.k = [n \in Nodes |-> IF n \in R THEN "none" ELSE st.k[n]]]
(* entries that cannot be removed because the directory holding them forbids it, and so every
   directory above them that would have to be empty first *)
Stuck(st, p) == {n \in Below(p) : \E m \in Below(n) : Exists(st, m) /\ Parent(m) # "w" /\ st.k[Parent(m)] = "ldir"}
Present(st, p) == {n \in Below(p) : Exists(st, n)}
(* sets of entries that can have gone when removal stops early: with a directory everything below it *)
Partial(st, p, F) == {R \in SUBSET (Present(st, p) \ F) : \A n \in R : \A m \in Below(n) : Exists(st, m) => m \in R}
CwdWithin(st, p) == st.cwd \in Below(p)

RmTree(st, op) ==
  LET p == op.p
      all == Present(st, p)
      stuck == Stuck(st, p) \cap all
  IN
  IF op.sp = "rel" THEN {[res |-> "refused", post |-> st]}
  ELSE IF op.dz # "yes" /\ CwdWithin(st, p) THEN {[res |-> "refused", post |-> st]}
  ELSE IF ~Exists(st, p) THEN {[res |-> (IF op.mode = "raise" THEN "missing" ELSE IF op.mode = "ignore" THEN "ok" ELSE "handled"), post |-> st]}
  ELSE IF LeadsToDir(st.k[p]) /\ st.k[p] \in LinkKinds
       THEN {[res |-> (IF op.mode = "raise" THEN "islink" ELSE IF op.mode = "ignore" THEN "ok" ELSE "handled"), post |-> st]}
  ELSE IF stuck = {} THEN {[res |-> "ok", post |-> Remove(st, all)]}
  \* how much of the rest is still removed after an entry could not be is not specified
  ELSE {[res |-> (CASE op.mode = "raise" -> "denied" [] op.mode = "ignore" -> "ok" [] OTHER -> "handled"),
         post |-> Remove(st, R)] : R \in Partial(st, p, stuck)}

(* directories with nothing but directories below them *)
Hollow(st, p) == {n \in Below(p) : IsDirKind(st.k[n]) /\ \A m \in Below(n) : ~Exists(st, m) \/ IsDirKind(st.k[m])}
RmDirTree(st, op) ==
  LET p == op.p
      h == Hollow(st, p)
      stuck == Stuck(st, p) \cap h
  IN IF st.k[p] \in LinkKinds THEN {[res |-> "notdir", post |-> st]}
     ELSE IF stuck = {} THEN {[res |-> "ok", post |-> Remove(st, h)]}
     ELSE {[res |-> "denied", post |-> Remove(st, R)] : R \in Partial(st, p, stuck \cup (Below(p) \ h))}

Outcomes(st, op) ==
  CASE op.op = "rmtree" -> RmTree(st, op)
    [] op.op = "rmdirtree" -> RmDirTree(st, op)
    [] op.op = "special" -> {[res |-> "refused", post |-> st]}
    [] OTHER -> {}

Ops(st) == IF ~CwdOK(st) THEN {} ELSE
  {x \in [op: {"rmtree"}, p: Nodes, sp: Spells, mode: Modes, dz: Zones] :
        /\ (x.sp # "abs" => x.mode = "raise")
        /\ (x.dz # "no" => x.mode = "raise" /\ x.sp \in {"abs", "rel"})
        \* the working directory is not removed from under the process by another spelling of the override
        /\ (Parent(x.p) = "w" \/ IsDirKind(st.k[Parent(x.p)]))}
  \cup {x \in [op: {"rmdirtree"}, p: Nodes] : Parent(x.p) = "w" \/ IsDirKind(st.k[Parent(x.p)])}
  \cup (IF st.k["t"] = "dir" /\ st.k["t/x"] = "none" /\ st.k["t/z"] = "none"
        THEN [op: {"special"}, which: Specials, mode: Modes, dz: {"no", "truthy"}] ELSE {})

Next == \E op \in Ops(s) : \E o \in Outcomes(s, op) : s' = o.post /\ last' = [op |-> op, res |-> o.res]
Spec == Init /\ [][Next]_<<s, last>>
View == s
Emit == PrintT(ToJson([pre |-> s, op |-> last'.op, res |-> last'.res, post |-> s']))
(* the walk only needs single steps from every initial state *)
Shallow == last.op = "init" \/ FALSE

-----------------------------------------------------------------------------
TypeOK == WellFormed(s.k)
(* nothing but entries at or below the named path ever changes, and entries only ever vanish *)
Contained == [][\A n \in Nodes : s'.k[n] # s.k[n] =>
                   /\ s'.k[n] = "none"
                   /\ last'.op.op \in {"rmtree", "rmdirtree"} /\ n \in Below(last'.op.p)]_<<s, last>>
RefusedChangesNothing == [][last'.res \in {"refused", "islink", "missing", "notdir"} => s' = s]_<<s, last>>
OnlyHollowDirsPruned == [][last'.op.op = "rmdirtree" =>
                             \A n \in Nodes : s'.k[n] # s.k[n] => IsDirKind(s.k[n])]_<<s, last>>
CwdSurvives == [][(last'.op.op = "rmtree" /\ last'.op.dz # "yes" /\ s.cwd \in Nodes) => s'.k[s.cwd] = s.k[s.cwd]]_<<s, last>>
SuccessIsComplete == [][(last'.op.op = "rmtree" /\ last'.res = "ok" /\ last'.op.mode = "raise") =>
                           \A n \in Below(last'.op.p) : s'.k[n] = "none"]_<<s, last>>
=============================================================================
