-------------------------------- MODULE Merge --------------------------------
(* Merging of partially revealed copies of the same data.  A copy is         *)
(*   [k, id, lev]          an operation, with levels of its assignments      *)
(*   [k, id, ops, lev]     a transition bundle, with known transitions       *)
(*   [k, id, m]            an anchor set: closing method -> known contracts  *)
(*   [k, id, tx, chain]    a witness: full transaction or just its id        *)
(* `acc` is what has been accumulated so far.                                *)
EXTENDS World

VARIABLES acc, hist, last

Levels == {"C", "S", "V", "R"}
Kinds == {k \in {"op", "bundle", "anchor", "witness"} : IOEnv.KIND \in {k, "all"}}

OpCopies(op) == {[k |-> "op", id |-> op, lev |-> f] : f \in [OutsOf(op) -> Levels]}

\* only the first assignment of each transition varies
Varied(ops) == {o \in OutsOfAll(ops) : W.opouts[o].no = 0 /\ W.opouts[o].ty = "A"}
BundleCopies(b) ==
  UNION {{[k |-> "bundle", id |-> b, ops |-> s,
           lev |-> [o \in OutsOfAll(s) |-> IF o \in Varied(s) THEN f[o] ELSE "R"]]
            : f \in [Varied(s) -> Levels]}
         : s \in SUBSET BOps(b) \ {{}}}

Leaves(w, m) == {BContract(b) : b \in {x \in WBundles(w) : BMethod(x) = m}}
MethodKnown(w, m) == SUBSET Leaves(w, m) \ {{}}
AnchorCopies(w) ==
  {[k |-> "anchor", id |-> w, m |-> [x \in {"T"} |-> s]] : s \in MethodKnown(w, "T")}
    \cup {[k |-> "anchor", id |-> w, m |-> [x \in {"O"} |-> s]] : s \in MethodKnown(w, "O")}
    \cup {[k |-> "anchor", id |-> w, m |-> [x \in {"T", "O"} |-> IF x = "T" THEN p[1] ELSE p[2]]]
            : p \in MethodKnown(w, "T") \X MethodKnown(w, "O")}

WitnessCopies(w) == {[k |-> "witness", id |-> w, tx |-> t, chain |-> c] : t \in BOOLEAN, c \in {"bitcoin", "liquid"}}

Copies ==
  UNION {
    IF k = "op" THEN UNION {OpCopies(op) : op \in Ops}
    ELSE IF k = "bundle" THEN UNION {BundleCopies(b) : b \in Bundles}
    ELSE IF k = "anchor" THEN UNION {AnchorCopies(w) : w \in Witnesses}
    ELSE UNION {WitnessCopies(w) : w \in Witnesses}
    : k \in Kinds}

\* Copies of the same thing
Same(a, b) ==
  /\ a.k = b.k /\ a.id = b.id
  /\ a.k = "witness" => a.chain = b.chain
Merge(a, b) ==
  CASE a.k = "op" -> [a EXCEPT !.lev = JoinFn(a.lev, b.lev)]
    [] a.k = "bundle" -> [a EXCEPT !.ops = a.ops \cup b.ops, !.lev = JoinFn(a.lev, b.lev)]
    [] a.k = "anchor" -> [a EXCEPT !.m = [x \in DOMAIN a.m \cup DOMAIN b.m |->
                            (IF x \in DOMAIN a.m THEN a.m[x] ELSE {}) \cup (IF x \in DOMAIN b.m THEN b.m[x] ELSE {})]]
    [] OTHER -> [a EXCEPT !.tx = a.tx \/ b.tx]

\* Foreign copies are tried for a single representative of each thing
Foreign(b) ==
  CASE b.k \in {"op", "bundle"} -> \A o \in DOMAIN b.lev : b.lev[o] = "R"
    [] b.k = "anchor" -> \A x \in DOMAIN b.m : b.m[x] = Leaves(b.id, x)
    [] OTHER -> TRUE
\* Two anchors of different witnesses under different methods are not comparable: they do not tell
\* which transaction they belong to.
Comparable(a, b) ==
  /\ a.k = b.k
  /\ a.k = "anchor" => DOMAIN a.m \cap DOMAIN b.m # {}
  /\ a.k = "op" => Kind(a.id) = Kind(b.id)

vars == <<acc, hist, last>>
Init == acc \in Copies /\ hist = <<acc>> /\ last = "init"
Next ==
  \E c \in Copies :
    \/ /\ Same(acc, c)
       /\ acc' = Merge(acc, c)
       /\ hist' = Append(hist, c)
       /\ last' = "ok"
    \/ /\ ~ Same(acc, c) /\ Comparable(acc, c) /\ Foreign(c)
       /\ acc' = acc
       /\ hist' = Append(hist, c)
       /\ last' = "reject"
Spec == Init /\ [][Next]_vars

View == acc
Bounded == Len(hist) <= 3
EmitEdge ==
  /\ Len(hist') <= 3
  /\ PrintT(ToJson([p |-> hist, c |-> hist'[Len(hist')], r |-> last', acc |-> acc']))

\* Merging is a join: idempotent, commutative, associative, and nothing is lost
Below(a, b) == Same(a, b) /\ Merge(a, b) = b
JoinLaws ==
  \A a \in Copies : Same(a, acc) =>
    /\ Merge(a, acc) = Merge(acc, a)
    /\ Merge(acc, acc) = acc
    /\ Below(acc, Merge(acc, a)) /\ Below(a, Merge(acc, a))
\* ... and nothing else is revealed: the result is the least of what is above both
Least ==
  \A a, b \in Copies : Same(a, acc) /\ Same(b, acc) /\ Below(a, b) /\ Below(acc, b) => Below(Merge(a, acc), b)
=============================================================================
