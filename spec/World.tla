-------------------------------- MODULE World --------------------------------
(* The fixed facts of a contract universe: contracts, their operations       *)
(* (genesis, state transitions, state extensions), the transition bundles    *)
(* operations are committed in, and the witness transactions which commit to *)
(* bundles.  The description is read from the JSON file the replay harness   *)
(* builds the concrete consensus data structures from, so both sides talk    *)
(* about the same objects.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

W == JsonDeserialize(IOEnv.WORLD)

Range(f) == {f[x] : x \in DOMAIN f}
EmptyFn  == [x \in {} |-> x]

Contracts == DOMAIN W.contracts
Ops       == DOMAIN W.ops
Bundles   == DOMAIN W.bundles
Witnesses == DOMAIN W.witnesses
Opouts    == DOMAIN W.opouts
SealIds   == {W.opouts[o].sid : o \in Opouts}
Outpoints == Range(W.outpoints)
GTypes    == {"G1", "G3", "GN"}
ATypes    == {"A", "F", "D", "R", "X"}
GLimit    == [G1 |-> 1, G3 |-> 3, GN |-> 1000000]

Genesis(c)    == W.contracts[c].genesis
Kind(op)      == W.ops[op].kind
ContractOf(op) == W.ops[op].contract
OutsOf(op)    == Range(W.ops[op].outs)
InputsOf(op)  == Range(W.ops[op].inputs)
OpOf(o)       == W.opouts[o].op
BOps(b)       == Range(W.bundles[b].ops)
BMap(b)       == W.bundles[b].map            \* input number -> operation
BMethod(b)    == W.bundles[b].m
BContract(b)  == W.bundles[b].contract
WInputs(w)    == W.witnesses[w].inputs       \* sequence of outpoints
WBundles(w)   == Range(W.witnesses[w].bundles)
WMethods(w)   == {BMethod(b) : b \in WBundles(w)}

OutsOfAll(S) == UNION {OutsOf(op) : op \in S}

NoWitness == "~"
\* Outpoint which an assignment is bound to once its operation is anchored by `w`.
OutpointAt(o, w) ==
  LET r == W.opouts[o] IN
  (IF r.tx = "@" THEN w ELSE r.tx) \o ":" \o ToString(r.vout)
\* Seal (closing method and outpoint).
SealAt(o, w) == W.opouts[o].m \o ":" \o OutpointAt(o, w)

(* Reveal levels of an assignment: C - fully confidential, S - only the      *)
(* state is known, V - only the seal is known, R - fully revealed.           *)
KnowsSeal(l)  == l \in {"V", "R"}
KnowsState(l) == l \in {"S", "R"}
Level(seal, state) ==
  IF seal THEN (IF state THEN "R" ELSE "V") ELSE (IF state THEN "S" ELSE "C")
Join(a, b) == Level(KnowsSeal(a) \/ KnowsSeal(b), KnowsState(a) \/ KnowsState(b))

JoinFn(f, g) ==
  [o \in DOMAIN f \cup DOMAIN g |->
     IF o \notin DOMAIN g THEN f[o]
     ELSE IF o \notin DOMAIN f THEN g[o]
     ELSE Join(f[o], g[o])]

(* Witness status: A - archived, T - tentative, Mn - mined at height n,      *)
(* N - not known to the resolver, E - the resolver fails.                    *)
Heights == [M1 |-> 1, M2 |-> 2, M3 |-> 3, M4 |-> 4, M5 |-> 5, M6 |-> 6, M7 |-> 7, M8 |-> 8]
IsMined(x)   == x \in DOMAIN Heights
Resolved(x)  == x \notin {"N", "E"}
OrdNum(x)    == IF x = "A" THEN 0 ELSE IF x = "T" THEN 1000 ELSE Heights[x]
IsLive(x)    == x # "A"

Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* Sorts a finite set by keys (sequences of naturals, compared lexicographically).
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF a = <<>> THEN b # <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
  ELSE LexLess(Tail(a), Tail(b))
RECURSIVE SortBy(_, _)
SortBy(S, key) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : ~ LexLess(key[y], key[x])
       IN <<m>> \o SortBy(S \ {m}, key)
\* Any enumeration of a finite set.
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
=============================================================================
