------------------------------- MODULE Persist -------------------------------
(* A stock attached to a storage.  The storage keeps three independent       *)
(* objects (stash, state, index), any of which may be unavailable for a      *)
(* while.                                                                    *)
(*                                                                           *)
(*  mode   "none"   - in memory only,                                        *)
(*         "auto"   - each completed operation is on the storage,            *)
(*         "manual" - the storage is written only when asked for             *)
(*  disk   object -> the stock at the moment the object was last written,    *)
(*         or Unknown, if it may be or may be not written by a failed call   *)
(*  tr     trust level of an identity, whether a kit was imported            *)
(*  down   objects which can't be written at the moment                      *)
EXTENDS Stock

VARIABLES st, tr, chain, mode, disk, down, hist, last

vars == <<st, tr, chain, mode, disk, down, hist, last>>

Cons    == [n \in DOMAIN W.cons |-> FromJson(W.cons[n])]
Fascias == [n \in DOMAIN W.fascias |-> FasciaFromJson(W.fascias[n])]
Depth   == atoi(IOEnv.DEPTH)
ChainMap(n) == W.chains[n]

Objects == {"stash", "state", "index"}
Unknown == [unknown |-> TRUE]
Absent  == [absent |-> TRUE]

Mem == [st |-> st, tr |-> tr]
\* Only the part of the snapshot which belongs to the object
Part(x, m) ==
  CASE x = "stash" -> [gen |-> m.st.gen, ext |-> m.st.ext, bun |-> m.st.bun, lev |-> m.st.lev,
                       wit |-> m.st.wit, sec |-> m.st.sec, tr |-> m.tr]
    [] x = "state" -> [reg |-> m.st.reg, own |-> m.st.own, glob |-> m.st.glob, ords |-> m.st.ords]
    [] x = "index" -> [opb |-> m.st.opb, bw |-> m.st.bw, outs |-> m.st.outs, terms |-> m.st.terms,
                       reg |-> m.st.reg]
Parts(m) == [x \in Objects |-> Part(x, m)]

Written(d) == \A x \in Objects : d[x] # Unknown /\ d[x] # Absent
\* What is loaded from the storage
Coherent(d) == d["state"].reg = d["index"].reg /\ d["stash"].gen = d["state"].reg
Loaded(d) ==
  [st |-> [gen |-> d["stash"].gen, ext |-> d["stash"].ext, bun |-> d["stash"].bun,
           lev |-> d["stash"].lev, wit |-> d["stash"].wit, sec |-> d["stash"].sec,
           reg |-> d["state"].reg, own |-> d["state"].own, glob |-> d["state"].glob,
           ords |-> d["state"].ords, opb |-> d["index"].opb, bw |-> d["index"].bw,
           outs |-> d["index"].outs, terms |-> d["index"].terms],
   tr |-> d["stash"].tr]

Record(a, ret) == /\ hist' = Append(hist, a)
                  /\ last' = [a |-> a, r |-> ret]

(* An operation of the stock: `m` is its effect in memory if it succeeds,    *)
(* `touched` are the objects it works with.                                  *)
Effect(a, ret, good, m, touched) ==
  LET fails == mode = "auto" /\ touched \cap down # {} IN
  IF ~ good \/ fails
  THEN /\ UNCHANGED <<st, tr, disk>>
       /\ Record(a, [ret EXCEPT !.ok = FALSE])
  ELSE /\ st' = m.st
       /\ tr' = m.tr
       /\ disk' = IF mode = "auto"
                  THEN [x \in Objects |-> IF x \in touched THEN Part(x, m) ELSE disk[x]]
                  ELSE disk
       /\ Record(a, ret)

AcceptStep(n) ==
  LET k == Cons[n]
      v == Valid(k, ChainMap(chain))
      r == Accept(st, k, ChainMap(chain))
  IN /\ UNCHANGED <<chain, mode, down>>
     /\ v
     /\ Effect("accept " \o n, [valid |-> v, ok |-> TRUE], r.ok, [st |-> r.s, tr |-> tr], Objects)
FasciaStep(n) ==
  LET r == ConsumeFascia(st, Fascias[n], ChainMap(chain))
  IN /\ UNCHANGED <<chain, mode, down>>
     /\ Effect("fascia " \o n, [ok |-> TRUE], r.ok, [st |-> r.s, tr |-> tr], Objects)
SecretStep(sid) ==
  LET r == StoreSecret(st, sid)
      fails == mode = "auto" /\ "stash" \in down
  IN /\ UNCHANGED <<chain, mode, down>>
     /\ Effect("secret " \o sid, IF fails THEN [ok |-> TRUE] ELSE [ok |-> TRUE, new |-> r.ret],
               TRUE, [st |-> r.s, tr |-> tr], {"stash"})
RefreshStep(h) ==
  LET r == UpdateWitnesses(st, ChainMap(chain), h)
      fails == mode = "auto" /\ "state" \in down
  IN /\ UNCHANGED <<chain, mode, down>>
     /\ Effect("refresh " \o ToString(h),
               IF fails THEN [ok |-> TRUE]
               ELSE [ok |-> TRUE, succeeded |-> r.ret.succeeded, failed |-> r.ret.failed],
               TRUE, [st |-> r.s, tr |-> tr], {"state"})
\* Trust level of an identity
TrustStep(l) ==
  /\ down = {}
  /\ UNCHANGED <<chain, mode, down>>
  /\ Effect("trust " \o l, [ok |-> TRUE], TRUE, [st |-> st, tr |-> [tr EXCEPT !.l = l]], {"stash"})
\* A kit with an interface of its own
KitStep ==
  /\ UNCHANGED <<chain, mode, down>>
  /\ Effect("kit", [ok |-> TRUE], TRUE, [st |-> st, tr |-> [tr EXCEPT !.k = TRUE]], {"stash"})
SetChain(n) ==
  /\ n # chain
  /\ chain' = n
  /\ UNCHANGED <<st, tr, mode, disk, down>>
  /\ Record("chain " \o n, EmptyFn)

\* Attaching a storage writes everything into it.
Attach(m) ==
  /\ mode # m
  /\ mode' = m
  /\ down = {}
  /\ disk' = Parts(Mem)
  /\ UNCHANGED <<st, tr, chain, down>>
  /\ Record("attach " \o m, [ok |-> TRUE])

\* Explicit saving: an object which can't be written is reported, the others may be or may be not
\* written.
Dirty == {x \in Objects : disk[x] # Part(x, Mem)}
Store ==
  LET bad == Dirty \cap down IN
  /\ mode # "none"
  /\ down = {} \/ bad # {}
  /\ disk' = IF bad = {} THEN Parts(Mem)
             ELSE [x \in Objects |-> IF x \in Dirty \ down THEN Unknown ELSE disk[x]]
  /\ UNCHANGED <<st, tr, chain, mode, down>>
  /\ Record("store", [ok |-> bad = {}])

\* The stock is dropped and loaded from the storage
Load(m) ==
  /\ Written(disk) /\ Coherent(disk)
  /\ st' = Loaded(disk).st
  /\ tr' = Loaded(disk).tr
  /\ mode' = m
  /\ UNCHANGED <<chain, disk, down>>
  /\ Record("load " \o m, [ok |-> TRUE])

SetDown(D) ==
  /\ mode # "none"
  /\ down # D
  /\ down = {} \/ D = {}
  /\ down' = D
  /\ UNCHANGED <<st, tr, chain, mode, disk>>
  /\ Record("down" \o (IF "stash" \in D THEN " stash" ELSE "") \o (IF "state" \in D THEN " state" ELSE "")
                   \o (IF "index" \in D THEN " index" ELSE ""), EmptyFn)

\* The storage breaks down after `n` writes of an operation and is repaired after it: the operation
\* either completes or fails, and then some of the objects may be written and some not.
CutOp(n, a, good, s, touched) ==
  /\ UNCHANGED <<tr, chain, mode, down>>
  /\ LET l == "cut " \o ToString(n) \o " " \o a IN
     \/ /\ good
        /\ st' = s
        /\ disk' = [x \in Objects |-> IF x \in touched THEN Part(x, [st |-> s, tr |-> tr]) ELSE disk[x]]
        /\ Record(l \o " =ok", [ok |-> TRUE])
     \/ /\ st' = st
        /\ disk' = [x \in Objects |-> IF x \in touched THEN Unknown ELSE disk[x]]
        /\ Record(l \o " =fail", [ok |-> FALSE])
CutStep(n) ==
  /\ mode = "auto" /\ down = {}
  /\ \/ \E k \in DOMAIN Cons :
          /\ Valid(Cons[k], ChainMap(chain))
          /\ LET r == Accept(st, Cons[k], ChainMap(chain)) IN CutOp(n, "accept " \o k, r.ok, r.s, Objects)
     \/ \E f \in DOMAIN Fascias :
          LET r == ConsumeFascia(st, Fascias[f], ChainMap(chain)) IN CutOp(n, "fascia " \o f, r.ok, r.s, Objects)
     \/ \E sid \in Range(W.secretActs) : CutOp(n, "secret " \o sid, TRUE, StoreSecret(st, sid).s, {"stash"})
     \/ \E h \in Range(W.afters) :
          CutOp(n, "refresh " \o ToString(h), TRUE, UpdateWitnesses(st, ChainMap(chain), h).s, {"state"})

Init ==
  /\ st = EmptyStock /\ tr = [l |-> "", k |-> FALSE] /\ mode = "none" /\ down = {}
  /\ disk = [x \in Objects |-> Absent]
  /\ chain \in Range(W.inits)
  /\ hist = <<chain>>
  /\ last = EmptyFn

Next ==
  \/ \E n \in DOMAIN W.chains : SetChain(n)
  \/ \E n \in DOMAIN W.cons : AcceptStep(n)
  \/ \E n \in DOMAIN W.fascias : FasciaStep(n)
  \/ \E sid \in Range(W.secretActs) : SecretStep(sid)
  \/ \E h \in Range(W.afters) : RefreshStep(h)
  \/ \E l \in {"malicious", "ultimate"} : TrustStep(l)
  \/ KitStep
  \/ \E m \in {"auto", "manual"} : Attach(m) \/ Load(m)
  \/ Store
  \/ \E n \in Range(W.cuts) : CutStep(n)
  \/ \E D \in {{}, {"stash"}, {"state"}, {"index"}, Objects} : SetDown(D)

Spec == Init /\ [][Next]_vars
View == <<st, tr, chain, mode, disk, down>>
Bounded == Len(hist) <= Depth + 1

------------------------------------------------------------------------------
Full(m) == [st |-> StockObs(m.st), tr |-> m.tr]
\* What is on the storage, if it is determined
OnDisk(d) == IF Written(d) /\ Coherent(d) THEN [known |-> TRUE, v |-> Full(Loaded(d))] ELSE [known |-> FALSE]

EmitEdge ==
  /\ Len(hist') <= Depth + 1
  /\ PrintT(ToJson([i |-> hist[1], p |-> SubSeq(hist, 2, Len(hist)), a |-> last'.a, r |-> last'.r,
                    o |-> [mem |-> Full([st |-> st', tr |-> tr']), disk |-> OnDisk(disk')]]))

------------------------------------------------------------------------------
(* Properties of the specification                                           *)
\* S11: with automatic saving the storage always holds the current stock
AutoCurrent == mode = "auto" => (Written(disk) => Loaded(disk) = Mem)
\* S12: a failed operation loses nothing
Keeps == [][("ok" \in DOMAIN last'.r /\ ~ last'.r.ok) => st' = st /\ tr' = tr]_vars
\* S12: ... and saving completes once the storage is available
Recoverable == [][(last'.a = "store" /\ down = {}) => Loaded(disk') = [st |-> st', tr |-> tr']]_vars
=============================================================================
