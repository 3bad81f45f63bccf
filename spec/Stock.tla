-------------------------------- MODULE Stock --------------------------------
(* The stock of a client: everything it knows about contracts.               *)
(*                                                                           *)
(*  stash  gen, ext, bun, lev, wit, sec                                      *)
(*  state  reg, own, glob, ords                                              *)
(*  index  opb, bw, outs, terms                                              *)
(*                                                                           *)
(* All operations are pure: they take a stock and return a record            *)
(* [ok, s, ret]; a failing operation returns the stock it was given.         *)
EXTENDS World

EmptyStock ==
  [gen   |-> {},        \* contracts with a known genesis
   ext   |-> {},        \* known state extensions
   bun   |-> EmptyFn,   \* bundle -> known transitions
   lev   |-> EmptyFn,   \* assignment (opout) -> reveal level
   wit   |-> EmptyFn,   \* witness -> [b: anchored bundles known, tx: full tx known]
   sec   |-> {},        \* secret seals of the client
   reg   |-> {},        \* contracts having a state and an index
   own   |-> {},        \* owned state entries [o, w]
   glob  |-> {},        \* operations contributing to global state, [op, w]
   ords  |-> EmptyFn,   \* witness -> last status learned
   opb   |-> EmptyFn,   \* operation -> bundle
   bw    |-> EmptyFn,   \* bundle -> witnesses
   outs  |-> {},        \* [c, s, o]: output seal index
   terms |-> {}]        \* [sid, o]: secret seal index

------------------------------------------------------------------------------
(* Consignments.  A consignment is described by                              *)
(*   c, wbs: set of [w, tx, bs], kn: set of <<bundle, operation>>,           *)
(*   exts, lev: levels of all the assignments it contains, term: bundle->seal*)

AllOpsOf(c, kn, exts) == {Genesis(c)} \cup {p[2] : p \in kn} \cup exts

FromJson(j) ==
  LET bvs  == UNION {{wb.bundles[i] : i \in DOMAIN wb.bundles} : wb \in Range(j.wbs)}
      kn   == UNION {{<<bv.b, op>> : op \in Range(bv.ops)} : bv \in bvs}
      exts == Range(j.exts)
  IN [c    |-> j.contract,
      transfer |-> j.transfer,
      wbs  |-> {[w |-> wb.w, tx |-> wb.tx, bs |-> {bv.b : bv \in Range(wb.bundles)}]
                  : wb \in Range(j.wbs)},
      kn   |-> kn,
      exts |-> exts,
      lev  |-> [o \in OutsOfAll(AllOpsOf(j.contract, kn, exts)) |->
                  IF o \in DOMAIN j.levels THEN j.levels[o] ELSE "R"],
      term |-> j.terminals]

ConsOps(k)      == AllOpsOf(k.c, k.kn, k.exts)
ConsWits(k)     == {wb.w : wb \in k.wbs}
ConsBundles(k)  == UNION {wb.bs : wb \in k.wbs}
KnownIn(k, b)   == {p[2] : p \in {q \in k.kn : q[1] = b}}
\* Witness of a bundle, operation in a consignment
WitsOfBundle(k, b) == {wb.w : wb \in {x \in k.wbs : b \in x.bs}}
WitOfOp(k, op) ==
  IF Kind(op) # "transition" THEN NoWitness
  ELSE CHOOSE w \in UNION {WitsOfBundle(k, p[1]) : p \in {q \in k.kn : q[2] = op}} : TRUE

(* The rules a consignment has to satisfy to be accepted.                    *)
ValidInput(k, op, b, w, i) ==
  LET prev == OpOf(i) IN
  /\ prev \in ConsOps(k)
  /\ KnowsSeal(k.lev[i])
  /\ W.opouts[i].m = BMethod(b)
  /\ OutpointAt(i, WitOfOp(k, prev)) \in Range(WInputs(w))
ValidBundle(k, b, w) ==
  /\ b \in WBundles(w)                         \* committed by the witness
  /\ BContract(b) = k.c
  /\ Range(BMap(b)) \subseteq KnownIn(k, b)    \* all the committed transitions are present
  /\ \A op \in KnownIn(k, b) : \A i \in InputsOf(op) : ValidInput(k, op, b, w, i)
  /\ \A v \in DOMAIN BMap(b) :
       \E i \in InputsOf(BMap(b)[v]) :
         OutpointAt(i, WitOfOp(k, OpOf(i))) = W.inputAt[w][v]
UsedExts(k) == {e \in k.exts : \E p \in k.kn : \E i \in InputsOf(p[2]) : OpOf(i) = e}
Valid(k, chain) ==
  /\ \A w \in ConsWits(k) : Resolved(chain[w])
  /\ \A wb \in k.wbs : \A b \in wb.bs : ValidBundle(k, b, wb.w)
  /\ \A b \in ConsBundles(k) : Cardinality(WitsOfBundle(k, b)) = 1
  /\ \A p, q \in k.kn : p[2] = q[2] => p[1] = q[1]
  \* concealed state can't be validated (no range proofs for amounts, no validation of data), and
  \* attachments are not supported by the validator
  /\ \A o \in OutsOfAll({Genesis(k.c)} \cup {p[2] : p \in k.kn} \cup UsedExts(k)) :
       W.opouts[o].ty = "R" \/ (W.opouts[o].ty # "X" /\ KnowsState(k.lev[o]))
  /\ \A e \in UsedExts(k) :
       /\ W.ops[e].redeems \in ConsOps(k)
       /\ W.ops[W.ops[e].redeems].valency

------------------------------------------------------------------------------
(* Knowledge updates                                                         *)

\* Own secret seals reveal the assignments they were put into.
ResolveSecrets(s, k) ==
  [k EXCEPT !.lev =
     [o \in DOMAIN k.lev |->
        IF \E b \in DOMAIN k.term :
             /\ k.term[b] \in s.sec
             /\ W.opouts[o].sid = k.term[b]
             /\ <<b, OpOf(o)>> \in k.kn
        THEN Join(k.lev[o], "V")
        ELSE k.lev[o]]]

\* Operation `op` with reveal levels `lev`, witnessed by `w` with the status `ord`, enters the state.
EntriesOf(ops, lev, wof(_)) ==
  {[o |-> o, w |-> wof(OpOf(o))] : o \in {x \in OutsOfAll(ops) : lev[x] = "R"}}
SameKey(a, b) == a.o = b.o /\ SealAt(a.o, a.w) = SealAt(b.o, b.w)
AddOwned(own, new, ords) ==
  {e \in own : ~ \E n \in new : SameKey(e, n) /\ n.w # NoWitness /\ IsLive(ords[n.w])}
    \cup {n \in new : ~ \E e \in own : SameKey(e, n) /\ n.w # NoWitness /\ ~ IsLive(ords[n.w])}

HasGlobals(op) == \E t \in GTypes : W.ops[op].globals[t] # <<>>

AddIndex(c, outs, lev, ops, wof(_)) ==
  outs \cup {[c |-> c, s |-> SealAt(o, wof(OpOf(o))), o |-> o]
               : o \in {x \in OutsOfAll(ops) : KnowsSeal(lev[x])}}
AddTerms(terms, lev, ops) ==
  terms \cup {[sid |-> W.opouts[o].sid, o |-> o]
               : o \in {x \in OutsOfAll(ops) : ~ KnowsSeal(lev[x])}}

MergeBundles(bun, kn, bs) ==
  [b \in DOMAIN bun \cup bs |->
     (IF b \in DOMAIN bun THEN bun[b] ELSE {}) \cup {p[2] : p \in {q \in kn : q[1] = b}}]
MergeWit(wit, w, bs, tx) ==
  LET old == IF w \in DOMAIN wit THEN wit[w] ELSE [b |-> {}, tx |-> FALSE]
  IN [x \in DOMAIN wit \cup {w} |->
        IF x = w THEN [b |-> old.b \cup bs, tx |-> old.tx \/ tx] ELSE wit[x]]
RECURSIVE MergeWits(_, _)
MergeWits(wit, wbs) ==
  IF wbs = {} THEN wit
  ELSE LET wb == CHOOSE x \in wbs : TRUE
       IN MergeWits(MergeWit(wit, wb.w, wb.bs, wb.tx), wbs \ {wb})

OpBundleConflict(s, kn) == \E p \in kn : p[2] \in DOMAIN s.opb /\ s.opb[p[2]] # p[1]

RegisterOps(opb, kn) ==
  [op \in DOMAIN opb \cup {p[2] : p \in kn} |->
     IF op \in DOMAIN opb THEN opb[op] ELSE (CHOOSE p \in kn : p[2] = op)[1]]
RegisterBw(bw, pairs) ==  \* pairs <<b, w>>
  [b \in DOMAIN bw \cup {p[1] : p \in pairs} |->
     (IF b \in DOMAIN bw THEN bw[b] ELSE {}) \cup {p[2] : p \in {q \in pairs : q[1] = b}}]

\* Acceptance of a valid consignment (import of a contract, acceptance of a transfer).
Accept(s, k0, chain) ==
  LET k     == ResolveSecrets(s, k0)
      trs   == {p[2] : p \in k.kn}
      uext  == UsedExts(k)
      \* an extension is witnessed by the transition closing its seals
      wof   == [op \in ConsOps(k) |->
                  IF Kind(op) = "transition" THEN WitOfOp(k, op)
                  ELSE IF op \in uext
                       THEN WitOfOp(k, CHOOSE t \in trs : \E i \in InputsOf(t) : OpOf(i) = op)
                       ELSE NoWitness]
      WOf(op)  == wof[op]
      IdxW(op) == IF Kind(op) = "transition" THEN wof[op] ELSE NoWitness
      ords  == [w \in ConsWits(k) |-> chain[w]] @@ s.ords
      stops == {Genesis(k.c)} \cup trs \cup uext
      pairs == UNION {{<<b, wb.w>> : b \in wb.bs} : wb \in k.wbs}
  IN IF \E w \in ConsWits(k) : ~ Resolved(chain[w])
     THEN [ok |-> FALSE, s |-> s]
     ELSE IF OpBundleConflict(s, k.kn)
     THEN [ok |-> FALSE, s |-> s]
     ELSE [ok |-> TRUE, s |->
       [s EXCEPT
          !.gen   = @ \cup {k.c},
          !.ext   = @ \cup k.exts,
          !.bun   = MergeBundles(@, k.kn, ConsBundles(k)),
          !.lev   = JoinFn(@, k.lev),
          !.wit   = MergeWits(@, k.wbs),
          !.reg   = @ \cup {k.c},
          !.own   = AddOwned(@, EntriesOf(stops, k.lev, WOf), ords),
          !.glob  = @ \cup {[op |-> op, w |-> wof[op]] : op \in {x \in stops : HasGlobals(x)}},
          !.ords  = ords,
          !.opb   = RegisterOps(@, k.kn),
          !.bw    = RegisterBw(@, pairs),
          !.outs  = AddIndex(k.c, @, k.lev, ConsOps(k), IdxW),
          !.terms = AddTerms(@, k.lev, ConsOps(k))]]

\* Consumption of a fascia (client's own operations before the witness gets mined).
\*   f: [w, kn, lev]
FasciaFromJson(j) ==
  LET kn == UNION {{<<bv.b, op>> : op \in Range(bv.ops)} : bv \in Range(j.bundles)}
  IN [w |-> j.w, kn |-> kn,
      lev |-> [o \in OutsOfAll({p[2] : p \in kn}) |->
                 IF o \in DOMAIN j.levels THEN j.levels[o] ELSE "R"]]
ConsumeFascia(s, f, chain) ==
  LET trs == {p[2] : p \in f.kn}
      bs  == {p[1] : p \in f.kn}
      cs  == {BContract(b) : b \in bs}
      WOf(op) == f.w
      ords == [w \in {f.w} |-> chain[w]] @@ s.ords
  IN IF \/ ~ (cs \subseteq s.reg)
        \/ ~ Resolved(chain[f.w])
        \/ OpBundleConflict(s, f.kn)
        \/ \E p \in f.kn : p[2] \notin Range(BMap(p[1]))
     THEN [ok |-> FALSE, s |-> s]
     ELSE [ok |-> TRUE, s |->
       [s EXCEPT
          !.bun   = MergeBundles(@, f.kn, bs),
          !.lev   = JoinFn(@, f.lev),
          !.wit   = MergeWit(@, f.w, WBundles(f.w), TRUE),
          !.own   = AddOwned(@, EntriesOf(trs, f.lev, WOf), ords),
          !.glob  = @ \cup {[op |-> op, w |-> f.w] : op \in {x \in trs : HasGlobals(x)}},
          !.ords  = ords,
          !.opb   = RegisterOps(@, f.kn),
          !.bw    = RegisterBw(@, {<<b, f.w>> : b \in bs}),
          !.outs  = @ \cup {[c |-> ContractOf(OpOf(o)), s |-> SealAt(o, f.w), o |-> o]
                              : o \in {x \in OutsOfAll(trs) : KnowsSeal(f.lev[x])}},
          !.terms = AddTerms(@, f.lev, trs)]]

StoreSecret(s, sid) ==
  [ok |-> TRUE, s |-> [s EXCEPT !.sec = @ \cup {sid}], ret |-> sid \notin s.sec]

\* Witness status refresh from the resolver; returns what has changed and failed.
UpdateWitnesses(s, chain, after) ==
  LET h == Max(after, 1)
      Visited == {w \in DOMAIN s.ords : ~ (IsMined(s.ords[w]) /\ Heights[s.ords[w]] < h)}
      failed  == {w \in Visited : ~ Resolved(chain[w])}
      good    == Visited \ failed
  IN [ok |-> TRUE,
      s  |-> [s EXCEPT !.ords = [w \in DOMAIN s.ords |-> IF w \in good THEN chain[w] ELSE s.ords[w]]],
      ret |-> [succeeded |-> Cardinality(good), failed |-> failed]]

------------------------------------------------------------------------------
(* Reads                                                                     *)

LiveW(s, w) == w = NoWitness \/ (w \in DOMAIN s.ords /\ IsLive(s.ords[w]))
LiveEntries(s, c) == {e \in s.own : ContractOf(OpOf(e.o)) = c /\ LiveW(s, e.w)}

\* Witnesses referenced by the state of a contract
ContractWits(s, c) ==
  ({e.w : e \in {x \in s.own : ContractOf(OpOf(x.o)) = c}}
    \cup {g.w : g \in {x \in s.glob : ContractOf(x.op) = c}}) \ {NoWitness}

\* Consensus order of global state: genesis, extensions, transitions; inside a class by the witness
\* status, type, nonce and operation id.
KindNum(op) == CASE Kind(op) = "genesis" -> 0 [] Kind(op) = "extension" -> 1 [] OTHER -> 2
GKey(s, g) ==
  IF Kind(g.op) = "genesis" THEN <<0>>
  ELSE <<KindNum(g.op), OrdNum(s.ords[g.w]), W.ops[g.op].tt, W.ops[g.op].nonceRank, W.rank.op[g.op]>>
RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq(Tail(ss))
GlobalValues(s, c, t) ==
  LET live == {g \in s.glob : ContractOf(g.op) = c /\ LiveW(s, g.w) /\ W.ops[g.op].globals[t] # <<>>}
      \* one operation may be known under several live witnesses of an equal status
      uniq == {g \in live : ~ \E h \in live : h # g /\ GKey(s, h) = GKey(s, g)
                                              /\ W.rank.tx[h.w] < W.rank.tx[g.w]}
      srt  == SortBy(uniq, [g \in uniq |-> GKey(s, g)])
      all  == FlattenSeq([i \in DOMAIN srt |-> W.ops[srt[i].op].globals[t]])
      n    == Len(all)
      lim  == GLimit[t]
  IN IF n > lim THEN SubSeq(all, n - lim + 1, n) ELSE all

OpoutsByOutpoint(s, c, out) ==
  {x.o : x \in {y \in s.outs : y.c = c /\ \E m \in {"T", "O"} : y.s = m \o ":" \o out}}

------------------------------------------------------------------------------
(* Export                                                                    *)

Fail(e) == [ok |-> FALSE, err |-> e]

BundleTrs(s, b) == IF b \in DOMAIN s.bun THEN s.bun[b] ELSE {}
\* Closure of a set of bundles under the ancestry of all their known transitions.
RECURSIVE BundleClosure(_, _)
BundleClosure(s, bs) ==
  LET prevs == UNION {UNION {{OpOf(i) : i \in InputsOf(t)} : t \in BundleTrs(s, b)} : b \in bs}
      next  == {s.opb[p] : p \in {q \in prevs : q \in DOMAIN s.opb}} \cup bs
  IN IF next = bs THEN bs ELSE BundleClosure(s, next)

FirstLive(s, b) ==
  LET ws == {w \in s.bw[b] : IsLive(s.ords[w])}
  IN CHOOSE w \in ws : \A v \in ws : W.rank.tx[w] <= W.rank.tx[v]

Consign(s, c, outs, sid, transfer) ==
  IF c \notin s.reg THEN Fail("contract")
  ELSE IF \E o \in outs : OpoutsByOutpoint(s, c, o) = {} THEN Fail("outpoint")
  ELSE
  LET opouts == UNION {OpoutsByOutpoint(s, c, o) : o \in outs}
                  \cup {x.o : x \in {y \in s.terms : y.sid = sid /\ ContractOf(OpOf(y.o)) = c}}
      req    == {OpOf(o) : o \in opouts} \ {Genesis(c)}
  IN IF \E op \in req : op \notin DOMAIN s.opb \/ op \notin BundleTrs(s, s.opb[op])
     THEN Fail("operation")
     ELSE
     LET bs    == BundleClosure(s, {s.opb[op] : op \in req})
         kn    == UNION {{<<b, t>> : t \in BundleTrs(s, b)} : b \in bs}
         prevs == UNION {{OpOf(i) : i \in InputsOf(p[2])} : p \in kn}
     IN IF \E p \in prevs : Kind(p) # "genesis" /\ (p \notin DOMAIN s.opb \/ p \notin BundleTrs(s, s.opb[p]))
        THEN Fail("operation")
        ELSE IF \E b \in bs : \A w \in s.bw[b] : ~ IsLive(s.ords[w])
        THEN Fail("witness")
        ELSE
        LET ws   == {FirstLive(s, b) : b \in bs}
            ops  == {Genesis(c)} \cup {p[2] : p \in kn}
            tb   == {s.opb[op] : op \in {x \in req : \E o \in OutsOf(x) : W.opouts[o].sid = sid}}
        IN [ok |-> TRUE,
            k  |-> [c |-> c, transfer |-> transfer,
                    wbs |-> {[w |-> w, tx |-> s.wit[w].tx,
                              bs |-> {b \in bs : FirstLive(s, b) = w}] : w \in ws},
                    kn |-> kn, exts |-> {},
                    lev |-> [o \in OutsOfAll(ops) |-> s.lev[o]],
                    term |-> [b \in tb |-> sid]]]

------------------------------------------------------------------------------
(* What can be observed of a stock through its reading interface.            *)
StockObs(s) ==
  [gen |-> s.gen, ext |-> s.ext, bun |-> s.bun, lev |-> s.lev, wit |-> s.wit, sec |-> s.sec,
   opb |-> s.opb,
   bw  |-> [b \in DOMAIN s.bw |-> [c |-> BContract(b), w |-> s.bw[b]]],
   reg |-> s.reg,
   outs |-> [c \in s.reg |->
              [x \in {y \in Outpoints : OpoutsByOutpoint(s, c, y) # {}} |-> OpoutsByOutpoint(s, c, x)]],
   terms |-> [sid \in {t.sid : t \in s.terms} |-> {t.o : t \in {u \in s.terms : u.sid = sid}}],
   assigning |-> [x \in {y \in Outpoints : \E c \in s.reg : OpoutsByOutpoint(s, c, y) # {}} |->
                    {c \in s.reg : OpoutsByOutpoint(s, c, x) # {}}],
   assigningAll |-> {c \in s.reg : \E x \in Outpoints : OpoutsByOutpoint(s, c, x) # {}},
   valid |-> [w \in DOMAIN s.ords |-> IsLive(s.ords[w])],
   c |-> [c \in s.reg |->
     LET live == LiveEntries(s, c) IN
     [own  |-> {[o |-> e.o, s |-> SealAt(e.o, e.w), w |-> e.w, v |-> W.opouts[e.o].val] : e \in live},
      ords |-> [w \in ContractWits(s, c) |-> s.ords[w]],
      g    |-> [G1_seq |-> GlobalValues(s, c, "G1"), G1_n |-> Len(GlobalValues(s, c, "G1")),
                G3_seq |-> GlobalValues(s, c, "G3"), G3_n |-> Len(GlobalValues(s, c, "G3")),
                GN_seq |-> GlobalValues(s, c, "GN"), GN_n |-> Len(GlobalValues(s, c, "GN"))],
      out  |-> [x \in {OutpointAt(e.o, e.w) : e \in live} |->
                  LET es == SetToSeq({e \in live : OutpointAt(e.o, e.w) = x})
                  IN [i \in DOMAIN es |-> W.opouts[es[i].o].ty \o "=" \o W.opouts[es[i].o].val]]]]]
=============================================================================
