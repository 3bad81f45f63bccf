------------------------------- MODULE MCStock -------------------------------
(* Behaviours of a single stock over an alphabet of calls given with the     *)
(* world: the state graph is explored exhaustively to the depth given by     *)
(* DEPTH, and each generated step is printed for the replay into the code.   *)
EXTENDS Stock

VARIABLES st, chain, hist, last

vars == <<st, chain, hist, last>>

Cons    == [n \in DOMAIN W.cons |-> FromJson(W.cons[n])]
Fascias == [n \in DOMAIN W.fascias |-> FasciaFromJson(W.fascias[n])]
Depth   == atoi(IOEnv.DEPTH)
Emit    == IOEnv.EMIT = "1"

ChainMap(n) == W.chains[n]
FaultyChain(n, w) == [ChainMap(n) EXCEPT ![w] = "E"]

ConsObs(k) == [c |-> k.c, transfer |-> k.transfer, wbs |-> k.wbs, kn |-> k.kn, exts |-> k.exts,
               lev |-> k.lev, term |-> k.term]

------------------------------------------------------------------------------
Record(a, ret) == /\ hist' = Append(hist, a)
                  /\ last' = [a |-> a, r |-> ret]

SetChain(n) ==
  /\ n # chain
  /\ chain' = n
  /\ st' = st
  /\ Record("chain " \o n, EmptyFn)

AcceptStep(n) ==
  LET k == Cons[n]
      v == Valid(k, ChainMap(chain))
      r == IF v THEN Accept(st, k, ChainMap(chain)) ELSE [ok |-> FALSE, s |-> st]
  IN /\ st' = r.s
     /\ chain' = chain
     /\ Record("accept " \o n, [valid |-> v, ok |-> r.ok])

\* The resolver fails after the consignment was validated.
AcceptFault(n, w) ==
  LET k == Cons[n]
      v == Valid(k, ChainMap(chain))
      r == IF v THEN Accept(st, k, FaultyChain(chain, w)) ELSE [ok |-> FALSE, s |-> st]
  IN /\ w \in ConsWits(k)
     /\ st' = r.s
     /\ chain' = chain
     /\ Record("acceptf " \o n \o " " \o w, [valid |-> v, ok |-> r.ok])

FasciaStep(n) ==
  LET r == ConsumeFascia(st, Fascias[n], ChainMap(chain))
  IN /\ st' = r.s
     /\ chain' = chain
     /\ Record("fascia " \o n, [ok |-> r.ok])

SecretStep(sid) ==
  LET r == StoreSecret(st, sid)
  IN /\ st' = r.s
     /\ chain' = chain
     /\ Record("secret " \o sid, [ok |-> TRUE, new |-> r.ret])

RefreshStep(h) ==
  LET r == UpdateWitnesses(st, ChainMap(chain), h)
  IN /\ st' = r.s
     /\ chain' = chain
     /\ Record("refresh " \o ToString(h), [ok |-> TRUE, succeeded |-> r.ret.succeeded, failed |-> r.ret.failed])

ExportResult(s, n) ==
  LET q == W.exports[n]
      r == Consign(s, q.c, Range(q.outs), q.secret, q.transfer)
  IN IF ~ r.ok THEN [ok |-> FALSE]
     ELSE LET v == Valid(r.k, ChainMap(chain))
              f == Accept([EmptyStock EXCEPT !.sec = Range(q.receiver)], r.k, ChainMap(chain))
          IN IF ~ v THEN [ok |-> TRUE, k |-> ConsObs(r.k), valid |-> FALSE]
             ELSE [ok |-> TRUE, k |-> ConsObs(r.k), valid |-> TRUE, accepted |-> f.ok,
                   fresh |-> StockObs(f.s)]
ExportStep(n) ==
  /\ UNCHANGED <<st, chain>>
  /\ Record("export " \o n, ExportResult(st, n))

Init ==
  /\ st = EmptyStock
  /\ chain \in Range(W.inits)
  /\ hist = <<chain>>
  /\ last = EmptyFn

Next ==
  \/ \E n \in DOMAIN W.chains : SetChain(n)
  \/ \E n \in DOMAIN W.cons : AcceptStep(n)
  \/ \E p \in Range(W.faults) : AcceptFault(p[1], p[2])
  \/ \E n \in DOMAIN W.fascias : FasciaStep(n)
  \/ \E sid \in Range(W.secretActs) : SecretStep(sid)
  \/ \E h \in Range(W.afters) : RefreshStep(h)
  \/ \E n \in DOMAIN W.exports : ExportStep(n)

Spec == Init /\ [][Next]_vars

View == <<st, chain>>
Bounded == Len(hist) <= Depth + 1

EmitEdge ==
  /\ Len(hist') <= Depth + 1
  /\ IF Emit
     THEN PrintT(ToJson([i |-> hist[1], p |-> SubSeq(hist, 2, Len(hist)), a |-> last'.a,
                         r |-> last'.r, o |-> StockObs(st')]))
     ELSE TRUE

------------------------------------------------------------------------------
(* Properties of the specification                                           *)

SingleWit(s) == \A b \in DOMAIN s.bw : Cardinality(s.bw[b]) = 1
AllKnown(s) == \A b \in DOMAIN s.bun : Range(BMap(b)) \subseteq s.bun[b]

\* S01: state is visible only if it belongs to a live witness, and then it is all visible
VisibleOnlyLive ==
  \A c \in st.reg : \A e \in LiveEntries(st, c) :
     e.w = NoWitness \/ (e.w \in DOMAIN st.ords /\ st.ords[e.w] # "A")
\* Every fully revealed assignment of a known operation with a live witness is owned state, provided
\* it was revealed at the moment of acceptance.
OwnedSubset ==
  \A e \in st.own : st.lev[e.o] = "R"
\* S05: global state keeps within its limit, is complete below the limit, and consists of live values
LiveGlobals(c, t) ==
  {<<g.op, i>> : g \in {x \in st.glob : ContractOf(x.op) = c /\ LiveW(st, x.w)}, i \in 1..3}
GlobalsOrdered ==
  \A c \in st.reg : \A t \in GTypes :
    LET v == GlobalValues(st, c, t)
        live == {p \in LiveGlobals(c, t) : p[2] \in DOMAIN W.ops[p[1]].globals[t]}
        gen  == W.ops[Genesis(c)].globals[t]
    IN /\ Len(v) <= GLimit[t]
       /\ SingleWit(st) => Len(v) = Min(Cardinality(live), GLimit[t])
       /\ Range(v) \subseteq {W.ops[p[1]].globals[t][p[2]] : p \in live}
       /\ Cardinality(live) <= GLimit[t] => SubSeq(v, 1, Len(gen)) = gen
\* S06: everything owned can be found by its output
OwnedIndexed ==
  \A e \in st.own : Kind(OpOf(e.o)) = "transition" \/ Kind(OpOf(e.o)) = "genesis" =>
     \E x \in st.outs : x.o = e.o /\ x.s = SealAt(e.o, e.w)
\* every known assignment can be found either by its output or by its seal
EverythingIndexed ==
  \A o \in DOMAIN st.lev : (\E x \in st.outs : x.o = o) \/ (\E x \in st.terms : x.o = o)
\* Every known operation belongs to a known bundle, bundles have witnesses, witnesses have status
Referential ==
  /\ \A b \in DOMAIN st.bun : b \in DOMAIN st.bw /\ st.bw[b] # {}
                              /\ \A t \in st.bun[b] : t \in DOMAIN st.opb /\ st.opb[t] = b
  /\ \A b \in DOMAIN st.bw : \A w \in st.bw[b] : w \in DOMAIN st.ords /\ w \in DOMAIN st.wit
  /\ \A e \in st.own : e.w # NoWitness => e.w \in DOMAIN st.ords
  /\ st.gen = st.reg

\* S03: nothing known is ever forgotten
Grows(f, g) == \A x \in DOMAIN f : x \in DOMAIN g
Monotone ==
  [][/\ st.gen \subseteq st'.gen /\ st.ext \subseteq st'.ext /\ st.sec \subseteq st'.sec
     /\ st.reg \subseteq st'.reg /\ st.glob \subseteq st'.glob
     /\ st.outs \subseteq st'.outs /\ st.terms \subseteq st'.terms
     /\ \A b \in DOMAIN st.bun : b \in DOMAIN st'.bun /\ st.bun[b] \subseteq st'.bun[b]
     /\ \A o \in DOMAIN st.lev : o \in DOMAIN st'.lev /\ Join(st.lev[o], st'.lev[o]) = st'.lev[o]
     /\ \A w \in DOMAIN st.wit : w \in DOMAIN st'.wit /\ st.wit[w].b \subseteq st'.wit[w].b
                                 /\ (st.wit[w].tx => st'.wit[w].tx)
     /\ Grows(st.ords, st'.ords)
     /\ \A b \in DOMAIN st.bw : b \in DOMAIN st'.bw /\ st.bw[b] \subseteq st'.bw[b]
     /\ \A e \in st.own : \E x \in st'.own : SameKey(e, x)]_vars

\* S02: acceptance is idempotent and the order of acceptance doesn't matter when each bundle is
\* known under a single witness
Idempotent ==
  \A n \in DOMAIN Cons :
    LET ch == ChainMap(chain)
        r1 == Accept(st, Cons[n], ch)
    IN Valid(Cons[n], ch) /\ r1.ok => Accept(r1.s, Cons[n], ch).s = r1.s
Commute ==
  \A n, m \in DOMAIN Cons :
    LET ch == ChainMap(chain)
        a  == Accept(Accept(st, Cons[n], ch).s, Cons[m], ch)
        b  == Accept(Accept(st, Cons[m], ch).s, Cons[n], ch)
    IN Valid(Cons[n], ch) /\ Valid(Cons[m], ch) /\ a.ok /\ b.ok /\ SingleWit(a.s) => a.s = b.s

\* The client has got everything which is needed for a proof: fasciae, being client's own data, are
\* not validated.
Provable(s) ==
  /\ AllKnown(s)
  /\ \A o \in DOMAIN s.lev : W.opouts[o].ty = "R" \/ (W.opouts[o].ty # "X" /\ KnowsState(s.lev[o]))
  /\ \A b \in DOMAIN s.bun : \A t \in s.bun[b] : \A i \in InputsOf(t) :
       i \in DOMAIN s.lev /\ KnowsSeal(s.lev[i])
\* S07: what is exported is accepted by anyone seeing the same chain, and contains what was asked for
ExportComplete ==
  \A n \in DOMAIN W.exports :
    LET q  == W.exports[n]
        r  == Consign(st, q.c, Range(q.outs), q.secret, q.transfer)
        ch == [w \in Witnesses |-> IF w \in DOMAIN st.ords THEN st.ords[w] ELSE "N"]
        f  == Accept([EmptyStock EXCEPT !.sec = Range(q.receiver)], r.k, ch)
    IN r.ok /\ Provable(st) /\ SingleWit(st) =>
         /\ Valid(r.k, ch)
         /\ f.ok
         /\ \A x \in Range(q.outs) :
              OpoutsByOutpoint(st, q.c, x) \subseteq OpoutsByOutpoint(f.s, q.c, x)
         \* S08
         /\ \A b \in DOMAIN r.k.term : r.k.term[b] = q.secret
         \* S09: the receiver knowing the secret gets the state
         /\ q.secret # "" /\ q.secret \in Range(q.receiver) =>
              \A o \in Opouts : W.opouts[o].sid = q.secret /\ OpOf(o) \in {p[2] : p \in r.k.kn}
                                /\ KnowsState(r.k.lev[o])
                                /\ W.opouts[o].op \in DOMAIN f.s.opb
                                /\ f.s.opb[W.opouts[o].op] \in DOMAIN r.k.term
                   => \E e \in f.s.own : e.o = o


\* S10: a failing call changes nothing
FailNoChange == [][(("ok" \in DOMAIN last'.r) /\ ~ last'.r.ok) => st' = st]_vars
=============================================================================
