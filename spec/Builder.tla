------------------------------ MODULE Builder ------------------------------
(* Builders of contracts and transitions: a program of calls, what each of   *)
(* them returns, and what the completed contract or transition contains.     *)
(*   B01  issued contracts contain what was put into them                    *)
(*   B02  and so do transitions                                              *)
(*   B03  what is unknown, mistyped or of a wrong kind is refused            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES b, prog, runs

Suite == IOEnv.SUITE
Big   == IOEnv.TIER = "thorough"

RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})
Opt(s, c) == IF c THEN s ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}
Count(q, P(_)) == Cardinality({i \in DOMAIN q : P(q[i])})

------------------------------------------------------------------------------
(* The schema: names of the interface, types they stand for and their kinds  *)
Type(n) == CASE n = "aa" -> "A" [] n = "ff" -> "F" [] n = "dd" -> "D" [] n = "rr" -> "R" [] n = "xx" -> "X" [] OTHER -> "none"
Kind(t) == CASE t \in {"A", "F"} -> "fungible" [] t = "D" -> "data" [] t = "R" -> "rights" [] t = "X" -> "attach" [] OTHER -> "none"
Metas == {"mone", "mtwo"}
Globals == {"gone", "gmany"}
Well(v) == v \in {"1", "2"}

\* a call; form of calls for owned state: by its own function ("fn"), by name with any state ("own"), by type ("raw", "rawany")
Call(c, k, n, seal, v) == [c |-> c, k |-> k, n |-> n, seal |-> seal, v |-> v]
Nothing == [meta |-> {}, globals |-> <<>>, st |-> <<>>, tags |-> {}, liquid |-> FALSE, main |-> FALSE, nonce |-> "max", ins |-> {}]

Contract == b.kind = "contract"
Default == IF b.kind \in {"move", "default"} THEN "F" ELSE "none"
Tagged(a, t) == \E g \in a.tags : g[1] = t

\* what a call does with what is accumulated: pairs of return and accumulated
No(a) == {<<"refused", a>>}
Yes(a) == {<<"ok", a>>}
Assign(a, t, x) ==
  LET a2 == [a EXCEPT !.st = Append(@, <<x.k, t, x.seal, x.v>>),
                      !.tags = IF x.k = "fungible" /\ Contract /\ ~Tagged(a, t) THEN @ \cup {<<t, "auto">>} ELSE @] IN
  IF \E i \in DOMAIN a.st : a.st[i][2] = t /\ a.st[i][3] = x.seal THEN Yes(a2) \cup No(a) ELSE Yes(a2)
State(a, x, t) ==
  IF Kind(t) # x.k \/ ~Well(x.v) THEN No(a)
  ELSE IF Contract /\ x.seal \in {"l1", "k1"} /\ ~a.liquid THEN No(a)
  ELSE IF x.k = "fungible" /\ ~Tagged(a, t) /\ ~(Contract /\ x.c = "fn") THEN No(a)
  ELSE Assign(a, t, x)
Step(a, x) ==
  CASE x.c = "meta" ->
         IF x.n \in Metas /\ Well(x.v) /\ ~\E m \in a.meta : m[1] = x.n THEN Yes([a EXCEPT !.meta = @ \cup {<<x.n, x.v>>}]) ELSE No(a)
    [] x.c = "global" -> IF x.n \in Globals /\ Well(x.v) THEN Yes([a EXCEPT !.globals = Append(@, <<x.n, x.v>>)]) ELSE No(a)
    [] x.c \in {"fn", "own"} -> State(a, x, Type(x.n))
    [] x.c \in {"raw", "rawany"} -> State(a, x, x.n)
    [] x.c = "default" -> State(a, x, Default)
    [] x.c = "tag" ->
         IF Kind(Type(x.n)) # "fungible" \/ \E i \in DOMAIN a.st : a.st[i][2] = Type(x.n) THEN No(a)
         ELSE Yes([a EXCEPT !.tags = @ \cup {<<Type(x.n), "given">>}])
    [] x.c = "liquid" -> Yes([a EXCEPT !.liquid = TRUE])
    [] x.c = "mainnet" -> Yes([a EXCEPT !.main = TRUE])
    [] x.c = "nonce" -> Yes([a EXCEPT !.nonce = x.v])
    [] x.c = "input" -> IF Kind(x.n) # x.k THEN No(a) ELSE Yes([a EXCEPT !.ins = @ \cup {<<x.n, x.v>>}])

\* contracts are issued if they satisfy the schema
Issued(a) ==
  /\ {m[1] : m \in a.meta} = {"mone"}
  /\ Count(a.globals, LAMBDA g : g[1] = "gone") = 1
  /\ Count(a.st, LAMBDA s : s[2] = "A") <= 1
  /\ Count(a.st, LAMBDA s : s[2] = "X") = 0
  /\ \A t \in {"A", "F"} : Tagged(a, t)
Complete(a) == IF b.kind = "bogus" \/ (Contract /\ ~Issued(a)) THEN "refused" ELSE "ok"

------------------------------------------------------------------------------
(* Programs                                                                  *)
Fn(k, ns, seals, vs) == {Call("fn", k, n, s, v) : n \in ns, s \in seals, v \in vs}
Seals == IF Contract THEN {"s1", "s2", "c1", "l1"} ELSE {"s1", "s2", "c1"}
Data ==
  {Call("meta", "", n, "", "1") : n \in {"mone", "mtwo", "zz", "gone"}} \cup {Call("meta", "", "mone", "", v) : v \in {"2", "short", "long"}}
    \cup {Call("global", "", n, "", "1") : n \in {"gone", "gmany", "zz", "mone"}} \cup {Call("global", "", "gmany", "", v) : v \in {"2", "short", "long"}}
OwnedFn ==
  Fn("fungible", {"ff"}, Seals, {"1"}) \cup Fn("fungible", {"aa"}, {"s1", "s2"}, {"1"}) \cup Fn("fungible", {"ff"}, {"s1"}, {"2"})
    \cup Fn("fungible", {"zz", "dd", "rr", "xx"}, {"s1"}, {"1"})
    \cup Fn("data", {"dd"}, Seals, {"1"}) \cup Fn("data", {"dd"}, {"s1"}, {"2", "short", "long"}) \cup Fn("data", {"zz", "ff", "rr", "xx"}, {"s1"}, {"1"})
    \cup Fn("rights", {"rr"}, Seals \cup Opt({"k1"}, Contract), {"1"}) \cup Fn("rights", {"zz", "ff", "dd", "xx"}, {"s1"}, {"1"})
    \cup Fn("attach", {"xx"}, {"s1", "c1"} \cup Opt({"l1"}, Contract), {"1"}) \cup Fn("attach", {"xx"}, {"s1"}, {"2"}) \cup Fn("attach", {"zz", "ff", "dd", "rr"}, {"s1"}, {"1"})
Kinds == {"fungible", "data", "rights", "attach"}
As(c, ns, seals) == {Call(c, k, n, s, "1") : k \in Kinds, n \in ns, s \in seals}
Own == As("own", {"ff", "dd", "rr", "xx", "zz"}, {"s1"}) \cup {Call("own", "fungible", "ff", s, "1") : s \in {"s2", "c1"}}
         \cup {Call("own", "fungible", "aa", "s1", "1"), Call("own", "data", "dd", "s2", "2"), Call("own", "data", "dd", "s1", "long"),
               Call("own", "fungible", "ff", "s1", "badtag")}
         \cup Opt({Call("own", "rights", "rr", s, "1") : s \in {"l1", "k1"}}, Contract)
Tags == {Call("tag", "", n, "", "") : n \in {"ff", "aa", "zz"}}
ForContract == Data \cup OwnedFn \cup Tags \cup {Call("liquid", "", "", "", ""), Call("mainnet", "", "", "", "")} \cup Opt(Own, b.det)
Inputs == {Call("input", Kind(t), t, "", v) : t \in {"F", "A", "D", "R", "X"}, v \in {"1", "2"}}
            \cup {Call("input", "data", "F", "", "1"), Call("input", "fungible", "D", "", "1"), Call("input", "rights", "F", "", "1"),
                  Call("input", "fungible", "Z", "", "1")}
Raw == As("rawany", {"F", "D", "R", "X", "Z"}, {"s1"}) \cup {Call("rawany", "fungible", "F", "s2", "2"), Call("rawany", "fungible", "F", "s1", "badtag")}
         \cup {Call("raw", k, t, "s1", "1") : k \in {"fungible", "data"}, t \in {"F", "A", "D", "R", "X", "Z"}}
Defaults == {Call("default", "fungible", "", s, "1") : s \in {"s1", "s2"}} \cup Opt({Call("default", "data", "", "s1", "1")}, ~b.det)
ForTransition == Data \cup OwnedFn \cup Tags \cup Inputs \cup Raw \cup Defaults \cup {Call("nonce", "", "", "", "7")} \cup Opt(Own, b.det)
Calls == IF b.kind = "bogus" THEN {} ELSE IF Contract THEN ForContract ELSE ForTransition

\* calls of longer programs
Core ==
  IF Contract THEN
    Fn("fungible", {"ff"}, {"s1", "s2", "c1"}, {"1", "2"}) \cup Fn("fungible", {"aa"}, {"s1", "s2"}, {"1"}) \cup Fn("data", {"dd"}, {"s1", "c1"}, {"1", "2"})
      \cup Fn("rights", {"rr"}, {"s1", "s2", "c1", "l1"}, {"1"}) \cup {Call("global", "", "gmany", "", v) : v \in {"1", "2"}}
      \cup {Call("liquid", "", "", "", ""), Call("tag", "", "ff", "", "")}
  ELSE
    Fn("fungible", {"ff", "aa"}, {"s1", "c1"}, {"1"}) \cup Fn("fungible", {"ff"}, {"s2"}, {"2"}) \cup Fn("data", {"dd"}, {"s1", "c1"}, {"1"})
      \cup Fn("rights", {"rr"}, {"s1", "s2", "c1"}, {"1"}) \cup Fn("attach", {"xx"}, {"s1", "s2"}, {"1"})
      \cup {Call("input", Kind(t), t, "", "1") : t \in {"F", "A", "D", "R", "X"}} \cup {Call("input", "fungible", "F", "", "2")}
      \cup {Call("global", "", "gmany", "", "1"), Call("meta", "", "mtwo", "", "1"), Call("default", "fungible", "", "s2", "1")}

Builders ==
  CASE Suite = "B01" -> {[kind |-> "contract", det |-> d] : d \in BOOLEAN}
    [] Suite = "B02" -> {[kind |-> k, det |-> d] : k \in {"move", "default", "other", "blank"}, d \in BOOLEAN}
    [] OTHER -> {[kind |-> k, det |-> d] : k \in {"contract", "move", "bogus", "blank"}, d \in BOOLEAN}
Bases ==
  IF b.kind = "bogus" THEN {<<>>}
  ELSE IF Contract THEN {<<>>, <<Call("meta", "", "mone", "", "1"), Call("global", "", "gone", "", "1"), Call("tag", "", "aa", "", "")>>}
  ELSE {<<>>, <<Call("tag", "", "ff", "", ""), Call("tag", "", "aa", "", "")>>}
Main == b.kind \in {"contract", "move"}
Long == IF Suite = "B03" THEN 0 ELSE IF Main /\ Big THEN 4 ELSE IF Main \/ Big THEN 3 ELSE 2
Short == IF Main \/ Big THEN 2 ELSE 1

Run(rs, x) == UNION {{[rets |-> Append(r.rets, q[1]), acc |-> q[2]] : q \in Step(r.acc, x)} : r \in rs}
RECURSIVE RunAll(_, _)
RunAll(rs, p) == IF p = <<>> THEN rs ELSE RunAll(Run(rs, Head(p)), Tail(p))

Init ==
  /\ b \in Builders
  /\ prog \in Bases
  /\ runs = RunAll({[rets |-> <<>>, acc |-> Nothing]}, prog)
Full == CHOOSE q \in Bases : \A p \in Bases : Len(p) <= Len(q)
Base == IF Len(prog) >= Len(Full) /\ SubSeq(prog, 1, Len(Full)) = Full THEN Len(Full) ELSE 0
Added == SubSeq(prog, Base + 1, Len(prog))
Next ==
  /\ Len(Added) < Short \/ (Len(Added) < Long /\ Base > 0 /\ Range(Added) \subseteq Core)
  /\ \E x \in IF Len(Added) < Short THEN Calls ELSE Core :
       /\ \/ Len(Added) < Short
          \/ Len(Added) < Long /\ Base > 0 /\ Range(Append(Added, x)) \subseteq Core
       \* an asset tag is given once
       /\ x.c = "tag" => x \notin Range(prog)
       /\ prog' = Append(prog, x)
       /\ runs' = Run(runs, x)
  /\ UNCHANGED b

------------------------------------------------------------------------------
ResultJ(r) ==
  [rets |-> r.rets, ret |-> Complete(r.acc)] @@
  (IF Complete(r.acc) = "refused" THEN [k \in {} |-> 0]
   ELSE [meta |-> Seq_(r.acc.meta), globals |-> r.acc.globals, st |-> r.acc.st, tags |-> Seq_(r.acc.tags),
         liquid |-> r.acc.liquid, main |-> r.acc.main, nonce |-> r.acc.nonce, ins |-> Seq_(r.acc.ins)])
Out == [f |-> "builder.run", b |-> b, prog |-> prog, out |-> [i \in 1..Cardinality(runs) |-> ResultJ(Seq_(runs)[i])]]
Emit == PrintT(ToJson(Out))

\* nothing is lost: what is accumulated are the accepted calls
Laws ==
  \A r \in runs :
    LET okays == {i \in DOMAIN prog : r.rets[i] = "ok"}
        states == {i \in okays : prog[i].c \in {"fn", "own", "raw", "rawany", "default"}} IN
    /\ Len(r.acc.st) = Cardinality(states)
    /\ \A i \in states : \E j \in DOMAIN r.acc.st : r.acc.st[j][3] = prog[i].seal /\ r.acc.st[j][4] = prog[i].v /\ r.acc.st[j][1] = prog[i].k
    /\ Len(r.acc.globals) = Cardinality({i \in okays : prog[i].c = "global"})
    /\ Cardinality(r.acc.meta) = Cardinality({i \in okays : prog[i].c = "meta"})
    /\ \A i \in DOMAIN r.acc.st : Kind(r.acc.st[i][2]) = r.acc.st[i][1]
=============================================================================
